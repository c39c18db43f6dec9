"""Ghost memory of the number layer and of the tables of the decision-diagram package.

An entry holds a real number and is a constant, in the number table, or handed out by the cache; only the latter may be overwritten.
A pointer to an entry carries a sign; reading the fields of an entry through a negative pointer is a misaligned access."""
from __future__ import annotations

from fractions import Fraction

from contracts.dd import EDGE, need
from pyvc import cxx
from pyvc import num as N
from pyvc.num import Num, Unsupported

TOL = Fraction(1, 10 ** 6)


class Entry:
    def __init__(self, value, kind):
        self.value, self.kind, self.next, self.ref = Num.lift(value), kind, None, 0
        self.pos, self.neg = Ptr(self, False), Ptr(self, True)

    def __deepcopy__(self, memo):
        return self


class Ptr:
    cxx_pointer = True

    def __init__(self, entry, negative):
        self.entry, self.negative = entry, negative

    def __deepcopy__(self, memo):
        return self

    def cxx_field(self, m, name):
        need(not self.negative, "an entry is accessed through a signed pointer")
        e = self.entry

        def put(v):
            need(e.kind in ("cache", "new"), f"an entry that is shared ({e.kind}) is overwritten")
            e.value = Num.lift(cxx.num(v))
        if name == "value":
            return cxx.Ref(lambda: e.value, put)
        if name == "next":
            return cxx.Ref(lambda: e.next, lambda v: setattr(e, "next", v))
        if name == "refCount":
            return cxx.Ref(lambda: e.ref, lambda v: setattr(e, "ref", v))
        raise Unsupported("field " + name + " of an entry")


ZERO, ONE, SQRT2_2 = Entry(0, "const"), Entry(1, "const"), Entry(N.num_sqrt(Num.lift(2)) / 2, "const")


class Sparse:
    """an array with a default value"""
    def __init__(self, default, size):
        self.default, self.size, self.d = default, size, {}

    def cxx_element(self, m, i, checked):
        i = cxx.intval(i)
        need(0 <= i < self.size, "index of a table")
        if i not in self.d:
            self.d[i] = self.default()
        return cxx.Ref(lambda: self.d[i], lambda v: self.d.__setitem__(i, v))

    def __deepcopy__(self, memo):
        return self


class Chunks:
    """the chunks of entries of a cache or table"""
    def __init__(self, sizes, make=lambda: Entry(0, "new").pos):
        self.make = make if make is not Node else lambda: Node(None, [])
        self.c = [[self.make() for _ in range(k)] for k in sizes]

    def cxx_element(self, m, i, checked):
        need(0 <= cxx.intval(i) < len(self.c), "index of a chunk")
        return cxx.Cell(self.c[cxx.intval(i)])

    def cxx_method(self, m, name, a, n):
        if name == "emplace_back":
            self.c.append([self.make() for _ in range(min(cxx.intval(a[0]), 64))])
            return None
        if name == "size":
            return len(self.c)
        raise Unsupported("chunks." + name)

    def __deepcopy__(self, memo):
        return self


class Node:
    cxx_pointer = True

    def __init__(self, var, edges=None):
        self.f = {"varIndx": var, "edges": edges, "next": None, "refCount": 0, "identity": False, "symmetric": False}

    def cxx_field(self, m, name):
        if name not in self.f:
            raise Unsupported("field " + name + " of a node")
        return cxx.Ref(lambda: self.f[name], lambda v: self.f.__setitem__(name, v))

    def __deepcopy__(self, memo):
        return self


class E:
    """an edge or cached edge: a node and a weight"""
    def __init__(self, node, w):
        self.node, self.w = node, w

    def cxx_copy(self):
        return E(self.node, cxx.copy(self.w))

    def cxx_field(self, m, name):
        if name == "nextNode":
            return cxx.Ref(lambda: self.node, lambda v: setattr(self, "node", v))
        if name == "weight":
            return cxx.Ref(lambda: self.w, lambda v: setattr(self, "w", v))
        raise Unsupported("field " + name + " of an edge")


TERMINAL = Node(-1, [])


class Wild:
    """a pointer that was not initialised"""
    cxx_pointer = True

    def cxx_field(self, m, name):
        need(False, "a pointer that was not initialised is followed")

    def __deepcopy__(self, memo):
        return self


WILD = Wild()


def number(real, img):
    """a Complex: pointers to its parts"""
    return cxx.Struct("Complex", {"real": real, "img": img})


def value(c):
    def v(p):
        return -p.entry.value if p.negative else p.entry.value
    return v(c.f["real"]) + N.I * v(c.f["img"])


C_ZERO, C_ONE = number(ZERO.pos, ZERO.pos), number(ONE.pos, ZERO.pos)


def is_complex(b):
    return b.split("::")[-1] == "Complex"


def hooks(**more):
    def glob(e, c):
        def f(m, d):
            b = cxx.base(d.t)
            if b.endswith("Entry"):
                return e.pos
            if is_complex(b):
                return c
            if EDGE.match(b) or b.startswith(("Edge<", "dd::Edge<")):
                return E(TERMINAL, c)
            raise Unsupported("constant of type " + b)
        return f

    def init(m, b, n):
        absent = ("ImplicitValueInitExpr", "CXXDefaultInitExpr")
        vals = lambda: [None if c.kind in absent else m.ev(c) for c in n.inner]
        if is_complex(b):
            v = vals()
            return number(*v) if len(v) == 2 else number(None, None)
        if (EDGE.match(b) or "Edge<" in b) and b.split("::")[-1] != "Entry":
            v = vals()
            if not v or all(x is None for x in v):
                return E(None, None)
            if len(v) == 2:
                return E(v[0], cxx.copy(v[1]))
            if len(v) == 1 and isinstance(v[0], E):
                return v[0].cxx_copy()
        if b.split("::")[-1] == "Entry":
            v = vals()
            rec = next(([c.name for c in r.inner if c.kind == "FieldDecl"] for r in m.p.by_id.values() if r.kind == "CXXRecordDecl" and r.name == "Entry"
                        and sum(1 for c in r.inner if c.kind == "FieldDecl") == len(v) and any(c.name == "result" for c in r.inner)), None)
            if rec is None:
                raise Unsupported("initialiser of a table entry")
            return cxx.Struct("Entry", dict(zip(rec, (cxx.copy(x) for x in v))))
        return NotImplemented

    def construct(m, b, args):
        if is_complex(b):
            v = [m.ev(c) for c in args]
            return cxx.copy(v[0]) if v else number(None, None)
        if EDGE.match(b) or "Edge<" in b:
            v = [m.ev(c) for c in args]
            if not v:
                return E(None, None)
            if len(v) == 1 and isinstance(v[0], E):
                return v[0].cxx_copy()
            if len(v) == 2:
                return E(v[0], cxx.copy(v[1]))
        return NotImplemented

    def aligned(p):
        need(isinstance(p, Ptr), "a pointer to an entry")
        return p
    h = {"getAlignedPointer": lambda m, t, a, n: aligned(a[0]).entry.pos, "getNegativePointer": lambda m, t, a, n: aligned(a[0]).entry.neg,
         "flipPointerSign": lambda m, t, a, n: aligned(a[0]).entry.pos if a[0].negative else a[0].entry.neg, "isNegativePointer": lambda m, t, a, n: aligned(a[0]).negative,
         "global:zero": glob(ZERO, C_ZERO), "global:one": glob(ONE, C_ONE), "global:sqrt2_2": glob(SQRT2_2, None), "global:TOLERANCE": lambda m, d: Num.lift(TOL),
         "global:SQRT2_2": lambda m, d: SQRT2_2.value, "init": init, "construct": construct, "global:terminal": lambda m, d: TERMINAL,
         "default": lambda m, b: WILD if b.endswith("*") else number(None, None) if is_complex(b) else E(None, None) if EDGE.match(b) or "Edge<" in b else None}
    h.update(more)
    return h


def bodies(m, name, pattern, cls=""):
    """the instantiated bodies of a method"""
    return [f for f in m.p.funcs.get(name, []) if f.mangled and pattern in f.t and cls in f.mangled]
