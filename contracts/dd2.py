"""Ghost heap of the decision-diagram package: nodes, edges and the numbers that are their weights.

A weight is a pointer to a number that is a constant (0 or 1), in the number table, or borrowed from the cache; a borrowed number is returned at most
once and not used after the next number is borrowed.  A node denotes the matrix (vector) made of the blocks of its edges; an edge its weight times that."""
from __future__ import annotations

from fractions import Fraction

from contracts.c03 import prod
from contracts.dd import EDGE, Broken, need
from pyvc import cxx
from pyvc import num as N
from pyvc.num import Num, Unsupported


class W:
    cxx_pointer = True

    def __init__(self, val, state):
        self.val, self.state = Num.lift(val), state

    def cxx_field(self, m, name):
        if name in ("real", "img"):
            return cxx.Ref(lambda: Part(name, self), None)
        raise Unsupported("field " + name + " of a number")


class Part:
    """the real or imaginary part of a number"""
    cxx_pointer = True

    def __init__(self, which, w):
        self.which, self.w = which, w

    def get(self):
        v = self.w.val
        c = v.conjugate()
        if any(getattr(a, "kind", None) == "cplx" for m, _ in v.t for a, _e in m):
            raise Unsupported("a part of an arbitrary number")
        return (v + c) / 2 if self.which == "real" else (v - c) / (2 * N.I)

    def cxx_field(self, m, name):
        if name != "value":
            raise Unsupported("field " + name + " of an entry")

        def s(v):
            need(self.w.state in ("cached", "temp"), "a shared number is overwritten")
            v = cxx.num(v)
            other = Part("img" if self.which == "real" else "real", self.w).get()
            self.w.val = v + N.I * other if self.which == "real" else other + N.I * v
        return cxx.Ref(self.get, s)


def pair(a):
    """the number whose parts are given"""
    x, y = a
    if isinstance(x, Part) and isinstance(y, Part):
        need(x.which == "real" and y.which == "img", "real and imaginary part")
        if x.w is y.w:
            return x.w
    x, y = (v.get() if isinstance(v, Part) else cxx.num(v) for v in (x, y))
    return x + N.I * y


ZERO, ONE = W(0, "const"), W(1, "const")


class Node:
    cxx_pointer = True
    fresh = False   # just taken from the unique table

    def __init__(self, kind, var, edges, data, identity=False):
        self.kind, self.var, self.edges, self.data, self.identity = kind, var, edges, data, identity
        self.symmetric = identity

    def cxx_field(self, m, name):
        if name == "varIndx":
            return cxx.Ref(lambda: self.var, lambda v: setattr(self, "var", cxx.intval(v)))
        if name == "edges" and self.fresh:
            return cxx.Ref(lambda: self.edges, lambda v: setattr(self, "edges", v))
        if name in ("refCount", "next") and self.fresh:
            return cxx.Ref(lambda: 0, lambda v: None)
        if name == "symmetric":
            return cxx.Ref(lambda: self.symmetric, lambda v: setattr(self, "symmetric", bool(v)))
        if name == "edges":
            need(self.var >= 0, "the edges of a terminal")
            if self.edges is None:
                raise Broken("the edges of a node that is known by contract only")
            return cxx.Ref(lambda: self.edges, None)
        if name == "identity":
            return cxx.Ref(lambda: self.identity, (lambda v: setattr(self, "identity", bool(v))) if self.fresh else None)
        raise Unsupported("field " + name + " of a node")


TERM = {"m": Node("m", -1, None, {(0, 0): N.ONE}, True), "v": Node("v", -1, None, {0: N.ONE})}


class E:
    def __init__(self, node, w):
        self.node, self.w = node, w

    def cxx_copy(self):
        return E(self.node, self.w)

    def cxx_field(self, m, name):
        if name == "nextNode":
            def s(v):
                self.node = v
            return cxx.Ref(lambda: self.node, s)
        if name == "weight":
            def t(v):
                self.w = v
            return cxx.Ref(lambda: self.w, t)
        raise Unsupported("field " + name + " of an edge")


def zero(kind):
    return E(TERM[kind], ZERO)


def kind_of(t):
    return "v" if "vNode" in t or "vEdge" in t or "vCached" in t else "m"


class Heap:
    """the package: numbers, tables, contracts"""
    def __init__(self, dims, scale=1, hit=None):
        self.dims, self.scale, self.hit, self.serial = list(dims), Num.lift(scale), hit, 0
        self.inserted = []

    # -------------------------------------------------- numbers
    def read(self, w):
        need(isinstance(w, W), "a number")
        need(w.state != "dead", "a number is used after it went back to the cache")
        return w.val

    def borrow(self, val):
        self.spoil()
        return W(val, "cached")

    def spoil(self):
        self.serial += 1
        for w in self.returned:
            w.state = "dead"
        self.returned = []
    returned: list = []

    def give_back(self, w):
        need(w.state == "cached", f"a number that is not borrowed goes back to the cache ({w.state})")
        w.state = "returned"
        self.returned = [*self.returned, w]

    def write(self, w, val):
        need(w.state in ("cached", "temp", "returned"), "a shared number is overwritten")
        w.val = val

    def looked_up(self, val):
        return ZERO if val.is_const_zero() else ONE if (val - 1).is_const_zero() else W(val, "table")

    # -------------------------------------------------- denotations
    def value(self, e, level):
        """the matrix or vector of an edge over the lines 0..level"""
        need(e.node is not None, "a null edge is used")
        w = self.read(e.w)
        if w.is_const_zero():
            return {}
        need(e.node.var == level, f"an edge to level {e.node.var} where level {level} is needed")
        data = e.node.data if e.node.data is not None else self.blocks(e.node.kind, level, e.node.edges)
        return {k: w * v for k, v in data.items()}

    def blocks(self, kind, q, edges):
        d, sub = self.dims[q], prod(self.dims[:q])
        need(len(edges) == (d if kind == "v" else d * d), f"{len(edges)} edges of a node on a line of dimension {d}")
        out = {}
        for i, e in enumerate(edges):
            for k, v in self.value(e, q - 1).items():
                if kind == "v":
                    out[i * sub + k] = v
                else:
                    out[i // d * sub + k[0], i % d * sub + k[1]] = v
        return {k: v for k, v in out.items() if v.t}

    def edge_for(self, kind, level, data, borrowed=True):
        """an edge that stands for the data: what a contract of an operation returns"""
        data = {k: v for k, v in data.items() if v.t}
        if not data:
            return zero(kind)
        s = Num.const(2)
        if level < 0:
            s, = data.values()
        return E(TERM[kind] if level < 0 else Node(kind, level, None, {k: v / s for k, v in data.items()}), self.borrow(s) if borrowed else self.looked_up(s))

    def make_node(self, m, this, a, n):
        q, edges, cached = cxx.intval(a[0]), a[1], bool(a[2]) if len(a) > 2 and a[2] is not None else False
        kind = kind_of(n.t)
        need(0 <= q < len(self.dims), "the line of a node")
        data = self.blocks(kind, q, edges)
        for e in edges:
            if cached:
                need(e.w.state == "cached" or e.w in (ZERO, ONE), "a node made of borrowed numbers gets a number of the table")
                if e.w.state == "cached":
                    self.give_back(e.w)
            else:
                need(e.w.state in ("const", "table"), "a borrowed number stays in a node")
        if not data:
            return zero(kind)
        s = self.scale
        w = ONE if (s - 1).is_const_zero() else self.borrow(s) if cached else self.looked_up(s)
        return E(Node(kind, q, None, {k: v / s for k, v in data.items()}), w)

    # -------------------------------------------------- operations by contract
    def product(self, x, y, level):
        a, b = self.value(x, level), self.value(y, level)
        from contracts.dd import mul
        return mul(a, b) if a and b else {}

    def c_multiply2(self, m, this, a, n):
        x, y, var = a[0], a[1], cxx.intval(a[2])
        return self.edge_for(kind_of(n.t), var, self.product(x, y, var))

    def total(self, x, y, level):
        a, b = dict(self.value(x, level)), self.value(y, level)
        for k, v in b.items():
            a[k] = a.get(k, N.ZERO) + v
        return {k: v for k, v in a.items() if v.t}

    def c_add2(self, m, this, a, n):
        x, y = a
        need(x.node is not None and y.node is not None, "sum of null edges")
        lv = x.node.var if not x.w.val.is_const_zero() else y.node.var
        return self.edge_for(kind_of(n.t), lv, self.total(x, y, lv))

    def c_adjoint(self, m, this, a, n):
        e = a[0]
        lv = -1 if self.read(e.w).is_const_zero() else e.node.var
        return self.edge_for("m", lv, {(c, r): v.conjugate() for (r, c), v in self.value(e, lv).items()}, False)

    def c_transpose(self, m, this, a, n):
        e = a[0]
        need(e.node is not None and (e.node.var < 0 or e.node.symmetric), "transposition of a node that is not symmetric")
        return e.cxx_copy()

    def c_ident(self, m, this, a, n):
        lo, hi = cxx.intval(a[0]), cxx.intval(a[1])
        need(lo == 0, "identity over the lines from 0")
        if hi < 0:
            return E(TERM["m"], ONE)
        return E(Node("m", hi, None, {(i, i): N.ONE for i in range(prod(self.dims[:hi + 1]))}, True), ONE)

    def lookup(self, m, this, a, n):
        if this is self.numbers:
            return self.looked_up(self.read(a[0])) if len(a) == 1 else self.looked_up(self.read(self.as_w(pair(a))))
        if this is self.unique:
            return a[0].cxx_copy()
        return E(None, ZERO) if self.hit is None else self.hit(a)

    @staticmethod
    def as_w(v):
        return v if isinstance(v, W) else W(v, "temp")

    def new_node(self, m, this, a, n):
        x = Node(kind_of(n.t), None, None, None)
        x.fresh = x.identity = x.symmetric = True       # a recycled node still has the flags of its former life
        return x

    def insert(self, m, this, a, n):
        self.inserted.append([x.cxx_copy() for x in a])
        for x in self.inserted[-1]:
            x.w = W(self.read(x.w), "table")

    # -------------------------------------------------- interface
    class Numbers:
        def cxx_field(self, m, name):
            raise Unsupported("field " + name)

    class Table:
        def cxx_field(self, m, name):
            raise Unsupported("field " + name)
    numbers, table, unique = Numbers(), Table(), Table()

    def cxx_field(self, m, name):
        v = {"registersSizes": self.dims, "complexNumber": self.numbers, "conjugateMatrixTranspose": self.table, "vUniqueTable": self.unique, "mUniqueTable": self.unique, "numberOfQuantumRegisters": len(self.dims)}.get(name)
        if v is None:
            raise Unsupported("field " + name + " of the package")
        return cxx.Ref(lambda: v, None)

    def hooks(self, *own):
        def eq(m, t, a, n):
            if isinstance(a[0], W) and isinstance(a[1], W):
                return a[0] is a[1]
            if isinstance(a[0], E) and isinstance(a[1], E):
                return a[0].node is a[1].node and (self.read(a[0].w) - self.read(a[1].w)).is_const_zero()
            return NotImplemented

        def ne(m, t, a, n):
            r = eq(m, t, a, n)
            return r if r is NotImplemented else not r

        def cached(m, t, a, n):
            if len(a) == 1:
                return self.borrow(self.read(a[0]))
            return self.borrow(self.read(self.as_w(pair(a))))

        def mulw(m, t, a, n):
            self.write(a[0], self.read(a[1]) * self.read(a[2]))

        def divw(m, t, a, n):
            self.write(a[0], self.read(a[1]) / self.read(a[2]))

        def init(m, b, n):
            if EDGE.match(b) or "CachedEdge<" in b:
                vals = [m.ev(c) for c in n.inner] if n.inner and n.inner[0].kind not in ("ImplicitValueInitExpr", "CXXDefaultInitExpr") else []
                if not vals:
                    return E(None, ZERO)
                if len(vals) == 1 and isinstance(vals[0], E):
                    return vals[0].cxx_copy()
                if len(vals) == 2 and isinstance(vals[1], W):
                    return E(vals[0], vals[1])
                raise Unsupported("initialiser of an edge")
            if b.startswith(("std::complex<", "complex<")):
                vals = [m.ev(c) for c in n.inner]
                return self.parts(vals)
            return NotImplemented

        def construct(m, b, args):
            if EDGE.match(b) or "CachedEdge<" in b:
                vals = [m.ev(c) for c in args]
                if not vals:
                    return E(None, ZERO)
                if len(vals) == 1 and isinstance(vals[0], E):
                    return vals[0].cxx_copy()
                if len(vals) == 2 and isinstance(vals[1], W):
                    self.read(vals[1])
                    return E(vals[0], vals[1])
                raise Unsupported("constructor of an edge")
            if b.startswith(("std::complex<", "complex<")):
                return self.parts([m.ev(c) for c in args])
            if b.split("::")[-1] == "Complex" and len(args) == 1:
                return m.ev(args[0])
            return NotImplemented

        def glob(c, w):
            def f(m, d):
                b = cxx.base(d.t)
                if EDGE.match(b) or b == "Edge":
                    return E(TERM[kind_of(b + " " + (d.mangled or ""))], w)
                return w
            return f
        h = {"operator==": eq, "operator!=": ne, "getCached": cached, "mulCached": lambda m, t, a, n: self.borrow(self.read(a[0]) * self.read(a[1])),
             "addCached": lambda m, t, a, n: self.borrow(self.read(a[0]) + self.read(a[1])), "returnToCache": lambda m, t, a, n: self.give_back(a[0]), "mul": mulw,
             "div": divw, "mag2": lambda m, t, a, n: (self.read(a[0]) * self.read(a[0]).conjugate()), "tolerance": lambda m, t, a, n: Num.lift(Fraction(1, 10 ** 10)),
             "getUniqueTable": lambda m, t, a, n: self.unique, "getNode": self.new_node, "returnNode": lambda m, t, a, n: None, "transpose": self.c_transpose,
             "conj": lambda m, t, a, n: W(self.read(a[0]).conjugate(), a[0].state), "getTemporary": lambda m, t, a, n: W(0, "temp"), "val": lambda m, t, a, n: a[0],
             "approximatelyZero": lambda m, t, a, n: self.read(t).is_const_zero(), "approximatelyOne": lambda m, t, a, n: (self.read(t) - 1).is_const_zero(),
             "isTerminal": lambda m, t, a, n: (t if t is not None else a[0]).node in TERM.values(), "cacheCount": lambda m, t, a, n: 0, "getCount": lambda m, t, a, n: 0,
             "terminal": lambda m, t, a, n: E(TERM[kind_of(n.t)], a[0]), "makeDDNode": self.make_node, "makeIdent": self.c_ident, "lookup": self.lookup, "insert": self.insert,
             "getMultiplicationComputeTable": lambda m, t, a, n: self.table, "getAddComputeTable": lambda m, t, a, n: self.table, "multiply2": self.c_multiply2, "add2": self.c_add2,
             "conjugateTranspose": self.c_adjoint, "init": init, "construct": construct, "global:zero": glob("zero", ZERO), "global:one": glob("one", ONE),
             "default": lambda m, b: E(None, ZERO) if EDGE.match(b) else (W(0, "temp") if b.split("::")[-1] == "Complex" else None)}
        for x in own:
            h.pop(x)
        return h

    def parts(self, vals):
        if len(vals) == 1:
            return vals[0]
        return self.read(self.as_w(pair(vals)))
