"""Ghost decision diagrams: what the C++ package is specified to compute, over the entries of the matrix or vector a diagram stands for.

An edge denotes a matrix (or vector) over the lines 0..level with line 0 least significant; makeDDNode, multiply, conjugateTranspose and
getVector are used by contract, everything else that is named in an obligation is the text of the C++ source as clang reads it."""
from __future__ import annotations

import re

from contracts.c03 import prod
from pyvc import cxx
from pyvc import num as N
from pyvc.num import Unsupported
from pyvc.num import Num

EDGE = re.compile(r"^(dd::)?(MDDPackage::)?[mv]Edge$|^(dd::)?Edge<.*>$")


class Broken(Exception):
    """a contract's precondition does not hold at the call"""


class Edge:
    """data: scalar Num (terminal), {(r, c): Num} or {r: Num}; level -1 for a terminal"""
    def __init__(self, level, data, null=False):
        self.level, self.data, self.null = level, data, null

    def cxx_field(self, m, name):
        if name == "nextNode":
            return cxx.Ref(lambda: None if self.null else self, None)
        if name == "weight" and self.level < 0:
            return cxx.Ref(lambda: self.data, None)
        raise Unsupported("field " + name + " of a decision diagram edge")

    def __deepcopy__(self, memo):
        return self

    def zero(self):
        return not self.data.t if isinstance(self.data, Num) else not self.data


ZERO, ONE = Edge(-1, N.ZERO), Edge(-1, N.ONE)


class Pkg:
    def __init__(self, dims):
        self.dims = list(dims)
        self.idTable = [Edge(-1, N.ZERO, null=True) for _ in dims]

    def cxx_field(self, m, name):
        if name == "numberOfQuantumRegisters":
            return cxx.Ref(lambda: len(self.dims), None)
        if name == "registersSizes":
            return cxx.Ref(lambda: self.dims, None)
        if name == "idTable":
            return cxx.Ref(lambda: self.idTable, None)
        if name == "complexNumber":
            return cxx.Ref(lambda: Complex(), None)
        raise Unsupported("field " + name + " of the package")

    def __deepcopy__(self, memo):
        return self


class Complex:
    def __deepcopy__(self, memo):
        return self

    def cxx_field(self, m, name):
        raise Unsupported("field " + name)



def entry(v):
    """the value of a ComplexValue {r, i}"""
    if isinstance(v, cxx.Struct):
        return cxx.num(v.f["r"]) + N.I * cxx.num(v.f["i"])
    if isinstance(v, Num):
        return v
    raise Unsupported("complex value")


def need(c, text):
    if not c:
        raise Broken(text)


def below(e, level, vector):
    """the matrix or vector of an edge used below a node of the level: full over the lines 0..level, terminals only for level -1 or zero"""
    if e.null:
        raise Broken("a null edge is used")
    if e.zero():
        return {}
    need(e.level == level, f"a node over line {level + 1} points to level {e.level}")
    if level < 0:
        return {0: e.data} if vector else {(0, 0): e.data}
    return e.data


def make_node(m, this, args, n):
    """contract of makeDDNode(line, edges): the matrix (d*d edges, row-major) or vector (d edges) with these blocks"""
    q, edges = cxx.intval(args[0]), args[1]
    dims = PKG[-1].dims
    need(0 <= q < len(dims), "line of the node")
    d = dims[q]
    sub = prod(dims[:q])
    if len(edges) == d:
        out = {}
        for i, e in enumerate(edges):
            for r, v in below(e, q - 1, True).items():
                out[i * sub + r] = v
        return Edge(q, out)
    need(len(edges) == d * d, f"{len(edges)} edges for a line of dimension {d}")
    out = {}
    for i in range(d):
        for j in range(d):
            for (r, c), v in below(edges[i * d + j], q - 1, False).items():
                out[i * sub + r, j * sub + c] = v
    return Edge(q, out)


def controls_of(v):
    if v is None:
        return []
    if isinstance(v, cxx.CSet):
        return [x for x in v.items]
    if isinstance(v, cxx.Struct):
        return controls_of(v.f["c"]) if set(v.f) == {"c"} else [v]
    if isinstance(v, list):
        return v
    raise Unsupported("controls")


def embed(dims, mat, target, ctl):
    """{(r, c): entry} of the matrix on line `target` where the controls (line, level) are met, identity elsewhere"""
    d = dims[target]
    n = prod(dims)
    st = [prod(dims[:q]) for q in range(len(dims))]
    out = {}
    for c in range(n):
        t = c // st[target] % d
        if any(c // st[q] % dims[q] != l for q, l in ctl):
            out[c, c] = N.ONE
            continue
        for k in range(d):
            v = mat[k * d + t]
            if v.t:
                out[c + (k - t) * st[target], c] = v
    return out


def make_gate(m, this, args, n):
    """contract of makeGateDD(matrix, number of lines, controls, target, start)"""
    dims = PKG[-1].dims
    if len(args) == 4 and isinstance(args[2], int):
        mat, k, target, start, ctl = args[0], args[1], args[2], args[3], None
    else:
        mat, k, ctl, target = args[:4]
        start = args[4] if len(args) > 4 else 0
    k, target, start = cxx.intval(k), cxx.intval(target), cxx.intval(start or 0)
    need(k == len(dims) and start == 0, "number of lines of makeGateDD")
    need(0 <= target < k, "target line")
    need(len(mat) == dims[target] ** 2, f"a matrix of {len(mat)} entries on a line of dimension {dims[target]}")
    cs = [(cxx.intval(x.f["quantumRegister"]), cxx.intval(x.f["type"])) for x in controls_of(ctl)]
    need(all(0 <= q < k and q != target and 0 <= l < dims[q] for q, l in cs), "control lines and levels")
    return Edge(k - 1, embed(dims, [entry(x) for x in mat], target, cs))


def ident(m, this, args, n):
    """contract of makeIdent"""
    lo, hi = (0, cxx.intval(args[0]) - 1) if len(args) == 1 else (cxx.intval(args[0]), cxx.intval(args[1]))
    if hi < lo:
        return ONE
    need(lo == 0, "identity over the lines from 0")
    return Edge(hi, {(i, i): N.ONE for i in range(prod(PKG[-1].dims[:hi + 1]))})


def full(e, vector=False):
    need(not e.null, "a null edge is used")
    if e.zero():
        return {}
    need(e.level == len(PKG[-1].dims) - 1, "diagram over all lines")
    need((not vector) == all(isinstance(k, tuple) for k in e.data), "matrix or vector")
    return e.data


def mul(a, b):
    out = {}
    if all(isinstance(k, tuple) for k in b):
        rows = {}
        for (r, c), v in b.items():
            rows.setdefault(r, []).append((c, v))
        for (r, k), v in a.items():
            for c, w in rows.get(k, []):
                out[r, c] = out.get((r, c), N.ZERO) + v * w
    else:
        for (r, k), v in a.items():
            if k in b:
                out[r] = out.get(r, N.ZERO) + v * b[k]
    return {k: v for k, v in out.items() if v.t}


def multiply(m, this, args, n):
    """contract of multiply: the product"""
    a, b = args[0], args[1]
    vec = b.level >= 0 and not all(isinstance(k, tuple) for k in b.data)
    return Edge(len(PKG[-1].dims) - 1, mul(full(a), full(b, vec)))


def adjoint(m, this, args, n):
    return Edge(len(PKG[-1].dims) - 1, {(c, r): v.conjugate() for (r, c), v in full(args[0]).items()})


def vector(m, this, args, n):
    """contract of getVector: amplitude of every basis state, line 0 least significant"""
    v = full(args[0], True)
    return [v.get(i, N.ZERO) for i in range(prod(PKG[-1].dims))]


PKG: list = []


def default(m, b):
    if EDGE.match(b):
        return Edge(-1, N.ZERO, null=True)
    return None


def hooks(pkg, *drop):
    PKG.clear()
    PKG.append(pkg)
    h = {"default": default, "global:one": lambda m, d: ONE if EDGE.match(cxx.base(d.t)) else None, "global:zero": lambda m, d: ZERO,
         "lookup": lambda m, t, a, n: entry(a[0]), "terminal": lambda m, t, a, n: Edge(-1, entry(a[0])), "makeDDNode": make_node, "makeGateDD": make_gate, "makeIdent": ident, "multiply": multiply,
         "conjugateTranspose": adjoint, "getVector": vector}
    for x in drop:
        h.pop(x)

    def init(m, b, n):
        if EDGE.match(b) and (not n.inner or n.inner[0].kind in ("ImplicitValueInitExpr", "CXXDefaultInitExpr")):
            return Edge(-1, N.ZERO, null=True)
        return NotImplemented

    def construct(m, b, args):
        if EDGE.match(b) and len(args) == 1:
            v = m.ev(args[0])
            if isinstance(v, Edge):
                return v
        if EDGE.match(b) and not args:
            return Edge(-1, N.ZERO, null=True)
        return NotImplemented
    h["init"], h["construct"] = init, construct
    return h


def guard(vc, f):
    """a C++ exception or a call outside a contract's precondition is a failure of the obligation"""
    try:
        f()
    except Broken as e:
        vc.fail(f"precondition of a decision diagram operation: {e}")
    except cxx.CxxError as e:
        vc.fail(f"C++ exception: {e}")
