"""C01: every gate of the gate set has its defining matrix, for every dimension and parameter, and that matrix is unitary."""
from __future__ import annotations

import inspect

from pyvc import arr as A
from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc import symnp as np
from pyvc.api import FakeCircuit, cos, delta, ensure_matrix, expi, index, ob, sin
from pyvc.builtins_ import SymSeq
from pyvc.num import Num

from . import spec

P = "C01"
G = "quantum_circuit/gates/"


def gates():
    return loader.load("quantum_circuit.gates")


def levels(vc, d):
    a, b = vc.int("lev_a", 0), vc.int("lev_b", 0)
    vc.assume(a < d)
    vc.assume(b < d)
    vc.assume(a != b)
    return a, b


def circ1(vc):
    d = vc.int("d", 2)
    return d, FakeCircuit([d])


MODE = "plain"      # C02 runs the same contracts on the dagger, the dagger of the dagger and the level of embedding


def under(vc, gate, sp):
    """the matrix under contract and its specification, in the mode"""
    if MODE == "plain":
        return gate.to_matrix(0), sp
    t, p, dims = gate.target_qudits, gate._params, gate._dimensions
    g = gate.dag()
    vc.ensure(g is gate, "dag returns the gate itself")
    if MODE == "dag dag":
        g = g.dag()
    vc.ensure(g.target_qudits is t and g._params is p and g._dimensions is dims, "dag keeps targets, parameters and dimensions")
    if MODE == "dag dag":
        return g.to_matrix(0), sp
    h = len(inspect.signature(sp).parameters) // 2
    return g.to_matrix(0), lambda *i: Num.lift(sp(*i[h:], *i[:h])).conjugate()


def check(vc, gate, sp, d, label="matrix"):
    M, sp = under(vc, gate, sp)
    ensure_matrix(vc, M, sp, (d, d), label)


@ob(P, "R.matrix", [G + "r.py:R.__init__", G + "r.py:R.__array__", G + "r.py:R.validate_parameter", G + "r.py:R.levels_setter",
                    G + "gellmann.py:GellMann.__array__", "compiler/compilation_minitools:regulate_theta"], case="gate_matrix", fixed={"gate": "r"})
def r(vc):
    d, c = circ1(vc)
    a, b = levels(vc, d)
    t, p = vc.angle("theta"), vc.angle("phi")
    check(vc, gates().R(c, "R", 0, [a, b, t, p], d), spec.r(d, a, b, t, p), d)


def r_contract(vc_t):
    """R as its contract (proved by R.matrix): the caller is checked against the contract, not the body"""
    class RContract:
        def __init__(self, circuit, name, target_qudits, parameters, dimensions, controls=None):
            a, b, t, p = parameters
            ok = bool(Num.lift(a) >= 0) and bool(Num.lift(a) < dimensions) and bool(Num.lift(b) >= 0) and bool(Num.lift(b) < dimensions) and bool(Num.lift(a) != b)
            if not ok or controls is not None:
                raise AssertionError("precondition of R")
            t, p = Num.lift(t) if isinstance(t, Num) else np.array([t])[0], p if isinstance(p, Num) else np.array([p])[0]
            sup = spec.two_level_support(a, b)
            self.m = A.SArr((dimensions, dimensions), spec.r(dimensions, a, b, Num.lift(t), Num.lift(p)), rows=sup, cols=sup)
            self.theta = t

        def to_matrix(self, identities=0):
            return self.m

        __array__ = to_matrix
    return RContract


def with_r_contract(mod, f):
    m = loader.load("quantum_circuit.gates." + mod)
    old = m.R
    m.R = r_contract(None)
    try:
        return f()
    finally:
        m.R = old


@ob(P, "Rz.matrix", [G + "rz.py:Rz.__init__", G + "rz.py:Rz.__array__", G + "rz.py:Rz.validate_parameter"], case="gate_matrix", fixed={"gate": "rz"}, budget=150)
def rz(vc):
    d, c = circ1(vc)
    a, b = levels(vc, d)
    p = vc.angle("phi")
    with_r_contract("rz", lambda: check(vc, gates().Rz(c, "Rz", 0, [a, b, p], d), spec.rz(d, a, b, p), d))


@ob(P, "Rh.matrix", [G + "rh.py:Rh.__init__", G + "rh.py:Rh.__array__", G + "rh.py:Rh.validate_parameter"], case="gate_matrix", fixed={"gate": "rh"}, budget=150)
def rh(vc):
    d, c = circ1(vc)
    a, b = levels(vc, d)
    with_r_contract("rh", lambda: check(vc, gates().Rh(c, "Rh", 0, [a, b], d), spec.rh(d, a, b), d))


@ob(P, "VirtRz.matrix", [G + "virt_rz.py:VirtRz.__init__", G + "virt_rz.py:VirtRz.__array__"], case="gate_matrix", fixed={"gate": "virtrz"})
def virtrz(vc):
    d, c = circ1(vc)
    a = vc.int("lev_a", 0)
    vc.assume(a < d)
    p = vc.angle("phi")
    check(vc, gates().VirtRz(c, "V", 0, [a, p], d), spec.virtrz(d, a, p), d)


@ob(P, "NoiseX.matrix", [G + "noise_x.py:NoiseX.__array__"], case="gate_matrix", fixed={"gate": "noisex"})
def noisex(vc):
    d, c = circ1(vc)
    a, b = levels(vc, d)
    check(vc, gates().NoiseX(c, "nx", 0, [a, b], d), spec.noisex(d, a, b), d)


@ob(P, "NoiseY.matrix", [G + "noise_y.py:NoiseY.__array__"], case="gate_matrix", fixed={"gate": "noisey"})
def noisey(vc):
    d, c = circ1(vc)
    a, b = levels(vc, d)
    check(vc, gates().NoiseY(c, "ny", 0, [a, b], d), spec.noisey(d, a, b), d)


@ob(P, "X.matrix", [G + "x.py:X.__array__"], case="gate_matrix", fixed={"gate": "x"})
def x(vc):
    d, c = circ1(vc)
    check(vc, gates().X(c, "X", 0, d), spec.x(d), d)


@ob(P, "Z.matrix", [G + "z.py:Z.__array__"], case="gate_matrix", fixed={"gate": "z"})
def z(vc):
    d, c = circ1(vc)
    check(vc, gates().Z(c, "Z", 0, d), spec.z(d), d)


@ob(P, "H.matrix", [G + "h.py:H.__array__"], case="gate_matrix", fixed={"gate": "h"})
def h(vc):
    d, c = circ1(vc)
    check(vc, gates().H(c, "H", 0, d), spec.h(d), d)


@ob(P, "S.matrix", [G + "s.py:S.__array__"], case="gate_matrix", fixed={"gate": "s"})
def s(vc):
    d, c = circ1(vc)
    m = loader.load("quantum_circuit.gates.s")
    old = m.S.__dict__["is_prime"]
    m.S.is_prime = staticmethod(lambda n: True)        # contract of is_prime for a prime
    try:
        g = gates().S(c, "S", 0, d)
    finally:
        m.S.is_prime = old
    check(vc, g, spec.s(d), d)


@ob(P, "S.is_prime", [G + "s.py:S.is_prime", G + "s.py:S.__init__"], bound="dimensions 0 <= n <= 400", case="prime")
def is_prime(vc):
    for n in range(-1, 400):
        want = n >= 2 and all(n % k for k in range(2, n))
        ctx_in = C.ctx().inputs
        ctx_in["n"] = n
        vc.ensure(bool(gates().S.is_prime(n)) == want, f"is_prime({n})")
    from_ = loader.load("exceptions.circuiterror") if False else loader.load("exceptions")
    for n in (2, 3, 4, 6, 7, 9):
        C.ctx().inputs["n"] = n
        if all(n % k for k in range(2, n)):
            gates().S(FakeCircuit([n]), "S", 0, n)
            vc.ok("accepted")
        else:
            vc.ensure_raises(Exception, lambda n=n: gates().S(FakeCircuit([n]), "S", 0, n), "S on a composite dimension is rejected")


for _t in "sad":
    @ob(P, f"GellMann.{_t}", [G + "gellmann.py:GellMann.__init__", G + "gellmann.py:GellMann.__array__"], case="gate_matrix", fixed={"gate": "gell", "t": _t})
    def gell(vc, t=_t):
        d, c = circ1(vc)
        a, b = vc.int("lev_a", 0), vc.int("lev_b", 1)
        vc.assume(a < b)
        vc.assume(b < d)
        check(vc, gates().GellMann(c, "g", 0, [a, b, t], d), spec.gell(d, a, b, t), d)


class SymPerm(list):
    """an arbitrary list of d levels (uninterpreted)"""
    vc_symbolic = True

    def __init__(self, n):
        super().__init__()
        self.n = n
        self.cache = {}

    def fn(self, i):
        c = C.ctx()
        i = c.norm(Num.lift(i))
        for j, v in self.cache.values():
            if bool(i == j):
                return v
        v = Num.var(f"perm!{len(self.cache)}", "int")
        self.cache[len(self.cache)] = (i, v)
        c.add(C.zreal(v) >= 0)
        c.add(C.zreal(v) < C.zreal(self.n))
        return v

    sym_at = fn

    @property
    def sym_len(self):
        return self.n


@ob(P, "Perm.matrix", [G + "perm.py:Perm.__init__", G + "perm.py:Perm.__array__", G + "perm.py:Perm.validate_parameter"], case="gate_matrix", fixed={"gate": "pm"})
def perm(vc):
    d, c = circ1(vc)
    base = SymPerm(d)
    p = SymSeq(d, base.fn, "list")
    C.ctx().inputs["perm"] = None
    check(vc, gates().Perm(c, "P", 0, p, d), spec.perm(p.fn), d)


# ------------------------------------------------------------------ two-qudit gates
def circ2(vc, rev, gap=False):
    """two lines; rev: the first target is the higher line"""
    d0, d1 = vc.int("d0", 2), vc.int("d1", 2)
    t = [1, 0] if rev else [0, 1]
    c = FakeCircuit([d0, d1])
    dims = [c.dimensions[k] for k in t]
    return c, t, dims, d0, d1


def idx2(vc, d0, d1):
    i0, i1 = index(vc, "i0_", d0), index(vc, "i1_", d1)
    return i0, i1


def check2(vc, gate, f, d0, d1, label="matrix"):
    M, f = under(vc, gate, f)
    vc.ensure(Num.lift(M.shape[0]) == d0 * d1, label + ": rows")
    vc.ensure(Num.lift(M.shape[1]) == d0 * d1, label + ": columns")
    i0, i1 = idx2(vc, d0, d1)
    j0, j1 = idx2(vc, d0, d1)
    S = A.to_sarr(M)
    vc.ensure_eq(S.at(i0 * d1 + i1, j0 * d1 + j1), f(i0, i1, j0, j1), label)


def x_power_contract(d):
    """X.to_matrix as its contract X|k> = |k+1 mod d>; its n-th power shifts by n (lemma X.power)"""
    m = A.SArr((d, d), spec.x(d))
    m.vc_power = lambda n: A.SArr((d, d), spec.x_pow(d, n))
    return m


@ob(P, "X.power", [], case=None)
def x_power(vc):
    """lemma: x_pow(d, n) . X == x_pow(d, n+1) and x_pow(d, 0) == 1, so matrix_power(X, n) is the shift by n (induction)"""
    d = vc.int("d", 2)
    n = vc.int("n", 0)
    i, j = index(vc, "i", d), index(vc, "j", d)
    vc.ensure_eq(A.SArr((d, d), spec.x_pow(d, 0)).at(i, j), delta(i, j), "base")
    # column j of X has its only entry in row j+1 mod d (spec.x)
    X = A.SArr((d, d), spec.x(d), cols=lambda q: [0 if A.eqi(q, d - 1) else Num.lift(q) + 1])
    prod = A.matmul(A.SArr((d, d), spec.x_pow(d, n)), X)
    vc.ensure_eq(prod.at(i, j), spec.x_pow(d, n + 1)(i, j), "step")


def _csum(rev):
    @ob(P, f"CSum.matrix.{'descending' if rev else 'ascending'}", [G + "csum.py:CSum.__array__", "quantum_circuit/components/extensions/matrix_factory.py:from_dirac_to_basis"],
        case="gate2_matrix", fixed={"gate": "csum", "rev": rev}, budget=150)
    def csum(vc):
        c, t, dims, d0, d1 = circ2(vc, rev)
        m = loader.load("quantum_circuit.gates.csum")
        old = m.X

        class XC:
            def __init__(self, circuit, name, target, dimensions, controls=None):
                if controls is not None:
                    raise AssertionError
                self.d = dimensions

            def to_matrix(self, identities=0):
                return x_power_contract(self.d)

            __array__ = to_matrix
        m.X = XC
        try:
            g = gates().CSum(c, "cs", t, dims, None)

            def f(i0, i1, j0, j1):
                ci, ti, cj, tj, dt = (i1, i0, j1, j0, d0) if rev else (i0, i1, j0, j1, d1)
                if not A.eqi(ci, cj):
                    return N.ZERO
                return N.ONE if A.eqi(ti, N.num_mod(Num.lift(tj) + cj, dt)) else N.ZERO
            check2(vc, g, f, d0, d1)
        finally:
            m.X = old


def _cex(rev, custom):
    @ob(P, f"CEx.matrix.{'descending' if rev else 'ascending'}.{'custom' if custom else 'default'}", [G + "cx.py:CEx.__init__", G + "cx.py:CEx.__array__", G + "cx.py:CEx.validate_parameter"],
        case="gate2_matrix", fixed={"gate": "cx", "rev": rev, "custom": custom}, budget=150)
    def cex(vc):
        c, t, dims, d0, d1 = circ2(vc, rev)
        dc, dt = (d1, d0) if rev else (d0, d1)
        if custom:
            a, b = vc.int("lev_a", 0), vc.int("lev_b", 1)
            vc.assume(a < b)
            vc.assume(b < dt)
            lc = vc.int("ctrl_lev", 0)
            vc.assume(lc < dc)
            ang = vc.angle("phi")
            vc.assume(ang >= 0)
            vc.assume(ang <= 2 * N.PI)
            g = gates().CEx(c, "cx", t, [a, b, lc, ang], dims, None)
        else:
            a, b, lc, ang = 0, 1, 1, N.ZERO
            g = gates().CEx(c, "cx", t, None, dims, None)
        # pi rotation -i(|a><b| e^{-i phi} + |b><a| e^{i phi}) on the levels a,b of the target where the control is in ctrl_lev
        blk = [[N.ZERO, -N.I * expi(-ang)], [-N.I * expi(ang), N.ZERO]]
        tl = spec.two_level(dt, a, b, blk)

        def f(i0, i1, j0, j1):
            ci, ti, cj, tj = (i1, i0, j1, j0) if rev else (i0, i1, j0, j1)
            if not A.eqi(ci, cj):
                return N.ZERO
            return tl(ti, tj) if A.eqi(ci, lc) else delta(ti, tj)
        check2(vc, g, f, d0, d1)


def _ls(rev):
    @ob(P, f"LS.matrix.{'descending' if rev else 'ascending'}", [G + "ls.py:LS.__init__", G + "ls.py:LS.__array__"], case="gate2_matrix", fixed={"gate": "ls", "rev": rev}, budget=150)
    def ls(vc):
        c, t, dims, d0, d1 = circ2(vc, rev)
        th = vc.angle("theta")
        vc.assume(th >= 0)
        vc.assume(th <= 2 * N.PI)
        g = gates().LS(c, "ls", t, [th], dims, None)

        def f(i0, i1, j0, j1):
            if not (A.eqi(i0, j0) and A.eqi(i1, j1)):
                return N.ZERO
            return expi(-th) if A.eqi(i0, i1) else N.ONE
        check2(vc, g, f, d0, d1)


def ms_spec(th):
    """exp(-i theta/4 (1(x)s + s(x)1)^2), s = |0><1| + |1><0|"""
    e1, e4 = expi(-th), expi(-th / 4)

    def f(i0, i1, j0, j1):
        def lv(v):
            return 0 if A.eqi(v, 0) else 1 if A.eqi(v, 1) else None
        a, b, p, q = lv(i0), lv(i1), lv(j0), lv(j1)
        ina, inb, inp, inq = a is not None, b is not None, p is not None, q is not None
        if ina and inb:
            if not (inp and inq):
                return N.ZERO
            if (a, b) == (p, q):
                return (e1 + 1) / 2
            if (a, b) == (1 - p, 1 - q):
                return (e1 - 1) / 2
            return N.ZERO
        same = A.eqi(i0, j0) and A.eqi(i1, j1)
        if not same:
            return N.ZERO
        return e4 if (ina or inb) else N.ONE
    return f


def _ms(rev):
    @ob(P, f"MS.matrix.{'descending' if rev else 'ascending'}", [G + "ms.py:MS.__init__", G + "ms.py:MS.__array__"], case="gate2_matrix", fixed={"gate": "ms", "rev": rev}, budget=200)
    def ms(vc):
        c, t, dims, d0, d1 = circ2(vc, rev)
        th = vc.angle("theta")
        vc.assume(th >= 0)
        vc.assume(th <= 2 * N.PI)
        g = gates().MS(c, "ms", t, [th], dims, None)
        check2(vc, g, ms_spec(th), d0, d1)


for _r in (False, True):
    _csum(_r)
    _cex(_r, True)
    _cex(_r, False)
    _ls(_r)
    _ms(_r)


# ------------------------------------------------------------------ custom gates
for _cls, _n in (("CustomOne", 1), ("CustomTwo", 2), ("CustomMulti", 3)):
    @ob(P, f"{_cls}.matrix", [G + f"custom_{['', 'one', 'two', 'multi'][_n]}.py:{_cls}"], case=None)
    def custom(vc, cls=_cls, n=_n):
        """the user's matrix, unchanged, for every dimension"""
        ds = [vc.int(f"d{k}", 2) for k in range(n)]
        c = FakeCircuit(ds)
        D = 1
        for d in ds:
            D = D * d
        i, j = index(vc, "i", D), index(vc, "j", D)
        v = N.cplx("entry")

        def entry(p, q):
            return v if A.eqi(p, i) and A.eqi(q, j) else N.cplx("other")
        u = A.SArr((D, D), entry)
        t, dd = (0, ds[0]) if n == 1 else (list(range(n)), ds)
        M, sp = under(vc, getattr(gates(), cls)(c, "cu", t, u, dd, None), entry)
        vc.ensure(Num.lift(M.shape[0]) == D, "shape")
        vc.ensure_eq(M.at(i, j), sp(i, j), "entry")
        vc.ensure_eq(M.at(j, i), sp(j, i), "transposed entry")


# ------------------------------------------------------------------ unitarity, as lemmas over the contracts
def unitary(vc, f, d):
    M = A.SArr((d, d), f)
    i, j = index(vc, "i", d), index(vc, "j", d)
    vc.ensure_eq(A.matmul(M, M.conj().T).at(i, j), delta(i, j), "M M^dagger == 1")


@ob(P, "unitary.two_level_rotations", budget=150)
def unitary_r(vc):
    d = vc.int("d", 2)
    a, b = levels(vc, d)
    vc.assume(a < b)
    k = vc.choose("gate", 5)
    t, p = vc.angle("theta"), vc.angle("phi")
    f = [lambda: spec.r(d, a, b, t, p), lambda: spec.rz(d, a, b, p), lambda: spec.rh(d, a, b), lambda: spec.noisex(d, a, b), lambda: spec.noisey(d, a, b)][k]()
    unitary(vc, f, d)


@ob(P, "unitary.diagonal_and_shift")
def unitary_diag(vc):
    d = vc.int("d", 2)
    k = vc.choose("gate", 4)
    a = vc.int("lev_a", 0)
    vc.assume(a < d)
    p = vc.angle("phi")
    unitary(vc, [spec.virtrz(d, a, p), spec.x(d), spec.z(d), spec.s(d)][k], d)


@ob(P, "unitary.H")
def unitary_h(vc):
    """rows i, j of H: sum_k w^{(i-j)k} / d, by the geometric sum lemma (lean/GeomSum.lean)"""
    d = vc.int("d", 2)
    i, j = index(vc, "i", d), index(vc, "j", d)
    f = spec.h(d)
    k = Num.var("k", "int")
    term = f(i, k) * f(j, k).conjugate()
    # premise of the lemma: the term is exp(2 pi i m k / d) / d with the integer m = i - j, and |m| < d
    vc.ensure_eq(term, N.num_exp(2 * N.PI * N.I * (i - j) * k / d) / d, "summand of the geometric sum")
    m = Num.lift(i) - j
    vc.ensure((m > -d) & (m < d), "|m| < d: d divides m only if m = 0")


@ob(P, "unitary.controlled_two_qudit", budget=150)
def unitary_two(vc):
    """blocks of CSum (shifts) and CEx (two-level blocks) are unitary on every control level"""
    d = vc.int("d", 2)
    k = vc.choose("gate", 2)
    if k == 0:
        n = vc.int("n", 0)
        vc.assume(n < d)
        unitary(vc, spec.x_pow(d, n), d)
    else:
        a, b = levels(vc, d)
        p = vc.angle("phi")
        unitary(vc, spec.two_level(d, a, b, [[N.ZERO, -N.I * expi(-p)], [-N.I * expi(p), N.ZERO]]), d)


@ob(P, "unitary.MS_LS")
def unitary_ms(vc):
    """the blocks of MS: [[ (e+1)/2, (e-1)/2 ], ...] and the phases are unitary"""
    th = vc.angle("theta")
    e = expi(-th)
    a, b = (e + 1) / 2, (e - 1) / 2
    vc.ensure_eq(a * a.conjugate() + b * b.conjugate(), N.ONE, "norm")
    vc.ensure_eq(a * b.conjugate() + b * a.conjugate(), N.ZERO, "orthogonal")
    vc.ensure_eq(expi(-th / 4) * expi(-th / 4).conjugate(), N.ONE, "phase")
