"""C22: fidelities and partial trace of matrices with arbitrary complex entries."""
from __future__ import annotations

import itertools

import numpy as np

from contracts.c03 import digits, prod
from pyvc import arr as A
from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import fake_matrix, ob
from pyvc.num import Num

P = "C22"
DF = "compiler/twodit/variational_twodit_compilation/opt/distance_measures.py:"
QF = "visualisation/mini_quantum_information.py:"


def dm():
    return loader.load("compiler.twodit.variational_twodit_compilation.opt.distance_measures")


def qi():
    return loader.load("visualisation.mini_quantum_information")


def hermitian(name, n):
    a = fake_matrix(name, n)
    for i in range(n):
        a[i, i] = Num.var(f"{name}_{i}", "real")
        for j in range(i):
            a[i, j] = bar(a[j, i])
    return a


def bar(x):
    return Num.lift(x).conjugate()


def hs(a, b):
    """tr(a^dagger b)"""
    r = N.ZERO
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        r = r + bar(x) * y
    return r


def tr2(a, b):
    n = a.shape[0]
    r = N.ZERO
    for i in range(n):
        for j in range(n):
            r = r + a[i, j] * b[j, i]
    return r


def same_ratio(vc, got, num, den2, label):
    """got == |num| / sqrt(den2)"""
    vc.ensure_eq(got, abs(Num.lift(num)) / N.num_sqrt(den2), label)


def sym(name, n, m=None):
    """an arbitrary complex matrix (or vector) of arbitrary size"""
    def fn(*i):
        i = [C.ctx().norm(Num.lift(x)) for x in i]
        return Num.opaque(name + "_re", *i) + N.I * Num.opaque(name + "_im", *i)
    return A.SArr((n, m) if m is not None else (n,), fn)


def total(n, f, rank=2):
    """the sum of f over rank indices below n"""
    return A.ssum(n, lambda i: f(i) if rank == 1 else A.ssum(n, lambda j: f(i, j)))


def inner(a, b):
    n = a.shape[0]
    return total(n, lambda *i: bar(a.at(*i)) * b.at(*i), len(a.shape))


@ob(P, "fidelity_on_operator, any size", [DF + "fidelity_on_operator", DF + "size_check"], case="measures")
def on_operator_any(vc):
    n = vc.int("n", 1)
    a, b = sym("a", n, n), sym("b", n, n)
    same_ratio(vc, dm().fidelity_on_operator(a, b), inner(a, b), inner(a, a) * inner(b, b), "|tr(a^dagger b)| / sqrt(tr(a a^dagger) tr(b b^dagger))")
    vc.ensure_eq(inner(a, b), bar(inner(b, a)), "lemma: symmetric up to conjugation, so its absolute value is symmetric")


@ob(P, "fidelity_on_unitares, any size", [DF + "fidelity_on_unitares"], case="measures")
def on_unitaries_any(vc):
    n = vc.int("n", 1)
    a, b = sym("a", n, n), sym("b", n, n)
    vc.ensure_eq(dm().fidelity_on_unitares(a, b), abs(inner(a, b)) / n, "|tr(a^dagger b)| / n")


@ob(P, "fidelity_on_density_operator, any size", [DF + "fidelity_on_density_operator"], case="measures")
def on_density_any(vc):
    n = vc.int("n", 1)

    def hermitian_any(name):
        """every Hermitian matrix is m + m^dagger for a matrix m"""
        m = sym(name, n, n)
        return A.SArr((n, n), lambda i, j: m.at(i, j) + bar(m.at(j, i)))
    a, b = hermitian_any("a"), hermitian_any("b")

    def tr(x, y):
        return total(n, lambda i, j: x.at(i, j) * y.at(j, i))
    same_ratio(vc, dm().fidelity_on_density_operator(a, b), tr(a, b), tr(a, a) * tr(b, b), "|tr(a b)| / sqrt(tr(a a) tr(b b))")


@ob(P, "naive_state_fidelity, any size", [DF + "naive_state_fidelity"], case="measures")
def on_states_any(vc):
    n = vc.int("n", 1)
    a, b = sym("a", n), sym("b", n)
    vc.ensure_eq(dm().naive_state_fidelity(a, b), abs(inner(a, b)) ** 2, "|<a|b>|^2")


@ob(P, "shapes, any size", [DF + "size_check", DF + "fidelity_on_operator", DF + "fidelity_on_unitares", DF + "fidelity_on_density_operator", DF + "naive_state_fidelity"], case="measures")
def shapes_any(vc):
    err = loader.load("exceptions.circuiterror").ShapeMismatchError
    s = [vc.int(f"s{i}_", 1) for i in range(4)]
    a, b = sym("a", s[0], s[1]), sym("b", s[2], s[3])
    ok = bool(s[0] == s[1]) and bool(s[1] == s[2]) and bool(s[2] == s[3])
    vc.ensure(dm().size_check(a, b) is ok, "size_check")
    if not ok:
        for f in (dm().fidelity_on_operator, dm().fidelity_on_unitares, dm().fidelity_on_density_operator):
            vc.ensure_raises(err, lambda f=f: f(a, b), "matrices of different or not square shapes are rejected")
    if not bool(s[0] == s[2]):
        vc.ensure_raises(err, lambda: dm().naive_state_fidelity(sym("a", s[0]), sym("b", s[2])), "states of different lengths are rejected")


for n in (1, 2, 3, 4):
    @ob(P, f"fidelity_on_operator.{n}", [DF + "fidelity_on_operator", DF + "size_check"], bound=f"matrices of size {n}, arbitrary entries", case="measures")
    def on_operator(vc, n=n):
        a, b = fake_matrix("a", n), fake_matrix("b", n)
        C.ctx().inputs.update(n=n)
        same_ratio(vc, dm().fidelity_on_operator(a, b), hs(a, b), hs(a, a) * hs(b, b), "|tr(a^dagger b)| / sqrt(tr(a a^dagger) tr(b b^dagger))")
        vc.ensure_eq(hs(a, b), bar(hs(b, a)), "lemma: symmetric up to conjugation, so its absolute value is symmetric")

    @ob(P, f"fidelity_on_unitares.{n}", [DF + "fidelity_on_unitares"], bound=f"matrices of size {n}, arbitrary entries", case="measures")
    def on_unitaries(vc, n=n):
        a, b = fake_matrix("a", n), fake_matrix("b", n)
        C.ctx().inputs.update(n=n)
        vc.ensure_eq(dm().fidelity_on_unitares(a, b), abs(hs(a, b)) / n, "|tr(a^dagger b)| / n")
        # for a unitary a: tr(a^dagger a) = n, hence 1 for equal unitaries
        e = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                e[i, j] = Num.var(f"phase{i}", "real") if i == j else N.ZERO
        for i in range(n):
            e[i, i] = N.num_exp(N.I * e[i, i])
        vc.ensure_eq(dm().fidelity_on_unitares(e, e), 1, "one for equal unitaries (arbitrary diagonal unitary)")

    @ob(P, f"fidelity_on_density_operator.{n}", [DF + "fidelity_on_density_operator"], bound=f"Hermitian matrices of size {n}, arbitrary entries", case="measures")
    def on_density(vc, n=n):
        a, b = hermitian("a", n), hermitian("b", n)
        C.ctx().inputs.update(n=n)
        same_ratio(vc, dm().fidelity_on_density_operator(a, b), tr2(a, b), tr2(a, a) * tr2(b, b), "|tr(a b)| / sqrt(tr(a a) tr(b b))")

    @ob(P, f"naive_state_fidelity.{n}", [DF + "naive_state_fidelity"], bound=f"states of length {n}, arbitrary entries", case="measures")
    def on_states(vc, n=n):
        a, b = fake_matrix("a", 1, n).reshape(-1), fake_matrix("b", 1, n).reshape(-1)
        C.ctx().inputs.update(n=n)
        ip = hs(a, b)
        vc.ensure_eq(dm().naive_state_fidelity(a, b), abs(ip) ** 2, "|<a|b>|^2")
        # a real unit direction times a phase: <a|a> is the squared norm
        s = hs(a, a)
        vc.ensure_eq(s, bar(s), "lemma: the squared norm is real")


@ob(P, "shapes", [DF + "size_check", DF + "fidelity_on_operator", DF + "fidelity_on_unitares", DF + "fidelity_on_density_operator", DF + "naive_state_fidelity"], bound="shapes up to 3 x 3", case="measures")
def shapes(vc):
    err = loader.load("exceptions.circuiterror").ShapeMismatchError
    for s in itertools.product((1, 2, 3), repeat=4):
        a, b = fake_matrix("a", s[0], s[1]), fake_matrix("b", s[2], s[3])
        ok = s[0] == s[1] == s[2] == s[3]
        vc.ensure(dm().size_check(a, b) is ok, "size_check")
        if not ok:
            for f in (dm().fidelity_on_operator, dm().fidelity_on_unitares, dm().fidelity_on_density_operator):
                vc.ensure_raises(err, lambda f=f: f(a, b), "matrices of different or not square shapes are rejected")
    for x, y in itertools.permutations((1, 2, 3), 2):
        vc.ensure_raises(err, lambda: dm().naive_state_fidelity(fake_matrix("a", 1, x).reshape(-1), fake_matrix("b", 1, y).reshape(-1)), "states of different lengths are rejected")


for ds in ((2,), (3,), (2, 3), (3, 2), (2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3)):
    @ob(P, f"partial_trace.{'x'.join(map(str, ds))}", [QF + "partial_trace"], bound=f"dimensions {ds}, every set of kept lines, arbitrary matrix", case="ptrace", budget=120)
    def ptrace(vc, ds=ds):
        n, k = len(ds), prod(ds)
        for m in range(0, n + 1):
            for keep in itertools.combinations(range(n), m):
                rho = fake_matrix("r", k)
                C.ctx().inputs.update(dims=list(ds), keep=list(keep))
                before = rho.copy()
                got = qi().partial_trace(rho, list(keep), list(ds))
                kd = [ds[q] for q in keep]
                vc.ensure(tuple(got.shape) == (prod(kd), prod(kd)), f"keep {keep}: shape")
                rest = [q for q in range(n) if q not in keep]
                tot, tot2 = N.ZERO, N.ZERO
                for i in range(prod(kd)):
                    for j in range(prod(kd)):
                        s = N.ZERO
                        for t in itertools.product(*[range(ds[q]) for q in rest]):
                            a, b = [0] * n, [0] * n
                            for q, v in zip(rest, t):
                                a[q] = b[q] = v
                            for q, v, w in zip(keep, digits(i, kd), digits(j, kd)):
                                a[q], b[q] = v, w
                            r = c = 0
                            for x, y, d in zip(a, b, ds):
                                r, c = r * d + x, c * d + y
                            s = s + rho[r, c]
                        vc.ensure_eq(got[i, j], s, f"keep {keep}: sum over the traced lines")
                    tot = tot + got[i, i]
                for i in range(k):
                    tot2 = tot2 + rho[i, i]
                vc.ensure_eq(tot, tot2, f"keep {keep}: the trace is preserved")
                vc.ensure(all((x - y).is_zero() for x, y in zip(before.reshape(-1), rho.reshape(-1))), "the argument is not changed")


for nl in (1, 2, 3, 4):
    @ob(P, f"partial_trace, any dimensions.{nl}", [QF + "partial_trace"], bound=f"{nl} line(s), every set of kept lines; arbitrary dimensions, arbitrary matrix", case="ptrace", budget=120)
    def ptrace_any(vc, n=nl):
        ds = [vc.int(f"d{q}_", 1) for q in range(n)]
        k = Num.lift(prod(ds))
        rho = sym("rho", k, k)
        for m in range(0, n + 1):
            for keep in itertools.combinations(range(n), m):
                got = qi().partial_trace(rho, list(keep), list(ds))
                kd = [ds[q] for q in keep]
                vc.ensure(len(got.shape) == 2 and all((Num.lift(x) - prod(kd)).is_zero() for x in got.shape), f"keep {keep}: shape")

                def radix(v):
                    r = N.ZERO
                    for x, d in zip(v, ds):
                        r = r * d + x
                    return r

                def digits_of(name):
                    out = []
                    for q in keep:
                        x = vc.int(C.ctx().fresh(name), 0)
                        vc.assume(x < ds[q])
                        out.append(x)
                    return out

                def number(v):
                    r = N.ZERO
                    for x, q in zip(v, keep):
                        r = r * ds[q] + x
                    return r
                rest = [q for q in range(n) if q not in keep]

                def marginal(a, b, left, v):
                    if left:
                        return A.ssum(ds[left[0]], lambda t: marginal(a, b, left[1:], {**v, left[0]: t}))
                    x, y = dict(zip(keep, a)) | v, dict(zip(keep, b)) | v
                    return rho.at(radix([x[q] for q in range(n)]), radix([y[q] for q in range(n)]))
                a, b = digits_of("a"), digits_of("b")
                vc.ensure_eq(got[number(a), number(b)], marginal(a, b, rest, {}), f"keep {keep}: sum over the traced lines")


for ds in ((2,), (3,), (2, 3), (3, 2), (2, 2, 2)):
    @ob(P, f"counts.{'x'.join(map(str, ds))}", [QF + "get_density_matrix_from_counts"], bound=f"dimensions {ds}, up to four shots", case="counts")
    def counts(vc, ds=ds):
        c = loader.load("quantum_circuit.circuit").QuantumCircuit(len(ds), list(ds), 0)
        k = prod(ds)
        for shots in ([0], [k - 1], [0, k - 1], [1, 1, 0, 1], [k - 1, 0, 1, k - 2]):
            m = qi().get_density_matrix_from_counts(list(shots), c)
            vc.ensure(tuple(m.shape) == (k, k), "shape")
            for i in range(k):
                for j in range(k):
                    vc.ensure_eq(m[i, j], Num.lift(shots.count(i)) / len(shots) if i == j else N.ZERO, "diagonal matrix of the frequencies")


VF = "compiler/compilation_minitools/naive_unitary_verifier.py:"


def nv():
    return loader.load("compiler.compilation_minitools.naive_unitary_verifier")


class Fixed:
    """a gate with a given matrix"""

    def __init__(self, m, flags):
        self.m, self.flags = m, flags

    def to_matrix(self, identities=0):
        self.flags.append(identities)
        return self.m.copy()


def times(a, b):
    o = np.empty((a.shape[0], *b.shape[1:]), dtype=object)
    for i in np.ndindex(*o.shape):
        t = N.ZERO
        for k in range(b.shape[0]):
            t = t + Num.lift(a[i[0], k]) * b[(k, *i[1:])]
        o[i] = t
    return o


def equal(vc, a, b, label):
    vc.ensure(tuple(a.shape) == tuple(b.shape), label + ": shape")
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        vc.ensure_eq(x, y, label)


for ds in ((2,), (3,), (2, 2), (3, 2)):
    @ob(P, f"reference simulators.{'x'.join(map(str, ds))}", [VF + "mini_unitary_sim", VF + "mini_sim", VF + "phy_sdit_sim"],
        bound=f"dimensions {ds}, up to three gates with arbitrary matrices, every level mapping", case="simulators")
    def simulators(vc, ds=ds):
        k = prod(ds)
        n = vc.choose("gates", 4)
        C.ctx().inputs.update(dims=list(ds), gates=n)
        flags = []
        ms = [fake_matrix(f"g{i}", k) for i in range(n)]
        gs = [Fixed(m, flags) for m in ms]
        circ = type("Circuit", (), {})()
        circ.dimensions, circ.instructions, circ.mappings = list(ds), gs, None
        u, v = np.array([[N.ONE if i == j else N.ZERO for j in range(k)] for i in range(k)], dtype=object), np.array([N.ONE] + [N.ZERO] * (k - 1), dtype=object)
        for m in ms:
            u, v = times(m, u), times(m, v)
        equal(vc, nv().mini_unitary_sim(circ, gs), u, "product of the gates, first one rightmost")
        equal(vc, nv().mini_sim(circ), v, "the gates applied to the first basis state")
        if len(ds) == 1:
            for mp in itertools.permutations(range(k)):
                circ.mappings = [list(mp)]
                w = np.array([N.ONE if i == mp[0] else N.ZERO for i in range(k)], dtype=object)
                for m in ms:
                    w = times(m, w)
                equal(vc, nv().phy_sdit_sim(circ), w, "the gates applied to the level that stands for the first basis state")
        vc.ensure(all(f == 2 for f in flags), "the matrices are those on the whole circuit")


for d in (2, 3):
    @ob(P, f"verifier.{d}", [VF + "UnitaryVerifier." + x for x in ("__init__", "get_perm_matrix", "verify")], bound=f"{d} levels, up to two gates, arbitrary matrices up to a phase with one perturbed entry, every pair of placements", case="verifier", budget=150)
    def verifier(vc, d=d):
        perms = [None, *itertools.permutations(range(d))]
        mi = perms[vc.choose("initial", len(perms))]
        mf = None if mi is None else perms[1 + vc.choose("final", len(perms) - 1)]
        nodes = list(range(d)) if mi is None or not vc.choose("nodes", 2) else list(range(d))[::-1]
        n = vc.choose("gates", 2)
        C.ctx().inputs.update(d=d, initial=mi, final=mf, nodes=nodes, gates=n)

        def place(mp):
            o = np.array([[N.ZERO] * d for _ in range(d)], dtype=object)
            for i in range(d):
                o[mp[i], nodes[i]] = N.ONE
            return o

        def inverse(o):
            return o.T
        # the matrix that the sequence should leave: the identity times a phase, with one entry moved by a real amount e
        ph = N.num_exp(N.I * vc.angle("ph"))
        e = vc.real("e")
        r, c = divmod(vc.choose("entry", d * d), d)
        vc.assume(e >= 0)
        left = np.array([[ph if i == j else N.ZERO for j in range(d)] for i in range(d)], dtype=object)
        left[r, c] = left[r, c] + ph * e
        # gates: monomial with arbitrary phases, so that they have an inverse
        gs, total = [], np.array([[N.ONE if i == j else N.ZERO for j in range(d)] for i in range(d)], dtype=object)
        flags = []
        for k in range(n):
            m = np.array([[N.num_exp(N.I * vc.angle(f"a{k}{i}")) if (i + 1) % d == j else N.ZERO for j in range(d)] for i in range(d)], dtype=object)
            gs.append(Fixed(m, flags))
            total = times(m, total)
        dagger = np.array([[bar(total[j, i]) for j in range(d)] for i in range(d)], dtype=object)
        # left = Pf^-1 total Pi target
        t = times(dagger, left if mf is None else times(place(mf), left))
        if mi is not None:
            t = times(inverse(place(mi)), t)
        tflags = []
        v = nv().UnitaryVerifier(gs, Fixed(t, tflags), [d], *([] if mi is None else [list(nodes), list(mi), list(mf)]))
        got = v.verify()
        # the first entry is scaled to one, so an error of it counts against the other diagonal entries
        off = e / (1 + e) if (r, c) == (0, 0) else e
        want = bool(off < N.ONE / 10000)
        vc.ensure(bool(got) is want, "accepted exactly if the sequence takes the target to a multiple of the identity")
        vc.ensure(all(f == 0 for f in flags) and tflags in ([], [0]), "matrices on their own lines")
        vc.ensure(len(gs) == n, "the sequence is not changed")
