"""C22 at run time."""
from __future__ import annotations

import itertools

import numpy as np

from .base import case, expect, gen


def mats(seed, n):
    rng = np.random.default_rng(seed)
    def c(*s):
        return rng.normal(size=s) + 1j * rng.normal(size=s)
    u, v = np.linalg.qr(c(n, n))[0], np.linalg.qr(c(n, n))[0]
    a, b = c(n, n), c(n, n)
    r, s = a @ a.conj().T, b @ b.conj().T
    return u, v, a, b, r / np.trace(r), s / np.trace(s), c(n)


@case("measures")
def measures(n=3, seed=1, **_):
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.opt import distance_measures as dm
    from mqt.qudits.exceptions.circuiterror import ShapeMismatchError
    u, v, a, b, r, s, psi = mats(seed, n)
    copies = [x.copy() for x in (u, v, a, b, r, s)]

    def eq(x, y, what):
        expect(np.allclose(x, y, atol=1e-9), f"{what}: {x} instead of {y}")
    for x, y in ((a, b), (u, v), (a, u)):
        eq(dm.fidelity_on_operator(x, y), abs(np.sum(x.conj() * y)) / np.sqrt(np.sum(abs(x) ** 2) * np.sum(abs(y) ** 2)), "fidelity_on_operator")
        eq(dm.fidelity_on_operator(x, y), dm.fidelity_on_operator(y, x), "symmetry of fidelity_on_operator")
        eq(dm.fidelity_on_operator(x, np.exp(0.7j) * 2.5 * x), 1, "fidelity_on_operator of a multiple")
    eq(dm.fidelity_on_unitares(u, v), abs(np.sum(u.conj() * v)) / n, "fidelity_on_unitares")
    eq(dm.fidelity_on_unitares(u, np.exp(1.1j) * u), 1, "fidelity_on_unitares of equal unitaries")
    eq(dm.fidelity_on_density_operator(r, s), abs(np.trace(r @ s)) / np.sqrt(np.trace(r @ r) * np.trace(s @ s)), "fidelity_on_density_operator")
    eq(dm.fidelity_on_density_operator(r, r), 1, "fidelity_on_density_operator of equal states")
    phi = v @ psi
    psi, phi = psi / np.linalg.norm(psi), phi / np.linalg.norm(phi)
    eq(dm.naive_state_fidelity(psi, phi), abs(np.sum(psi.conj() * phi)) ** 2, "naive_state_fidelity")
    eq(dm.naive_state_fidelity(psi, np.exp(0.4j) * psi), 1, "naive_state_fidelity of equal states")
    for f in (dm.fidelity_on_operator, dm.fidelity_on_unitares, dm.fidelity_on_density_operator):
        for x, y in ((np.eye(n), np.eye(n + 1)), (np.ones((n, n + 1)), np.ones((n, n + 1))), (np.eye(n), np.ones((n, n + 1)))):
            try:
                f(x, y)
                expect(False, f"{f.__name__} accepts shapes {x.shape}, {y.shape}")
            except ShapeMismatchError:
                pass
    try:
        dm.naive_state_fidelity(np.ones(n), np.ones(n + 1))
        expect(False, "naive_state_fidelity accepts different lengths")
    except ShapeMismatchError:
        pass
    for x, y in zip((u, v, a, b, r, s), copies):
        expect(np.array_equal(x, y), "an argument is changed")


@case("ptrace")
def ptrace(dims, keep, seed=1, **_):
    from mqt.qudits.visualisation.mini_quantum_information import partial_trace
    n, k = len(dims), int(np.prod(dims))
    rng = np.random.default_rng(seed)
    rho = rng.normal(size=(k, k)) + 1j * rng.normal(size=(k, k))
    want = rho.reshape(list(dims) * 2)
    m = n
    for q in sorted(set(range(n)) - set(keep), reverse=True):
        want = np.trace(want, axis1=q, axis2=q + m)
        m -= 1
    kd = int(np.prod([dims[q] for q in keep]))
    for opt in (False, True):
        got = partial_trace(rho, list(keep), list(dims), opt)
        expect(np.allclose(got, np.asarray(want).reshape(kd, kd)), f"partial trace of dimensions {dims} keeping {keep}")
    expect(np.allclose(np.trace(got), np.trace(rho)), "the trace is not preserved")


@case("counts")
def counts(dims=(2, 3), shots=(0, 1, 1), **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.visualisation.mini_quantum_information import get_density_matrix_from_counts
    c = QuantumCircuit(len(dims), list(dims), 0)
    k = int(np.prod(dims))
    m = get_density_matrix_from_counts(list(shots), c)
    expect(np.allclose(m, np.diag([list(shots).count(i) / len(shots) for i in range(k)])), f"density matrix of the counts {shots} for dimensions {dims}")


class Given:
    """stands for a gate: a given matrix"""

    def __init__(self, m):
        self.m, self.flags = m, []

    def to_matrix(self, identities=0):
        self.flags.append(identities)
        return self.m.copy()


@case("simulators")
def simulators(dims=(2, 3), gates=3, seed=1, **_):
    from mqt.qudits.compiler.compilation_minitools.naive_unitary_verifier import mini_sim, mini_unitary_sim, phy_sdit_sim
    from mqt.qudits.quantum_circuit import QuantumCircuit
    rng = np.random.default_rng(seed)
    k = int(np.prod(dims))
    gs = [Given(rng.normal(size=(k, k)) + 1j * rng.normal(size=(k, k))) for _ in range(gates)]
    c = QuantumCircuit(len(dims), list(dims), 0)
    c.instructions = gs
    u = np.eye(k)
    for g in gs:
        u = g.m @ u
    expect(np.allclose(mini_unitary_sim(c, gs), u), f"mini_unitary_sim is not the product of the {gates} gates")
    expect(np.allclose(mini_sim(c), u[:, 0]), "mini_sim is not the circuit applied to the first basis state")
    if len(dims) == 1:
        mp = [int(x) for x in rng.permutation(k)]
        c.set_mapping([mp])
        expect(np.allclose(phy_sdit_sim(c), u[:, mp[0]]), f"phy_sdit_sim does not start in level {mp[0]}, which stands for level 0")
    for g in gs:
        expect(all(f == 2 for f in g.flags), "a matrix other than that on the whole circuit is used")


@case("verifier")
def verifier(d=3, initial=None, final=None, nodes=None, gates=2, seed=1, **_):
    from mqt.qudits.compiler.compilation_minitools.naive_unitary_verifier import UnitaryVerifier
    rng = np.random.default_rng(seed)
    nodes = list(range(d)) if nodes is None else list(nodes)

    def c(*s):
        return rng.normal(size=s) + 1j * rng.normal(size=s)

    def place(mp):
        o = np.zeros((d, d))
        for i in range(d):
            o[mp[i], nodes[i]] = 1
        return o
    us = [np.linalg.qr(c(d, d))[0] for _ in range(gates)]
    total = np.eye(d, dtype=complex)
    for u in us:
        total = u @ total
    for amount in (0, 4e-5, 4e-4, 0.5):
        for r in range(d):
            for q in range(d):
                left = np.exp(1j * rng.uniform(0, 6)) * np.eye(d)
                left[r, q] += amount * left[0, 0]
                t = total.conj().T @ (left if final is None else place(final) @ left)
                if initial is not None:
                    t = place(initial).T @ t
                a = () if initial is None else (list(nodes), list(initial), list(final))
                target = Given(t)
                got = UnitaryVerifier([Given(u) for u in us], target, [d], *a).verify()
                expect(got is (amount < 1e-4), f"{'accepted' if got else 'refused'}, though the sequence leaves an error of {amount} in entry {(r, q)} (placements {initial}, {final})")
                expect(np.array_equal(target.m, t), "the target is changed")


@gen("C22")
def g(r, budget):
    while True:
        yield "measures", dict(n=r.randint(1, 9), seed=r.randrange(10 ** 6))
        dims = [r.randint(2, 5) for _ in range(r.randint(1, 4))]
        if np.prod(dims) > 130:
            continue
        keep = sorted(r.sample(range(len(dims)), r.randint(0, len(dims))))
        yield "ptrace", dict(dims=dims, keep=keep, seed=r.randrange(10 ** 6))
        dims = [r.choice([2, 3, 4, 11]) for _ in range(r.randint(1, 2))]
        yield "counts", dict(dims=dims, shots=[r.randrange(int(np.prod(dims))) for _ in range(r.randint(1, 30))])
        dims = [r.randint(2, 5) for _ in range(r.choice([1, 1, 2, 3]))]
        yield "simulators", dict(dims=dims, gates=r.randint(0, 6), seed=r.randrange(10 ** 6))
        d = r.randint(2, 6)
        a, b, c = (r.sample(range(d), d) for _ in range(3))
        yield "verifier", dict(d=d, gates=r.randint(0, 4), seed=r.randrange(10 ** 6), **(dict(initial=a, final=b, nodes=c) if r.random() < 0.7 else {}))
