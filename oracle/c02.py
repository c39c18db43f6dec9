"""C02 at run time: dag() against the conjugate transpose."""
from __future__ import annotations

import numpy as np

from .base import case, expect, gen
from .c01 import TOL, make1, make2, rand1


def check(circ, g, times, what):
    """the matrices before and after `times` daggers, in every embedding"""
    before = [np.array(g.to_matrix(k)) for k in range(3)]
    refs = (list(g.reference_lines), g.target_qudits if isinstance(g.target_qudits, int) else list(g.target_qudits), str(g._params))
    h = g
    for _ in range(times):
        h = h.dag()
    expect((list(h.reference_lines), h.target_qudits if isinstance(h.target_qudits, int) else list(h.target_qudits), str(h._params)) == refs, f"{what}: dag changed lines or parameters")
    for k in range(3):
        want = before[k].conj().T if times % 2 else before[k]
        m = np.asarray(h.to_matrix(k))
        expect(m.shape == want.shape and np.allclose(m, want, atol=TOL), f"{what}: to_matrix({k}) after {times} dag() is not the {'adjoint' if times % 2 else 'original'}")
    if times % 2:
        expect(h.dagger, "dagger flag")


@case("dag1")
def dag1(gate, d, times=1, lev_a=0, lev_b=1, theta=0.0, phi=0.0, t="s", perm=None, dims=None, q=0, ctl=None, **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    if d > 40 or (gate == "pm" and not perm):
        return
    if dims is None:
        dims, q = [d], 0
    circ = QuantumCircuit(len(dims), list(dims), 0)
    if gate in ("virtrz", "x", "z", "h", "s", "pm"):
        lev_b = lev_a + 1 if lev_a == 0 else 0
    g = make1(circ, q, gate, d, lev_a, lev_b, theta, phi, t, perm)
    if ctl:
        g.control(list(ctl[0]), list(ctl[1]))
    check(circ, g, times, gate)


@case("dag2")
def dag2(gate, d0, d1, times=1, rev=False, theta=0.0, custom=False, lev_a=0, lev_b=1, ctrl_lev=1, phi=0.0, mid=0, **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    if d0 * d1 > 120:
        return
    dims = [d0, mid, d1] if mid else [d0, d1]
    lines = [0, 2] if mid else [0, 1]
    if rev:
        lines = lines[::-1]
    circ = QuantumCircuit(len(dims), dims, 0)
    check(circ, make2(circ, lines, gate, theta, [lev_a, lev_b, ctrl_lev, float(phi)] if custom else None), times, gate)


@case("toggle")
def toggle(d, times=1, seed=0, **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    if d > 30:
        return
    rng = np.random.default_rng(seed)
    u = np.linalg.qr(rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)))[0]
    circ = QuantumCircuit(1, [d], 0)
    check(circ, circ.cu_one(0, u), times, "cu_one")
    circ = QuantumCircuit(2, [2, d], 0)
    v = np.kron(np.eye(2), u) if seed % 2 else np.linalg.qr(rng.normal(size=(2 * d, 2 * d)) + 1j * rng.normal(size=(2 * d, 2 * d)))[0]
    check(circ, circ.cu_two([0, 1], v), times, "cu_two")


@gen("C02")
def g(r, budget):
    while True:
        kw = rand1(r, dmax=5)
        n = r.randint(1, 3)
        dims = [r.randint(2, 3) for _ in range(n)]
        q = r.randrange(n)
        dims[q] = kw["d"]
        ctl = None
        if n > 1 and r.random() < 0.5:
            cs = [k for k in range(n) if k != q]
            r.shuffle(cs)
            cs = cs[:r.randint(1, len(cs))]
            ctl = [cs, [r.randrange(dims[k]) for k in cs]]
        yield "dag1", dict(kw, times=r.randint(1, 4), dims=dims, q=q, ctl=ctl)
        d0, d1 = r.randint(2, 4), r.randint(2, 4)
        rev = r.random() < 0.5
        dc, dt = (d1, d0) if rev else (d0, d1)
        a, b = sorted(r.sample(range(dt), 2))
        yield "dag2", dict(gate=r.choice(["csum", "cx", "ls", "ms"]), d0=d0, d1=d1, rev=rev, theta=r.uniform(0, 6.28), times=r.randint(1, 4),
                           custom=r.random() < 0.7, lev_a=a, lev_b=b, ctrl_lev=r.randrange(dc), phi=r.uniform(0, 6.28), mid=r.choice([0, 0, 2]))
        yield "toggle", dict(d=r.randint(2, 6), times=r.randint(1, 5), seed=r.randrange(10 ** 6))
