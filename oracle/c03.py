"""C03 at run time: the embedding of a gate's matrix."""
from __future__ import annotations

import itertools

import numpy as np

from .base import case, expect, gen
from .c01 import close


def digits(i, dims):
    out = []
    for d in reversed(dims):
        i, r = divmod(i, d)
        out.append(r)
    return out[::-1]


def embedded(M, targets, dims, lines, controls=None):
    """M (indexed by the sorted targets) on the given lines, controls = (lines, levels)"""
    T = sorted(targets)
    pos = {q: k for k, q in enumerate(lines)}
    D = [dims[q] for q in lines]
    n = int(np.prod(D))
    u = np.zeros((n, n), dtype=complex)
    td = [dims[t] for t in T]
    for c in range(n):
        b = digits(c, D)
        if controls and not all(b[pos[q]] == l for q, l in zip(*controls)):
            u[c, c] = 1
            continue
        ci = 0
        for q in T:
            ci = ci * dims[q] + b[pos[q]]
        for ri in range(M.shape[0]):
            a = list(b)
            for q, v in zip(T, digits(ri, td)):
                a[pos[q]] = v
            r = 0
            for x, d in zip(a, D):
                r = r * d + x
            u[r, c] += M[ri, ci]
    return u


def lines_of(flag, dims, targets, controls):
    used = list(targets) + (list(controls[0]) if controls else [])
    if flag == 2:
        return list(range(len(dims)))
    if flag == 0 and not controls:
        return sorted(targets)
    return list(range(min(used), max(used) + 1))


def random_matrix(n, seed, unitary=True):
    rng = np.random.default_rng(seed)
    a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    return np.linalg.qr(a)[0] if unitary else a


@case("embed")
def embed(dims, targets, ctl=None, dag=False, seed=1, **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    T = [targets] if isinstance(targets, int) else list(targets)
    m = int(np.prod([dims[t] for t in T]))
    M = random_matrix(m, seed)
    c = QuantumCircuit(len(dims), list(dims), 0)
    g = c.cu_one(T[0], M) if len(T) == 1 else c.cu_two(T, M) if len(T) == 2 else c.cu_multi(T, M)
    if ctl:
        g.control(list(ctl[0]), list(ctl[1]))
    if dag:
        g.dag()
    W = M.conj().T if dag else M
    for flag in (0, 1, 2):
        lines = lines_of(flag, dims, T, ctl)
        close(g.to_matrix(flag), embedded(W, T, dims, lines, ctl), f"custom gate on {T} of dimensions {dims}, controls {ctl}, dag={dag}, identities={flag}")
    expect(g.target_qudits in (T, T[0]), f"target lines changed to {g.target_qudits}")
    expect(list(c.dimensions) == list(dims), "circuit dimensions changed")


@case("embed_gate")
def embed_gate(dims, gate, targets, params, ctl=None, dag=False, **_):
    """gates of the library: the embedding of the compact matrix"""
    from mqt.qudits.quantum_circuit import QuantumCircuit
    c = QuantumCircuit(len(dims), list(dims), 0)
    t = targets[0] if len(targets) == 1 else list(targets)
    args = [t] + ([params] if params is not None else [])
    M = np.asarray(getattr(c, gate)(*args).to_matrix(0))
    g = getattr(c, gate)(*args)
    if ctl:
        g.control(list(ctl[0]), list(ctl[1]))
    if dag:
        g.dag()
    W = M.conj().T if dag else M
    for flag in (0, 1, 2):
        lines = lines_of(flag, dims, targets, ctl)
        close(g.to_matrix(flag), embedded(W, targets, dims, lines, ctl), f"{gate} on {targets} of dimensions {dims}, controls {ctl}, dag={dag}, identities={flag}")


@gen("C03")
def g(r, budget):
    while True:
        n = r.randint(1, 5)
        dims = [r.randint(2, 5 if n < 4 else 3) for _ in range(n)]
        if np.prod(dims) > 260:
            continue
        k = r.randint(1, min(3, n))
        T = r.sample(range(n), k)
        ctl = None
        if k == 1 and n > 1 and r.random() < 0.5:
            cs = r.sample([q for q in range(n) if q not in T], r.randint(1, n - 1))
            ctl = [cs, [r.randrange(dims[q]) for q in cs]]
        yield "embed", dict(dims=dims, targets=T, ctl=ctl, dag=r.random() < 0.4, seed=r.randrange(10 ** 6))
        if k == 1:
            d = dims[T[0]]
            a, b = r.sample(range(d), 2)
            gate, params = r.choice([("r", [a, b, r.uniform(-6, 6), r.uniform(-6, 6)]), ("rz", [a, b, r.uniform(-6, 6)]), ("h", None), ("x", None), ("z", None), ("rh", [a, b]), ("virtrz", [a, r.uniform(-6, 6)])])
        elif k == 2:
            gate, params = r.choice([("csum", None), ("cx", None), ("ls", [r.uniform(0, 6)]), ("ms", [r.uniform(0, 6)])])
            if gate == "cx":
                a, b = sorted(r.sample(range(dims[T[1]]), 2))
                params = [a, b, r.randrange(dims[T[0]]), r.uniform(0, 6)]
            ctl = None
        else:
            continue
        yield "embed_gate", dict(dims=dims, gate=gate, targets=T, params=params, ctl=ctl, dag=r.random() < 0.4)
