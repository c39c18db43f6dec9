"""C01 at run time: the matrix of every gate against its defining formula."""
from __future__ import annotations

import math

import numpy as np

from .base import case, expect, gen

TOL = 1e-9


def two_level(d, a, b, m):
    u = np.eye(d, dtype=complex)
    u[a, a], u[a, b], u[b, a], u[b, b] = m[0][0], m[0][1], m[1][0], m[1][1]
    return u


def spec1(gate, d, a=0, b=1, theta=0.0, phi=0.0, t="s", perm=None):
    lo, hi = min(a, b), max(a, b)
    if gate == "r":
        c, s = math.cos(theta / 2), math.sin(theta / 2)
        return two_level(d, lo, hi, [[c, -1j * s * np.exp(-1j * phi)], [-1j * s * np.exp(1j * phi), c]])
    if gate == "rz":
        return two_level(d, lo, hi, [[np.exp(-1j * phi / 2), 0], [0, np.exp(1j * phi / 2)]])
    if gate == "rh":
        h = 1j / math.sqrt(2)
        return two_level(d, lo, hi, [[h, h], [h, -h]])
    if gate == "virtrz":
        u = np.eye(d, dtype=complex)
        u[a, a] = np.exp(-1j * phi)
        return u
    if gate == "noisex":
        return two_level(d, lo, hi, [[0, 1], [1, 0]])
    if gate == "noisey":
        return two_level(d, lo, hi, [[0, -1j], [1j, 0]])
    if gate == "x":
        return np.roll(np.eye(d), 1, axis=0)
    if gate == "z":
        return np.diag([np.exp(2j * np.pi * k / d) for k in range(d)])
    if gate == "h":
        return np.array([[np.exp(2j * np.pi * i * j / d) for j in range(d)] for i in range(d)]) / math.sqrt(d)
    if gate == "s":
        return np.diag([1, 1j]) if d == 2 else np.diag([np.exp(2j * np.pi / d * (k * (k + 1) // 2 % d)) for k in range(d)])
    if gate == "gell":
        u = np.zeros((d, d), dtype=complex)
        if t == "s":
            u[lo, hi] = u[hi, lo] = 1
        elif t == "a":
            u[lo, hi], u[hi, lo] = -1j, 1j
        else:
            c = math.sqrt(2 / (hi * (hi + 1)))
            for k in range(hi):
                u[k, k] = c
            u[hi, hi] = -c * hi
        return u
    if gate == "pm":
        u = np.zeros((d, d))
        for j, i in enumerate(perm):
            u[i, j] = 1
        return u
    raise KeyError(gate)


def make1(circ, q, gate, d, a=0, b=1, theta=0.0, phi=0.0, t="s", perm=None):
    lo, hi = min(a, b), max(a, b)
    f = {"r": lambda: circ.r(q, [a, b, float(theta), float(phi)]), "rz": lambda: circ.rz(q, [a, b, float(phi)]), "rh": lambda: circ.rh(q, [a, b]),
         "virtrz": lambda: circ.virtrz(q, [a, float(phi)]), "noisex": lambda: circ.noisex(q, [a, b]), "noisey": lambda: circ.noisey(q, [a, b]),
         "x": lambda: circ.x(q), "z": lambda: circ.z(q), "h": lambda: circ.h(q), "s": lambda: circ.s(q)}
    if gate in f:
        return f[gate]()
    from mqt.qudits.quantum_circuit.gates import GellMann, Perm
    if gate == "gell":
        return GellMann(circ, "g", q, [lo, hi, t], d, None)
    return Perm(circ, "p", q, perm, d, None)


def close(m, u, what):
    m = np.asarray(m)
    expect(m.shape == u.shape, f"{what}: shape {m.shape} instead of {u.shape}")
    expect(np.allclose(m, u, atol=TOL), f"{what}: matrix differs from its formula by {np.max(np.abs(m - u)):.3g}")


def unitary(m, what):
    m = np.asarray(m)
    expect(np.allclose(m @ m.conj().T, np.eye(len(m)), atol=TOL), f"{what} is not unitary")


@case("gate_matrix")
def gate_matrix(gate, d, lev_a=0, lev_b=1, theta=0.0, phi=0.0, t="s", perm=None, **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    if d > 40 or (gate == "pm" and not perm):
        return
    if gate in ("virtrz", "x", "z", "h", "s", "pm"):
        lev_b = lev_a + 1 if lev_a == 0 else 0
    circ = QuantumCircuit(1, [d], 0)
    g = make1(circ, 0, gate, d, lev_a, lev_b, theta, phi, t, perm)
    m = g.to_matrix(0)
    close(m, spec1(gate, d, lev_a, lev_b, theta, phi, t, perm), f"{gate} on a qudit of dimension {d}")
    close(g.to_matrix(0), np.asarray(m), f"{gate}: second evaluation")
    if gate != "gell":
        unitary(m, gate)


def spec2(gate, dims, lines, theta=0.0, params=None):
    """matrix on the two lines in ascending order; lines[0] is the control of csum and cx"""
    asc = sorted(lines)
    D = [dims[k] for k in asc]
    n = D[0] * D[1]
    u = np.zeros((n, n), dtype=complex)
    rev = lines[0] > lines[1]

    def idx(c, t):
        return (t * D[1] + c) if rev else (c * D[1] + t)
    dc, dt = (D[1], D[0]) if rev else (D[0], D[1])
    if gate == "csum":
        for c in range(dc):
            for t in range(dt):
                u[idx(c, (t + c) % dt), idx(c, t)] = 1
    elif gate == "cx":
        a, b, lc, ang = params or [0, 1, 1, 0.0]
        for c in range(dc):
            blk = two_level(dt, a, b, [[0, -1j * np.exp(-1j * ang)], [-1j * np.exp(1j * ang), 0]]) if c == lc else np.eye(dt)
            for t in range(dt):
                for s in range(dt):
                    u[idx(c, t), idx(c, s)] = blk[t, s]
    elif gate == "ls":
        for i in range(D[0]):
            for j in range(D[1]):
                u[i * D[1] + j, i * D[1] + j] = np.exp(-1j * theta) if i == j else 1
    elif gate == "ms":
        s0, s1 = np.zeros((D[0], D[0])), np.zeros((D[1], D[1]))
        s0[0, 1] = s0[1, 0] = s1[0, 1] = s1[1, 0] = 1
        g = np.kron(np.eye(D[0]), s1) + np.kron(s0, np.eye(D[1]))
        w, v = np.linalg.eigh(g @ g / 4)
        u = v @ np.diag(np.exp(-1j * theta * w)) @ v.conj().T
    return u


def make2(circ, lines, gate, theta=0.0, params=None):
    if gate == "csum":
        return circ.csum(lines)
    if gate == "cx":
        return circ.cx(lines, params)
    return getattr(circ, gate)(lines, [float(theta)])


@case("gate2_matrix")
def gate2_matrix(gate, d0, d1, rev=False, theta=0.0, custom=False, lev_a=0, lev_b=1, ctrl_lev=1, phi=0.0, **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    if d0 * d1 > 150:
        return
    lines = [1, 0] if rev else [0, 1]
    circ = QuantumCircuit(2, [d0, d1], 0)
    params = [lev_a, lev_b, ctrl_lev, float(phi)] if custom else None
    g = make2(circ, lines, gate, theta, params)
    m = g.to_matrix(0)
    close(m, spec2(gate, [d0, d1], lines, theta, params), f"{gate} on lines {lines} of dimensions {[d0, d1]}")
    unitary(m, gate)


@case("prime")
def prime(n, **_):
    from mqt.qudits.quantum_circuit.gates import S
    want = n >= 2 and all(n % k for k in range(2, n))
    expect(S.is_prime(n) == want, f"is_prime({n})")
    if n >= 2:
        from mqt.qudits.quantum_circuit import QuantumCircuit
        try:
            QuantumCircuit(1, [n], 0).s(0)
            ok = True
        except Exception:  # noqa: BLE001
            ok = False
        expect(ok == want, f"S on a qudit of dimension {n}: {'accepted' if ok else 'rejected'}")


@case("custom")
def custom(dims, seed, **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    rng = np.random.default_rng(seed)
    n = int(np.prod(dims))
    u = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))[0]
    c = QuantumCircuit(len(dims), list(dims), 0)
    g = c.cu_one(0, u) if len(dims) == 1 else c.cu_two([0, 1], u) if len(dims) == 2 else c.cu_multi(list(range(len(dims))), u)
    close(g.to_matrix(0), u, "custom gate")
    if len(dims) >= 2:
        unitary(c.randu(list(range(len(dims)))).to_matrix(0), "randu")


def rand_angle(r):
    k = r.random()
    if k < 0.3:
        return r.choice([0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi, 3 * math.pi, 4 * math.pi, -2 * math.pi, 0.1, -0.1, 13.0])
    return r.uniform(-15, 15)


def rand1(r, dmax=7, gates=("r", "rz", "rh", "virtrz", "noisex", "noisey", "x", "z", "h", "s", "pm")):
    gate = r.choice(gates)
    d = r.choice([2, 3, 5, 7]) if gate == "s" else r.randint(2, dmax)
    a, b = r.sample(range(d), 2)
    p = list(range(d))
    r.shuffle(p)
    return dict(gate=gate, d=d, lev_a=a, lev_b=b, theta=rand_angle(r), phi=rand_angle(r), t=r.choice("sad"), perm=p)


@gen("C01")
def g(r, budget):
    for n in range(-1, 60):
        yield "prime", dict(n=n)
    for gate in ("csum", "cx", "ls", "ms"):
        for rev in (False, True):
            for d0 in (2, 3, 4):
                for d1 in (2, 3, 5):
                    yield "gate2_matrix", dict(gate=gate, d0=d0, d1=d1, rev=rev, theta=r.uniform(0, 2 * math.pi))
    while True:
        yield "gate_matrix", rand1(r, gates=("r", "rz", "rh", "virtrz", "noisex", "noisey", "x", "z", "h", "s", "pm", "gell"), dmax=9)
        d0, d1 = r.randint(2, 6), r.randint(2, 6)
        rev = r.random() < 0.5
        dc, dt = (d1, d0) if rev else (d0, d1)
        a, b = sorted(r.sample(range(dt), 2))
        yield "gate2_matrix", dict(gate=r.choice(["csum", "cx", "ls", "ms"]), d0=d0, d1=d1, rev=rev, theta=r.choice([0.0, math.pi, 2 * math.pi, r.uniform(0, 6.28)]),
                                   custom=r.random() < 0.7, lev_a=a, lev_b=b, ctrl_lev=r.randrange(dc), phi=r.choice([0.0, math.pi, 2 * math.pi, r.uniform(0, 6.28)]))
        if r.random() < 0.1:
            yield "custom", dict(dims=[r.randint(2, 4) for _ in range(r.randint(1, 3))], seed=r.randrange(10 ** 6))
