"""C16 at run time: prepared states against the requested ones."""
from __future__ import annotations

import math
import random

import numpy as np

from .base import case, expect, gen
from .c17 import cx, paths, rand_vec
from .sim import circuit_unitary


def state_of(c):
    """first column of the product of the embedded matrices (C03)"""
    return circuit_unitary(c)[:, 0]


def fidelity(a, b):
    return abs(np.vdot(a, b)) ** 2 / (np.vdot(a, a).real * np.vdot(b, b).real)


@case("prepare")
def prepare(dims=None, v=None, seed=0, approx=None, **_):
    from mqt.qudits.compiler.state_compilation.state_preparation import StatePrep
    from mqt.qudits.quantum_circuit import QuantumCircuit
    if not dims or math.prod(int(d) for d in dims) > 100:
        dims = [2, 3]
    dims = [int(d) for d in dims]
    if v is None:
        for s in range(12):
            ds = [[2, 3], [3, 2, 2], [2, 2, 2], [4], dims][s % 5]
            prepare(ds, [[x.real, x.imag] for x in map(complex, rand_vec(random.Random(s), ds))], s)
        return
    v = np.array(cx(v), dtype=complex)
    if len(v) != math.prod(dims) or np.linalg.norm(v) < 1e-9:
        return
    v = v / np.linalg.norm(v)
    c = QuantumCircuit(len(dims), list(dims), 0)
    if seed % 3 == 1:
        c.z(0)                       # does nothing to the all-zero state
    n0 = len(c.instructions)
    for ap in ((False, True) if approx is None else (approx,)):
        w = v.copy() if seed % 2 else list(v)
        out = StatePrep(c, w, ap).compile_state()
        expect(out is not c and len(c.instructions) == n0, "the given circuit was changed")
        expect(np.allclose(np.array(w), v), "the given state was changed")
        f = fidelity(v, state_of(out))
        expect(f >= (0.99 - 1e-6 if ap else 1 - 1e-6), f"fidelity {f} ({'approximate' if ap else 'exact'})")
        for g in out.instructions[n0:]:
            expect(g.qasm_tag in ("rxy", "rz"), "another gate than a rotation")


@case("local")
def local(weights=None, **_):
    from mqt.qudits.compiler.state_compilation.state_preparation import get_angles
    from mqt.qudits.quantum_circuit import QuantumCircuit
    if weights is None:
        prepare()
        return
    w = cx(weights)
    if len(w) == 2:
        th, ph = get_angles(w[1], w[0])
        c = QuantumCircuit(1, [2], 0)
        m = np.asarray(c.r(0, [0, 1, float(th), float(ph)]).to_matrix(0))
        o = m @ np.array(w)
        expect(abs(o[1]) < 1e-9, "the upper level is not emptied")
        if abs(w[0]) > 1e-9:
            expect(abs(o[0] - w[0] / abs(w[0]) * math.hypot(abs(w[0]), abs(w[1]))) < 1e-9, "phase of the lower level")
    if len(w) > 1 and np.linalg.norm(w) > 1e-9:
        prepare([len(w)], w, 0, False)
        prepare([2, len(w)], list(np.kron([0.6, 0.8j], w)), 0, False)


@case("named")
def named(dims=None, **_):
    from mqt.qudits.compiler.state_compilation import retrieve_state as rs
    for ds in [dims] if dims else [[2, 3], [3, 3, 3], [4, 2, 3], [5]]:
        ds = [int(d) for d in ds]
        ps = list(paths(ds))
        expect([tuple(x) for x in rs.generate_all_combinations(list(ds))] == ps, "combinations")
        for kind in ("ghz", "qudit-w-state", "embedded-w-state"):
            if kind == "ghz":
                want = {tuple([i] * len(ds)) for i in range(min(ds))}
            else:
                want = {tuple(i if k == j else 0 for k in range(len(ds))) for j, d in enumerate(ds) for i in range(1, d if kind == "qudit-w-state" else 2)}
            v = np.asarray(rs.generate_uniform_state(list(ds), kind))
            expect(np.allclose(v, [(p in want) / math.sqrt(len(want)) for p in ps]), f"{kind} for {ds}")
            expect(rs.verify_normalized_state(v) is True and rs.verify_normalized_state(v * 1.01) is False, "normalised")
            prepare(ds, list(v), 0, False)
        try:
            rs.generate_uniform_state(list(ds), "w")
            expect(False, "unknown name accepted")
        except ValueError:
            pass
        r = np.asarray(rs.generate_random_quantum_state(list(ds)))
        expect(r.shape == (len(ps),) and rs.verify_normalized_state(r), "random state")


@gen("C16")
def g(r, budget):
    while True:
        dims = [r.randint(2, 5) for _ in range(r.randint(1, 3))]
        if math.prod(dims) > 48:
            continue
        k = r.random()
        if k < .08:
            yield "named", dict(dims=dims)
            continue
        v = rand_vec(r, dims)
        if k < .35:                  # one strong part and small branches: the approximation has something to cut
            v = [x * (1 if r.random() < .5 else 10 ** r.uniform(-3, -0.7)) for x in v]
        elif k < .5:
            v = [complex(r.choice([0, 0, 0, 1, 1j])) for _ in v]
            if not any(v):
                v[-1] = 1
        yield "prepare", dict(dims=dims, v=[[x.real, x.imag] for x in map(complex, v)], seed=r.randrange(6))
