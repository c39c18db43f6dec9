"""Helpers for the compiler oracles: level graphs and back ends as data, placements, products."""
from __future__ import annotations

import contextlib
import io
from functools import reduce

import numpy as np

from .sim import circuit_unitary, gate_unitary  # noqa: F401


def graph(d, lpmap=None, edges=None, start=(0,)):
    """edges: [[a, b, sensitivity], ...] (a path if none)"""
    from mqt.qudits.core import LevelGraph
    edges = [[i, i + 1, 3] for i in range(d - 1)] if edges is None else edges
    return LevelGraph([(a, b, {"delta_m": 0, "sensitivity": s}) for a, b, s in edges], list(range(d)), list(range(d)) if lpmap is None else list(lpmap), list(start))


class Backend:
    def __init__(self, graphs):
        self.energy_level_graphs = graphs


def backend(dims, maps=None, trees=None):
    return Backend([graph(d, maps and maps[i], trees and trees[i]) for i, d in enumerate(dims)])


def random_tree(r, d):
    return [[i, r.randrange(i), r.randint(1, 4)] if r.random() < 0.5 else [r.randrange(i), i, r.randint(1, 4)] for i in range(1, d)]


def random_map(r, d):
    m = list(range(d))
    r.shuffle(m)
    return m


def placement(m):
    """the permutation e_j -> e_m[j]"""
    return np.eye(len(m))[:, list(m)]


def placements(maps):
    return reduce(np.kron, [placement(m) for m in maps])


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def deviation(a, b):
    """largest difference after the best global phase"""
    k = np.vdot(b, a)
    ph = k / abs(k) if abs(k) > 1e-12 else 1
    return float(np.abs(a - ph * b).max())


def append_again(c, again):
    """append gates that are already in the circuit once more, as the same objects"""
    for i in again or []:
        if c.instructions:
            c.instructions.append(c.instructions[i % len(c.instructions)])
            c.number_gates += 1
    return c


def couplings_ok(gates, edges, map):
    """rotations act on coupled physical levels"""
    from .base import expect
    from mqt.qudits.quantum_circuit.gates import R
    phys = {frozenset((map[e[0]], map[e[1]])) for e in edges}
    for g in gates:
        if isinstance(g, R):
            expect(frozenset((g.lev_a, g.lev_b)) in phys, f"a rotation on levels {g.lev_a} and {g.lev_b}, which are not coupled")
