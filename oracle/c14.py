"""C14 at run time: lanes and local resynthesis of random circuits."""
from __future__ import annotations

import itertools

import numpy as np

from .base import case, expect, gen
from .c05 import build
from .comp import append_again, backend, circuit_unitary, random_map
from .sim import random_circuit, snapshot


def make(dims, gates, again=None):
    return append_again(build([("q", list(dims))], gates), again)


def on(gates, q):
    return [g for g in gates if q in g.reference_lines]


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def word_circuit(word, shared):
    """the circuit of a word of lines: local gates of the same line are r gates, "b" marks another one"""
    from mqt.qudits.quantum_circuit import QuantumCircuit
    c = QuantumCircuit(3, [2, 3, 2], 0)
    seen = {}
    for i, key in enumerate(word):
        k = tuple(key)
        if shared and k in seen:
            c.instructions.append(seen[k])
            c.number_gates += 1
            continue
        lines = [q for q in key if q != "b"]
        a = 0.3 + 0.1 * i
        if len(lines) == 1:
            g = c.r(lines[0], [0, 1, a, 1.5 if "b" in k else 0.2])
        elif len(lines) == 2:
            g = c.csum(lines) if i % 2 else c.x(lines[1])
            if i % 2 == 0:
                g.control([lines[0]], [1])
        else:
            g = c.x(lines[2]).control(lines[:2], [1, 1])
        seen[k] = g
    return c


def check_lanes(c):
    from mqt.qudits.core.lanes import Lanes
    gates = list(c.instructions)
    n = len(c.dimensions)
    before = snapshot(c)
    lanes = Lanes(c)
    got = lanes.extract_instructions()
    expect(len(got) == len(gates), f"{len(got)} gates read back instead of {len(gates)}")
    for q in range(n):
        expect(same(on(got, q), on(gates, q)), f"order of the gates of line {q}")
        if on(gates, q):
            expect(same(lanes.extract_lane(q), on(gates, q)), f"lane {q}")
            groups = lanes.consecutive_view[q]
            expect(same([t[1] for g in groups for t in g], on(gates, q)), f"groups of line {q}")
            for g in groups:
                expect(len(g) == 1 or all(len(t[1].reference_lines) == 1 for t in g), "a group that is not a run of local gates")
            for a, b in itertools.pairwise(groups):
                expect(not (len(a[0][1].reference_lines) == 1 == len(b[0][1].reference_lines)), "a run of local gates that is split")
    if len({id(g) for g in gates}) == len(gates):
        for i, g in enumerate(gates):
            if len(g.reference_lines) == 1:
                rest = on(gates[i + 1:], g.reference_lines[0])
                expect(bool(lanes.next_is_local(g)) == bool(rest and len(rest[0].reference_lines) == 1), "next_is_local")
            else:
                expect(not lanes.next_is_local(g), "next_is_local of a gate on several lines")
    expect(snapshot(c) == before, "the circuit is changed")
    return got


def check_replace(c):
    """every run of local gates of every lane is replaced by one gate"""
    from mqt.qudits.core.lanes import Lanes
    from mqt.qudits.quantum_circuit.gates import CustomOne
    gates = list(c.instructions)
    u = circuit_unitary(c)
    for q in range(len(c.dimensions)):
        mine = on(gates, q)
        for s, e in itertools.combinations_with_replacement(range(len(mine)), 2):
            run = mine[s:e + 1]
            if any(len(g.reference_lines) > 1 for g in run):
                continue
            m = np.eye(c.dimensions[q], dtype=complex)
            for g in run:
                m = g.to_matrix(0) @ m
            lanes = Lanes(c)
            new = CustomOne(c, "new", q, m, c.dimensions[q])
            lanes.replace_gates_in_lane(q, s, e, new)
            want = [*mine[:s], new, *mine[e + 1:]]
            expect(same(lanes.extract_lane(q), want), f"lane {q} after the replacement of {s} to {e}")
            got = lanes.extract_instructions()
            expect(len(got) == len(gates) - len(run) + 1, "number of gates after the replacement")
            expect(np.allclose(circuit_unitary(c, got), u, atol=1e-8), f"the unitary after the replacement of {s} to {e} on line {q}")


def check_resynth(c, maps=None):
    from mqt.qudits.compiler.naive_local_resynth import NaiveLocResynthOptPass
    dims = list(c.dimensions)
    before = snapshot(c)
    u = circuit_unitary(c)
    t = NaiveLocResynthOptPass(backend(dims, maps)).transpile(c)
    expect(t is not c and snapshot(c) == before, "the input circuit is changed")
    expect(t.number_gates == len(t.instructions), "number of gates")
    expect(np.allclose(circuit_unitary(t), u, atol=1e-8), f"the unitary is changed by {np.max(np.abs(circuit_unitary(t) - u)):.3g}")
    expect([list(m) for m in t.mappings] == [list(m) for m in (maps or [range(d) for d in dims])], f"placements {t.mappings}")
    for q in range(len(dims)):
        a = [len(g.reference_lines) > 1 for g in on(c.instructions, q)]
        b = [len(g.reference_lines) > 1 for g in on(t.instructions, q)]
        expect(b == [x for i, x in enumerate(a) if x or i == 0 or a[i - 1]], f"line {q} is cut at other places")
    multi = [g for g in c.instructions if len(g.reference_lines) > 1]
    left = [g for g in t.instructions if len(g.reference_lines) > 1]
    expect(len(left) == len(multi) and {id(g) for g in left} == {id(g) for g in multi}, "the other gates are carried over")


@case("lanes")
def lanes(word=(), shared=False, **_):
    c = word_circuit(word, shared)
    got = check_lanes(c)
    expect(np.allclose(circuit_unitary(c, got), circuit_unitary(c), atol=1e-8), "the unitary is changed")
    check_replace(c)


@case("resynth")
def resynth(word=(), shared=False, **_):
    check_resynth(word_circuit(word, shared))


@case("circuit")
def circuit(dims, gates, again=None, maps=None, **_):
    c = make(dims, gates, again)
    got = check_lanes(c)
    expect(np.allclose(circuit_unitary(c, got), circuit_unitary(c), atol=1e-8), "the unitary is changed")
    if len(gates) <= 6:
        check_replace(c)
    check_resynth(c, maps)


@gen("C14")
def g(r, budget):
    pool = [[0], [0, "b"], [1], [2], [0, 1], [1, 2], [0, 2], [2, 0], [0, 1, 2]]
    while True:
        w = [r.choice(pool) for _ in range(r.randint(0, 8))]
        yield r.choice(["lanes", "resynth"]), dict(word=w, shared=r.random() < 0.5)
        dims, gates = random_circuit(r, maxlines=r.choice([1, 2, 3, 4]), maxdim=4, maxsize=60, gates=r.choice([3, 6, 12]), control=0.25)
        yield "circuit", dict(dims=dims, gates=gates, again=[r.randrange(9) for _ in range(r.choice([0, 0, 1, 3]))], maps=[random_map(r, d) for d in dims])
