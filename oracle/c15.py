"""C15 at run time: phase propagation and removal on random circuits, compared as unitaries."""
from __future__ import annotations

import numpy as np

from .base import case, expect, gen
from .c14 import make
from .comp import backend, circuit_unitary
from .sim import random_circuit, snapshot


def passes():
    from mqt.qudits.compiler.onedit import ZPropagationOptPass, ZRemovalOptPass
    return ZPropagationOptPass, ZRemovalOptPass


def check_propagation(c, back):
    prop, _ = passes()
    before, u = snapshot(c), circuit_unitary(c)
    t = prop(backend(c.dimensions), back).transpile(c)
    expect(t is not c and snapshot(c) == before, "the input circuit is changed")
    expect(t.number_gates == len(t.instructions), "number of gates")
    v = circuit_unitary(t)
    expect(np.allclose(v, u, atol=1e-7), f"propagation {'back' if back else 'forward'} changes the unitary by {np.max(np.abs(u - v)):.3g}")


def key(g):
    ci = g.control_info["controls"]
    return (type(g).__name__, repr(g.target_qudits), repr(g._params), g.dagger, None if ci is None else (tuple(ci.indices), tuple(ci.ctrl_states)))


def check_removal(c, what="transpile"):
    from mqt.qudits.quantum_circuit import gates as G
    _, rem = passes()
    before, u = snapshot(c), circuit_unitary(c)
    t = getattr(rem(backend(c.dimensions)), what)(c)
    expect(t is not c and snapshot(c) == before, "the input circuit is changed")
    expect(t.number_gates == len(t.instructions), "number of gates")
    left = [key(g) for g in t.instructions]
    # the gates that are left are a subsequence; only phase gates are missing
    i = 0
    for g in c.instructions:
        if i < len(left) and key(g) == left[i]:
            i += 1
            continue
        expect(isinstance(g, (G.Rz, G.VirtRz, G.Z)) and g.control_info["controls"] is None, f"{type(g).__name__} is removed")
    expect(i == len(left), "the gates left are not a subsequence of the circuit")
    v = circuit_unitary(t)
    if what != "remove_initial_rz":
        # up to a diagonal at the end (and, for the first gates, at the start): the magnitudes stay
        expect(np.allclose(np.abs(v), np.abs(u), atol=1e-7), f"{what} changes a probability by {np.max(np.abs(np.abs(u) - np.abs(v))):.3g}")
    if what == "remove_initial_rz":
        d = u.conj().T @ v
        expect(np.allclose(d, np.diag(np.diag(d)), atol=1e-7), "the first gates removed are not a phase")
    if what == "remove_trailing_rz_sequence":
        d = v @ u.conj().T
        expect(np.allclose(d, np.diag(np.diag(d)), atol=1e-7), "the last gates removed are not a phase")
    if what == "transpile":
        a, b = u[:, 0], v[:, 0]
        expect(np.allclose(np.abs(a), np.abs(b), atol=1e-7), "the measured probabilities change")


@case("line")
def line(d, line, back, **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    prop, _r = passes()
    c = QuantumCircuit(2, [2, d], 0)
    for g in line:
        h = c.virtrz(1, [g[1], float(g[2])]) if g[0] == "v" else c.r(1, [g[1], g[2], float(g[3]), float(g[4])])
        if g[-1]:
            h.dag()
    if not line:
        return
    u = circuit_unitary(c)
    rots, zs = prop.propagate_z(c, list(c.instructions), back)
    expect(np.allclose(circuit_unitary(c, zs + rots if back else rots + zs), u, atol=1e-7), "the product of the line")
    expect(len(zs) == d and len(rots) == sum(g[0] == "r" for g in line), "number of gates")
    check_propagation(c, back)


def word_circuit(word, n):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
    c = QuantumCircuit(n, [3] * n, 0)
    for i, k in enumerate(word):
        q = int(k[-1])
        ctl = ControlData([1 - q], [1]) if k[0] == "c" else None
        a = 0.3 + 0.1 * i
        if k[-2] == "V":
            c.virtrz(q, [1, a], ctl)
        elif k[-2] == "R":
            c.r(q, [0, 1, a, 0.2], ctl)
        elif k[-2] == "H":
            c.h(q)
        elif k[-3:-1] == "Rz":
            c.rz(q, [0, 1, a], ctl)
        elif k[-2] == "Z":
            c.z(q, ctl)
        elif k[-2] == "T":
            c.x(q).control([x for x in range(3) if x != q], [1, 1])
        elif k.startswith("CS"):
            c.csum([int(k[-2]), q])
        else:
            c.cx([int(k[-2]), q])
    return c


@case("pass")
def pass_(word=(), back=True, **_):
    check_propagation(word_circuit(word, 2), back)


@case("removal")
def removal(word=(), what="transpile", **_):
    check_removal(word_circuit(word, 3), what)


@case("circuit")
def circuit(dims, gates, again=None, **_):
    c = make(dims, gates, again)
    for back in (True, False):
        check_propagation(c, back)
    for what in ("transpile", "remove_initial_rz", "remove_trailing_rz_sequence"):
        check_removal(c, what)


KINDS = ["r", "r", "r", "virtrz", "virtrz", "rz", "z", "h", "csum", "cx0", "x", "ms", "cu_one"]


@gen("C15")
def g(r, budget):
    while True:
        d = r.randint(2, 6)
        ln = []
        for _ in range(r.randint(1, 7)):
            if r.random() < 0.5:
                ln.append(["v", r.randrange(d), r.uniform(-9, 9), r.random() < 0.3])
            else:
                a, b = r.sample(range(d), 2)
                ln.append(["r", a, b, r.uniform(-9, 9), r.uniform(-9, 9), r.random() < 0.3])
        yield "line", dict(d=d, line=ln, back=r.random() < 0.5)
        dims, gates = random_circuit(r, maxlines=r.choice([1, 2, 3]), maxdim=4, maxsize=40, gates=r.choice([4, 8, 14]), kinds=KINDS, control=0.15, dag=0.2)
        if r.random() < 0.5:
            gates.sort(key=lambda x: len(x["lines"]) + r.random())
        yield "circuit", dict(dims=dims, gates=gates, again=[r.randrange(9) for _ in range(r.choice([0, 0, 1, 3]))])
