"""C04 at run time: controls of the gates of the library."""
from __future__ import annotations

import itertools
import random

import numpy as np

from .base import case, expect, gen
from .c01 import rand1


def valid(dims, targets, idx, lev):
    return (len(idx) == len(lev) and len(set(idx)) == len(idx) and all(0 <= i < len(dims) and i not in targets for i in idx)
            and all(0 <= l < dims[i] for i, l in zip(idx, lev)))


def is_long(lines):
    s = sorted(lines)
    return any(b - a > 1 for a, b in zip(s, s[1:]))


def snapshot(g):
    return (g.get_control_lines[:], repr(g.gate_type), g.is_long_range, repr(g.target_qudits), repr(g.control_info["controls"]), g.dagger, repr(g.dimensions),
            np.asarray(g.to_matrix(0)).tolist())


def single(c, q, kind, lvl, ctl=None):
    a, b = lvl
    return {"r": lambda: c.r(q, [a, b, 0.7, 0.3], ctl), "rz": lambda: c.rz(q, [a, b, 0.7], ctl), "rh": lambda: c.rh(q, [a, b], ctl), "x": lambda: c.x(q, ctl), "z": lambda: c.z(q, ctl),
            "h": lambda: c.h(q, ctl), "virtrz": lambda: c.virtrz(q, [a, 0.4], ctl), "cu_one": lambda: c.cu_one(q, np.eye(c.dimensions[q])[::-1].astype(complex), ctl),
            "noisex": lambda: c.noisex(q, [a, b]), "noisey": lambda: c.noisey(q, [a, b])}[kind]()


def check_controlled(g, dims, t, idx, lev):
    from mqt.qudits.quantum_circuit.components.extensions.gate_types import GateTypes
    expect(list(g.get_control_lines) == list(idx), f"control lines {g.get_control_lines}, requested {idx}")
    cd = g.control_info["controls"]
    expect(cd is not None and list(cd.indices) == list(idx) and list(cd.ctrl_states) == list(lev), f"controls reported as {cd}")
    expect(sorted(g.reference_lines) == sorted([*idx, t]), f"reference lines {g.reference_lines} of controls {idx} and target {t}")
    expect(g.gate_type == (GateTypes.TWO if len(idx) == 1 else GateTypes.MULTI), f"gate kind {g.gate_type} with {len(idx)} controls")
    expect(g.is_long_range == is_long([*idx, t]), f"is_long_range is {g.is_long_range} for controls {idx} and target {t}")
    r = g.reference_lines
    r.reverse()
    expect(list(g.get_control_lines) == list(idx), "changing the reported lines changes the gate")


@case("control_real")
def control_real(dims, t, idx, lev, kind="x", lvl=(0, 1), ctor=False, **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
    from mqt.qudits.quantum_circuit.components.extensions.gate_types import GateTypes
    c = QuantumCircuit(len(dims), list(dims), 0)
    what = f"{kind} on line {t} of {dims} controlled by {idx} in {lev}"
    if ctor:
        try:
            g = single(c, t, kind, lvl, ControlData(list(idx), list(lev)))
        except (IndexError, AssertionError, ValueError):
            expect(not valid(dims, [t], idx, lev), f"{what} (constructor) is rejected")
            return
        if not idx and not lev:
            return
        expect(valid(dims, [t], idx, lev), f"{what} (constructor) is accepted")
        check_controlled(g, dims, t, idx, lev)
        return
    g = single(c, t, kind, lvl)
    expect(g.is_long_range is False and g.get_control_lines == [] and g.gate_type == GateTypes.SINGLE and g.reference_lines == [t], "a gate without controls")
    before = snapshot(g)
    try:
        g.control(list(idx), list(lev))
    except (IndexError, AssertionError, ValueError):
        expect(not valid(dims, [t], idx, lev), f"{what} is rejected")
        expect(snapshot(g) == before, f"{what} is rejected but changes the gate")
        return
    if not idx and not lev:
        expect(snapshot(g) == before, "an empty request changes the gate")
        return
    expect(valid(dims, [t], idx, lev), f"{what} is accepted")
    check_controlled(g, dims, t, idx, lev)
    before = snapshot(g)
    others = [q for q in range(len(dims)) if q != t and q not in idx]
    if others:
        try:
            g.control([others[0]], [0])
        except (IndexError, AssertionError, ValueError):
            expect(snapshot(g) == before, "a rejected second request changes the gate")
        else:
            lines = sorted(g.reference_lines)
            expect(g.is_long_range == is_long(lines) and len(set(lines)) == len(lines), "a second request leaves an inconsistent gate")


@case("control_lines")
def control_lines(dims, lines, kind, **_):
    """gates on several lines: reported lines, long range, controls rejected"""
    from mqt.qudits.quantum_circuit import QuantumCircuit
    c = QuantumCircuit(len(dims), list(dims), 0)
    ls = list(lines)
    g = {"csum": lambda: c.csum(ls), "cx": lambda: c.cx(ls), "ls": lambda: c.ls(ls, [0.3]), "ms": lambda: c.ms(ls, [0.3]),
         "cu": lambda: (c.cu_two if len(ls) == 2 else c.cu_multi)(ls, np.eye(int(np.prod([dims[q] for q in ls]))).astype(complex))}[kind]()
    expect(sorted(g.reference_lines) == sorted(lines), f"lines {g.reference_lines} of {kind} on {lines}")
    expect(g.is_long_range == is_long(lines), f"is_long_range is {g.is_long_range} for {kind} on {lines}")
    before = snapshot(g)
    free = [q for q in range(len(dims)) if q not in lines]
    for q in [*free, lines[0]]:
        try:
            g.control([q], [0])
        except (IndexError, AssertionError, ValueError):
            expect(snapshot(g) == before, f"a rejected control changes {kind}")
        else:
            expect(False, f"control of {kind} on line {q} accepted although only single-qudit gates can be controlled")


@case("control")
def control(k, m, aslist, n, t, **kw):
    """replay of a counterexample: the dimensions are not part of it, so a range of them is tried"""
    if n > 60:
        return
    idx = [kw[f"c{i}"] for i in range(k)]
    lev = [kw[f"l{i}"] for i in range(m)]
    r = random.Random(1)
    pool = list(itertools.product((2, 3, 4), repeat=n)) if n <= 4 else [tuple(r.choice((2, 3, 4)) for _ in range(n)) for _ in range(40)]
    for dims in pool:
        for ctor in (False, True):
            control_real(list(dims), t, idx, lev, "x", (0, 1), ctor)


@gen("C04")
def g(r, budget):
    kinds = ["r", "rz", "rh", "x", "z", "h", "virtrz", "cu_one", "noisex", "noisey"]
    while True:
        n = r.randint(1, 6)
        dims = [r.randint(2, 5) for _ in range(n)]
        t = r.randrange(n)
        k = r.randint(0, min(4, n))
        if r.random() < 0.6:
            others = [q for q in range(n) if q != t]
            idx = r.sample(others, min(k, len(others)))
            lev = [r.randrange(dims[q]) for q in idx]
            if idx and r.random() < 0.4:
                j = r.randrange(len(idx))
                w = r.random()
                if w < 0.4:
                    lev[j] = r.choice([dims[idx[j]], dims[idx[j]] + 1, -1, -dims[idx[j]], max(dims) - 1])
                elif w < 0.7:
                    idx[j] = r.choice([t, n, n + 1, -1, -n, idx[0]])
                else:
                    lev = r.choice([lev[:-1], [*lev, 0]])
        else:
            idx = [r.randint(-2, n + 1) for _ in range(k)]
            lev = [r.randint(-1, 5) for _ in range(r.choice([k, k, k, k + 1, max(k - 1, 0)]))]
        if (not idx) != (not lev):
            continue
        kind = r.choice(kinds)
        yield "control_real", dict(dims=dims, t=t, idx=idx, lev=lev, kind=kind, lvl=r.sample(range(dims[t]), 2), ctor=kind not in ("noisex", "noisey") and r.random() < 0.3)
        if n >= 2:
            kind = r.choice(["csum", "cx", "ls", "ms", "cu"])
            m = 2 if kind != "cu" else r.randint(2, min(3, n))
            yield "control_lines", dict(dims=dims, lines=r.sample(range(n), m), kind=kind)
