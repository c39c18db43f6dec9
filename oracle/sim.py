"""Reference semantics shared by the run-time oracles: random circuits as data, their unitary from the compact matrices."""
from __future__ import annotations

import math

import numpy as np

from .c03 import embedded
from .c05 import build


def compact(c, g):
    """the gate's own matrix without controls and without dagger"""
    d = build([("q", list(c.dimensions))], [{**g, "ctl": None, "dag": False}])
    return np.asarray(d.instructions[0].to_matrix(0))


def unitary_of(c, gates):
    n = int(np.prod(c.dimensions))
    u = np.eye(n, dtype=complex)
    for g in gates:
        m = compact(c, g)
        if g.get("dag"):
            m = m.conj().T
        u = embedded(m, g["lines"], list(c.dimensions), list(range(len(c.dimensions))), g.get("ctl")) @ u
    return u


def angle(r):
    return r.choice([r.uniform(-20, 20), r.uniform(-math.pi, math.pi), math.pi / r.choice([1, 2, 3, 4, -2]), 0.0, 2 * math.pi * r.randint(-2, 2), 1e-9])


ALL = ["x", "z", "h", "r", "rz", "rh", "virtrz", "s", "noisex", "noisey", "pm", "csum", "cx0", "cx", "ls", "ms", "cu_one", "cu_two", "cu_multi"]


def random_gate(r, dims, kinds=ALL, control=0.3, dag=0.25, maxctl=3):
    n = len(dims)
    kind = r.choice(kinds)
    q = r.randrange(n)
    d = dims[q]
    g = None
    if kind in ("csum", "cx0", "cx", "ls", "ms", "cu_two"):
        if n < 2:
            return None
        ls = r.sample(range(n), 2)
        g = dict(kind=kind, lines=ls)
        if kind == "cx":
            a, b = sorted(r.sample(range(dims[ls[1]]), 2))
            g["params"] = [a, b, r.randrange(dims[ls[0]]), r.choice([0.0, r.uniform(0, 6.28)])]
        elif kind in ("ls", "ms"):
            g["params"] = [r.choice([0.0, r.uniform(0, 6.28)])]
        elif kind == "cu_two":
            g["params"] = r.randrange(1000)
    elif kind == "cu_multi":
        if n < 3:
            return None
        g = dict(kind=kind, lines=r.sample(range(n), r.choice([3, n])), params=r.randrange(1000))
    elif kind == "s" and d not in (2, 3, 5, 7):
        return None
    else:
        a, b = r.sample(range(d), 2)
        params = {"r": [a, b, float(angle(r)), float(angle(r))], "rz": [a, b, float(angle(r))], "rh": [a, b], "noisex": [a, b], "noisey": [a, b], "virtrz": [a, float(angle(r))],
                  "pm": r.sample(range(d), d), "cu_one": r.randrange(1000)}.get(kind)
        g = dict(kind=kind, lines=[q], params=params)
        if kind != "pm" and n > 1 and r.random() < control:
            cs = r.sample([x for x in range(n) if x != q], r.randint(1, min(maxctl, n - 1)))
            g["ctl"] = [cs, [r.randrange(dims[x]) for x in cs]]
    if r.random() < dag:
        g["dag"] = True
    return g


def random_circuit(r, maxlines=4, maxdim=5, maxsize=150, gates=8, kinds=ALL, **kw):
    while True:
        n = r.randint(1, maxlines)
        dims = [r.randint(2, maxdim) for _ in range(n)]
        if np.prod(dims) <= maxsize:
            break
    return dims, [g for g in (random_gate(r, dims, kinds, **kw) for _ in range(r.randint(0, gates))) if g]


def snapshot(c):
    return (list(c.dimensions), c.number_gates, [(id(g), type(g), repr(g.target_qudits), repr(g._params), g.dagger, repr(g.control_info["controls"])) for g in c.instructions])


def gate_unitary(dims, g):
    """embedded unitary of a gate object: its matrix (C01, C02) placed by the reference embedding (C03)"""
    m = np.asarray(g.__array__(), dtype=complex)
    if g.dagger:
        m = m.conj().T
    t = g.target_qudits if isinstance(g.target_qudits, list) else [g.target_qudits]
    ci = g.control_info["controls"]
    n, td = len(dims), [dims[q] for q in sorted(t)]
    size = int(np.prod(dims))
    k = len(td)
    u = np.eye(size, dtype=complex).reshape(*dims, size)
    sel = [slice(None)] * (n + 1)
    if ci is not None:
        for q, v in zip(ci.indices, ci.ctrl_states):
            sel[q] = slice(v, v + 1)
    part = u[tuple(sel)]
    new = np.moveaxis(np.tensordot(m.reshape(*td, *td), part, axes=(list(range(k, 2 * k)), sorted(t))), list(range(k)), sorted(t))
    u[tuple(sel)] = new
    return u.reshape(size, size)


def circuit_unitary(c, gates=None):
    dims = list(c.dimensions)
    u = np.eye(int(np.prod(dims)), dtype=complex)
    for g in (c.instructions if gates is None else gates):
        u = gate_unitary(dims, g) @ u
    return u


def equal_up_to_phase(a, b, eps=1e-6):
    """largest deviation after the best global phase"""
    k = np.vdot(b, a)
    ph = k / abs(k) if abs(k) > 1e-12 else 1
    return float(np.abs(a - ph * b).max()) < eps
