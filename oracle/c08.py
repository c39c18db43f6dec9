"""C08 at run time: the decision-diagram backend (compiled from the current sources) against the product of the embedded matrices."""
from __future__ import annotations

import numpy as np

from .base import case, expect, finding, gen
from .c05 import build
from .c07 import check, simulate
from .sim import random_circuit, random_gate, unitary_of

OK = ["x", "z", "h", "r", "rz", "rh", "virtrz", "s", "csum", "cx0", "cx"]


@case("mi_circuit")
def mi_circuit(dims, gates, **_):
    check(list(dims), gates, "misim", tol=1e-6)


@case("mi_unsupported")
def mi_unsupported(dims, gates, bad, **_):
    """gates the decision diagrams have no definition of are rejected"""
    c = build([("q", list(dims))], gates)
    u = unitary_of(c, gates)[:, 0]
    try:
        v = np.asarray(simulate(c, "misim").get_state_vector())[0]
    except Exception:  # noqa: BLE001
        return
    expect(np.allclose(v, u, atol=1e-6), f"gate {bad} is dropped or misapplied instead of being rejected")


@finding("C08", "misim-controls")
def controls():
    c = build([("q", [2, 2])], [dict(kind="x", lines=[0]), dict(kind="z", lines=[0]), dict(kind="h", lines=[1], ctl=[[0], [1]])])
    gates = [dict(kind="h", lines=[0]), dict(kind="x", lines=[1], ctl=[[0], [1]])]
    bad = 0
    for dims, gs in (([2, 2], gates), ([3, 3], [dict(kind="h", lines=[1]), dict(kind="r", lines=[0], params=[0, 2, 1.1, 0.3], ctl=[[1], [2]])]), ([3, 2, 3], [dict(kind="h", lines=[0]), dict(kind="h", lines=[2]), dict(kind="rz", lines=[1], params=[0, 1, 0.7], ctl=[[0, 2], [1, 2]])])):
        c = build([("q", dims)], gs)
        try:
            v = np.asarray(simulate(c, "misim").get_state_vector())[0]
            bad += not np.allclose(v, unitary_of(c, gs)[:, 0], atol=1e-6)
        except Exception:  # noqa: BLE001
            bad += 0
    return bad > 0


@gen("C08")
def g(r, budget):
    k = 0
    while True:
        k += 1
        dims, gates = random_circuit(r, maxlines=r.choice([1, 2, 3, 4]), gates=r.choice([1, 3, 6, 10]), kinds=OK, control=0.0)
        yield "mi_circuit", dict(dims=dims, gates=gates)
        if k % 6 == 0:
            bad = random_gate(r, dims, kinds=["noisex", "noisey", "pm", "ls", "ms", "cu_one", "cu_two", "cu_multi"], control=0.0)
            if bad:
                i = r.randint(0, len(gates))
                yield "mi_unsupported", dict(dims=dims, gates=gates[:i] + [bad] + gates[i:], bad=bad["kind"])


@case("mi_layout")
def mi_layout(dims, **_):
    gates = [dict(kind="h", lines=[i]) for i in range(len(dims))] + [dict(kind="rz", lines=[i], params=[0, 1, 0.3 + i]) for i in range(len(dims))] + [dict(kind="r", lines=[i], params=[0, 1, 0.3 + i, 0.1 * i]) for i in range(len(dims))]
    mi_circuit(list(dims), gates)


@case("mi_gate")
def mi_gate(gate, dims=None, line=None, control=None, target=None, dag=False, levels=(), theta=None, phi=None, **_):
    """one gate on a state with all amplitudes distinct"""
    dims = list(dims)
    lv = list(levels) if isinstance(levels, (list, tuple)) else [levels]
    pre = mixed(dims)
    tries = [(0.7, 1.1), (2.5, 4.0), (5.2, 0.4)]
    if theta is not None or phi is not None:
        tries.insert(0, (float(theta or 0.0), float(phi or 0.0)))
    for th, ph in tries:
        params = {"rxy": [*lv, th, ph], "rz": [*lv, ph], "virtrz": [*lv, ph], "rh": lv, "cx": [*lv, ph]}.get(gate)
        kind = "r" if gate == "rxy" else gate
        lines = [control, target] if gate in ("cx", "csum") else [line]
        mi_circuit(dims, pre + [dict(kind=kind, lines=lines, params=params, dag=bool(dag))])


def mixed(dims):
    out = []
    for i, d in enumerate(dims):
        out.append(dict(kind="h", lines=[i]))
        for k in range(d - 1):
            out.append(dict(kind="rz", lines=[i], params=[k, k + 1, 0.3 + 0.41 * i + 0.77 * k]))
            out.append(dict(kind="r", lines=[i], params=[k, k + 1, 0.35 + 0.2 * i + 0.13 * k, 0.21 * i + 0.1]))
    return out


@case("mi_embed")
def mi_embed(dims=None, target=None, controls=(), **_):
    """every gate with a diagram of its own on the lines"""
    dims = list(dims)
    for t in range(len(dims)):
        for kind, params in (("x", None), ("h", None), ("z", None), ("r", [0, dims[t] - 1, 0.7, 1.1]), ("rz", [0, 1, 0.9])):
            mi_circuit(dims, mixed(dims) + [dict(kind=kind, lines=[t], params=params)])
        for q in range(len(dims)):
            if q != t:
                mi_circuit(dims, mixed(dims) + [dict(kind="csum", lines=[q, t])])
                for l in range(dims[q]):
                    mi_circuit(dims, mixed(dims) + [dict(kind="cx", lines=[q, t], params=[0, 1, l, 0.6])])


@case("mi_sequence")
def mi_sequence(dims=None, gates=(), **_):
    dims = list(dims)
    mi_circuit(dims, [])
    mi_circuit(dims, mixed(dims))
    mi_circuit(dims, [dict(kind="x", lines=[i]) for i in range(len(dims))])
