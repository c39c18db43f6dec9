"""C07 at run time: the tensor-network backend against the product of the embedded matrices."""
from __future__ import annotations

import numpy as np

from .base import case, expect, gen
from .c03 import random_matrix
from .c05 import build
from .sim import random_circuit, snapshot, unitary_of


def simulate(c, name="tnsim", **opts):
    from mqt.qudits.simulation import MQTQuditProvider
    return MQTQuditProvider().get_backend(name).run(c, **opts).result()


def check(dims, gates, name="tnsim", tol=1e-8):
    c = build([("q", dims)], gates)
    before = snapshot(c)
    r = simulate(c, name)
    v = np.asarray(r.get_state_vector())
    n = int(np.prod(dims))
    expect(v.shape == (1, n), f"state of shape {v.shape} for dimensions {dims}")
    want = unitary_of(c, gates)[:, 0]
    expect(np.allclose(v[0], want, atol=tol), f"{name} on dimensions {dims}: state differs from the product of the gate matrices by {np.max(np.abs(v[0] - want)):.3g}")
    expect(list(r.get_counts()) == [], "counts without noise")
    expect(snapshot(c) == before, "the circuit is changed by the simulation")


@case("tn_circuit")
def tn_circuit(dims, gates, **_):
    check(list(dims), gates)


@case("tn_step")
def tn_step(dims=None, targets=None, ctl=None, dag=False, seed=1, **_):
    if dims is None:
        for d in ([2], [3, 2], [2, 3, 2]):
            check(d, [])
        return
    kind = {1: "cu_one", 2: "cu_two"}
    k = {1: "cu_one", 2: "cu_two"}.get(len(dims), "cu_multi")
    gates = [dict(kind=k, lines=list(range(len(dims))), params=seed), dict(kind=kind.get(len(targets), "cu_multi"), lines=list(targets), params=seed + 1, dag=dag)]
    if ctl and len(targets) == 1:
        gates[1]["ctl"] = ctl
    check(list(dims), gates)


@gen("C07")
def g(r, budget):
    while True:
        dims, gates = random_circuit(r, maxlines=r.choice([2, 3, 4, 5]), gates=r.choice([2, 5, 10]))
        yield "tn_circuit", dict(dims=dims, gates=gates)
