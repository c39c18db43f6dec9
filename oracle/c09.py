"""C09 at run time: the local passes on random unitaries, graphs and placements."""
from __future__ import annotations

import numpy as np
from scipy.stats import unitary_group

from .base import SEARCHES, case, expect, gen
from .c11 import placement, with_phases
from .comp import Backend, couplings_ok, deviation, placement as perm, quiet, random_map, random_tree
from .sim import snapshot

TOL = 2e-3      # rotations and phases below the thresholds of the code are dropped


def unitary(kind, d, seed):
    r = np.random.RandomState(seed)
    if kind == "haar":
        return unitary_group.rvs(d, random_state=r)
    if kind == "perm":
        return np.eye(d)[r.permutation(d)].astype(complex)
    if kind == "phaseperm":
        return np.diag(np.exp(1j * r.uniform(-3, 3, d))) @ np.eye(d)[r.permutation(d)]
    if kind == "diag":
        return np.diag(np.exp(1j * r.uniform(-3, 3, d)))
    if kind == "real":
        q, _ = np.linalg.qr(r.normal(size=(d, d)))
        return q.astype(complex)
    if kind == "block":
        u = np.eye(d, dtype=complex)
        for _ in range(2):
            a, b = r.choice(d, 2, replace=False) if d > 1 else (0, 0)
            v = np.eye(d, dtype=complex)
            v[np.ix_([a, b], [a, b])] = unitary_group.rvs(2, random_state=r)
            u = v @ u
        return u
    return np.eye(d, dtype=complex)


KINDS = ["haar", "haar", "perm", "phaseperm", "diag", "real", "block", "identity"]


def passes():
    from mqt.qudits.compiler.onedit import LogLocAdaPass, LogLocQRPass, PhyLocAdaPass, PhyLocQRPass
    return {"logqr": LogLocQRPass, "phyqr": PhyLocQRPass, "logada": LogLocAdaPass, "phyada": PhyLocAdaPass}


def seq(gates, d):
    m = np.eye(d, dtype=complex)
    for g in gates:
        m = np.asarray(g.to_matrix(identities=0)) @ m
    return m


def one(which, d, edges, map, kind, useed, phases=None, gname=None, carry=False):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    c = QuantumCircuit(2, [2, d], 0)
    if gname:
        k, par = gname
        g = getattr(c, k)(1, *par)
        u = np.asarray(g.to_matrix(identities=0))
    else:
        u = unitary(kind, d, useed)
        g = c.cu_one(1, u)
    if which[:3] == "log":
        phases = None
    gr = with_phases(d, map, edges, phases)
    if which in ("phyqr", "logqr") and phases is not None:
        gr = with_phases(d, map, edges, [0.0] * d)
    v = placement(gr, d)
    b = Backend([None, gr])
    before = snapshot(c)
    p = passes()[which](b, True) if carry and which == "phyada" else passes()[which](b)
    gates = quiet(p.transpile_gate, g)
    expect(snapshot(c) == before and np.allclose(np.asarray(g.to_matrix(identities=0)), u), "the circuit is changed")
    for x in gates:
        expect(x.target_qudits == 1 and x.dimensions == d and x.control_info["controls"] is None, "a gate that is not on the qudit alone")
    h = b.energy_level_graphs[1]
    m2 = h.log_phy_map
    got = seq(gates, d)
    if which[:3] == "log":
        want = u
    elif which == "phyqr":
        want = perm(map) @ u @ perm(map).T
        expect(m2 == list(map), "the placement changes")
    else:
        # phases the pass carries on are pending in the graph it leaves
        want = (placement(h, d) if carry else perm(m2)) @ u @ v.conj().T
    if which[:3] == "phy":
        couplings_ok(gates, edges, map)
        expect(sorted(m2) == list(range(d)), "the placement is not a placement")
    x = deviation(got, want)
    expect(x < TOL * d, f"{which}: the sequence differs from the gate by {x:.3g}")


def decompose(which, d, edges, map, kind, useed, phases):
    """the decompositions themselves, from a graph with pending phases"""
    from mqt.qudits.compiler.onedit.mapping_aware_transpilation.phy_local_qr_decomp import PhyQrDecomp
    from mqt.qudits.compiler.onedit.mapping_un_aware_transpilation.log_local_qr_decomp import QrDecomp
    from mqt.qudits.quantum_circuit import QuantumCircuit
    c = QuantumCircuit(2, [2, d], 0)
    u = unitary(kind, d, useed)
    g = c.cu_one(1, u)
    gr = with_phases(d, map, edges, phases)
    v, ph = placement(gr, d), np.diag([np.exp(1j * gr.nodes[n].get("phase_storage", 0)) for n in range(d)])
    dec, cost, total = quiet((PhyQrDecomp if which == "phyqr" else QrDecomp)(g, gr).execute)
    expect(np.allclose(placement(gr, d), v, atol=1e-6), "the placement or its phases change")
    want = perm(map) @ u.conj().T @ v.conj().T if which == "phyqr" else u.conj().T @ ph.conj().T
    x = deviation(seq(dec, d), want)
    expect(x < TOL * d and cost >= 0 and total >= 0, f"{which}: the decomposition differs by {x:.3g}")


SEARCHES.update(single=60, pass1=10, decomposition=10, passes=40)


@case("single")
def single(d=3, edges=None, map=None, phases=None, which=None, **_):
    edges = edges or [[i, i + 1, 2] for i in range(d - 1)]
    map = map or list(range(d))
    for w in [which] if which else ["logqr", "phyqr", "logada", "phyada"]:
        for k in KINDS[1:]:
            for s in (1, 2):
                one(w, d, edges, map, k, s, phases)
                if w.endswith("qr"):
                    decompose(w, d, edges, map, k, s, phases)
    circuit_case(7)


def circuit_case(seed):
    """whole circuits: every local gate replaced at its place, the others stay"""
    import random
    from .c14 import make
    from .sim import circuit_unitary, random_circuit
    r = random.Random(seed)
    dims, gs = random_circuit(r, maxlines=3, maxdim=3, maxsize=30, gates=5, kinds=["r", "h", "x", "z", "csum", "cx0", "cu_one", "rz", "virtrz"], dag=0.2)
    c = make(dims, gs)
    u, before = circuit_unitary(c), snapshot(c)
    for w, cls in passes().items():
        maps = [random_map(r, d) for d in dims]
        grs = [with_phases(d, m, random_tree(r, d)) for d, m in zip(dims, maps)]
        b = Backend(grs)
        t = quiet(cls(b).transpile, c)
        expect(snapshot(c) == before, "the circuit is changed")
        expect(t.number_gates == len(t.instructions), "gate count")
        from mqt.qudits.quantum_circuit.components.extensions.gate_types import GateTypes
        others = [g for g in c.instructions if g.gate_type != GateTypes.SINGLE]
        left = [g for g in t.instructions if g.gate_type != GateTypes.SINGLE]
        expect(len(others) == len(left) and all(x is y for x, y in zip(others, left)), "gates on several lines are changed")
        if w[:3] == "log":
            x = deviation(circuit_unitary(t), u)
            expect(x < TOL * len(u), f"{w}: the circuit differs by {x:.3g}")


@case("pass1")
def gate(**kw):
    one(**kw)


@case("decomposition")
def decomposition(**kw):
    decompose(**kw)


@case("passes")
def circuit(seed):
    circuit_case(seed)


@gen("C09")
def g(r, budget):
    while True:
        for which in ("logqr", "phyqr", "logada", "phyada"):
            d = r.choice([2, 3, 3, 4]) if which.endswith("ada") else r.randint(2, 6)
            edges = random_tree(r, d)
            if r.random() < 0.3 and d > 2:
                a, b = r.sample(range(d), 2)
                if not any({a, b} == set(e[:2]) for e in edges):
                    edges = [*edges, [a, b, r.randint(1, 4)]]
            ph = None if r.random() < 0.5 else [r.uniform(-6, 6) for _ in range(d)]
            kind = r.choice(KINDS)
            if d == 4 and which.endswith("ada") and kind in ("haar", "real") and r.random() < 0.7:
                kind = "block"
            kw = dict(which=which, d=d, edges=edges, map=random_map(r, d), kind=kind, useed=r.randrange(10 ** 6), phases=ph)
            if which == "phyada" and r.random() < 0.5:
                kw["carry"] = True
            if r.random() < 0.2 and d < 5:
                a, b = sorted(r.sample(range(d), 2))
                kw["gname"] = r.choice([["h", []], ["x", []], ["z", []], ["s", []], ["r", [[a, b, r.uniform(-6, 6), r.uniform(-6, 6)]]], ["rz", [[a, b, r.uniform(-6, 6)]]],
                                        ["virtrz", [[a, r.uniform(-6, 6)]]]])
                if d not in (2, 3):
                    kw["gname"] = kw["gname"] if kw["gname"][0] != "s" else None
            yield "pass1", kw
            if which.endswith("qr"):
                kw.pop("gname", None)
                kw.pop("carry", None)
                yield "decomposition", kw
        if r.random() < 0.3:
            yield "passes", dict(seed=r.randrange(10 ** 6))
