"""C13 at run time: compiled circuits against the original unitary, for random circuits, graphs and placements."""
from __future__ import annotations

import itertools
import random

import numpy as np

from .base import case, expect, gen
from .c14 import make, word_circuit
from .comp import backend, deviation, placement, placements, quiet, random_map, random_tree
from .sim import circuit_unitary, gate_unitary, random_circuit, snapshot

LISTS = {"log": ["LogLocQRPass", "LogEntQRCEXPass"], "log reversed": ["LogEntQRCEXPass", "LogLocQRPass"], "phy": ["PhyLocQRPass", "PhyEntQRCEXPass"], "ada": ["PhyLocAdaPass", "PhyEntQRCEXPass"],
         "short names": ["LocQRPass", "PhyEntQRCEXPass"], "short ada": ["LocAdaPass", "PhyEntQRCEXPass"], "local": ["LogLocQRPass"], "two": ["LogEntQRCEXPass"], "none": []}
KINDS = ["r", "h", "x", "z", "rz", "virtrz", "cu_one", "csum", "cx", "cu_two", "ls", "pm"]


def compiled(mode, b, c):
    from mqt.qudits.compiler.dit_compiler import QuditCompiler
    if mode in LISTS:
        return quiet(QuditCompiler().compile, b, c, LISTS[mode])
    return quiet(getattr(QuditCompiler(), "compile_" + mode), b, c)


def kinds(c):
    from mqt.qudits.quantum_circuit.components.extensions.gate_types import GateTypes as T
    return {T.SINGLE: "s", T.TWO: "t", T.MULTI: "m"}, [g.gate_type for g in c.instructions]


def compile_one(mode, c, maps, trees):
    dims = list(c.dimensions)
    b = backend(dims, maps, trees)
    before = snapshot(c)
    tol = 1e-3 * len(c.instructions) * np.prod(dims) + 1e-6
    names, gs = kinds(c)
    r = compiled(mode, b, c)
    expect(r is not c and snapshot(c) == before and c.mappings is None, "the input circuit is changed")
    expect(r.number_gates == len(r.instructions) and list(r.dimensions) == dims, "the shape of the compiled circuit")
    final = [list(g.log_phy_map) for g in b.energy_level_graphs]
    expect([list(m) for m in r.mappings] == final, f"{mode}: the reported placements {r.mappings} are not those of the back end {final}")
    single = "local" in mode or mode not in ("two", "none")
    two = mode not in ("local", "none")
    handled = {"s": single, "t": two, "m": False}
    left = [g for g in c.instructions if not handled[names[g.gate_type]]]
    ids = {id(g) for g in left}
    got = [g for g in r.instructions if id(g) in ids]
    expect(len(got) == len(left) and all(x is y for x, y in zip(got, left)), f"{mode}: gates no pass handles are not carried over in order")
    if left and mode not in ("log", "log reversed", "local", "two", "none"):
        return r
    u, v = circuit_unitary(c), circuit_unitary(r)
    if mode in ("log", "log reversed", "local", "two", "none"):
        want = u
    else:
        want = placements(final) @ u @ placements(maps).T
    x = deviation(v, want)
    expect(x < tol, f"{mode}: the compiled circuit differs from the original by {x:.3g}")
    if mode in ("O0", "O1", "O2", "ada") and not left:
        from mqt.qudits.visualisation.plot_information import remap_result
        j = 0
        for d, m in zip(dims, maps):
            j = j * d + m[0]
        y = abs(np.vdot(u[:, 0], remap_result(v[:, j], r)))
        expect(abs(y - 1) < tol, f"{mode}: the remapped result overlaps with the original state by {y:.3g} only")
    return r


@case("compile")
def compile_case(mode, dims, gates, maps, trees, again=None):
    compile_one(mode, make(dims, gates, again), maps, trees)


@case("words")
def word(word=(), shared=False, mode=None, **_):
    maps = [[1, 0], [2, 0, 1], [0, 1]]
    if mode == "ent":
        from mqt.qudits.compiler.twodit.entanglement_qr.phy_ent_qr_cex_decomp import PhyEntQRCEXPass
        c = word_circuit(word, shared)
        names, gs = kinds(c)
        before = snapshot(c)
        t = quiet(PhyEntQRCEXPass(backend([2, 3, 2], maps)).transpile, c)
        expect(snapshot(c) == before, "the circuit is changed")
        p, u = placements(maps), np.eye(12)
        for g in c.instructions:
            m = gate_unitary([2, 3, 2], g)
            u = (p @ m @ p.T if names[g.gate_type] == "t" else m) @ u
        expect(t.number_gates == len(t.instructions) and deviation(circuit_unitary(t), u) < 1e-2, "the two-qudit gates are not replaced in their places")
        return
    for m in [mode] if mode else ("O0", "O1", "O2", "log", "ada"):
        compile_one(m, word_circuit(word, shared), maps, None)


@case("ent")
def ent(dims=None, lines=None, maps=None, more=0, kind="cu_two", params=None, dag=False, seed=3, **_):
    from mqt.qudits.compiler.twodit.entanglement_qr.phy_ent_qr_cex_decomp import PhyEntQRCEXPass
    from mqt.qudits.core import LevelGraph
    from mqt.qudits.quantum_circuit import QuantumCircuit

    from .c09 import unitary
    a, b = lines
    mp = dict(zip(lines, maps))
    full = [list(mp.get(q, range(d))) for q, d in enumerate(dims)]
    c = QuantumCircuit(len(dims), list(dims), 0)
    if kind == "cex":
        g = c.cx(list(lines), list(params))
    elif kind == "cu_one":
        g = c.cu_one(b, unitary("haar", dims[b], seed)).control([a], [dims[a] - 1])
    elif kind == "cu_two":
        g = c.cu_two(list(lines), unitary("haar", dims[a] * dims[b], seed))
    else:
        g = getattr(c, kind)(list(lines), *(params or []))
    if dag:
        g = g.dag()
    before = snapshot(c)
    bk = backend(dims, full)
    if more:        # a back end with more levels than the qudits, placed behind theirs
        for q in range(len(dims)):
            d = dims[q] + more
            bk.energy_level_graphs[q] = LevelGraph([(i, i + 1, {"delta_m": 0, "sensitivity": 3}) for i in range(d - 1)], list(range(d)), full[q] + list(range(dims[q], d)), [0])
    gates = quiet(PhyEntQRCEXPass(bk).transpile_gate, g)
    expect(snapshot(c) == before, "the circuit is changed")
    p = placements(full)
    x = deviation(circuit_unitary(c, gates), p @ gate_unitary(list(dims), g) @ p.T)
    expect(x < 2e-3 * dims[a] * dims[b], f"the two-qudit gate {kind} differs by {x:.3g} between the placements")
    expect(all(set(y.reference_lines) <= set(lines) for y in gates), "a gate on another line")


@case("remap")
def remap(dims, maps, seed=1, **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.visualisation.plot_information import remap_result
    c = QuantumCircuit(len(dims), list(dims), 0)
    s = np.random.RandomState(seed).normal(size=int(np.prod(dims)))
    c.set_mapping([list(m) for m in maps])
    for arg in (s.copy(), s * 1j, list(s)):
        keep = np.array(arg)
        want = np.empty(len(s), dtype=complex)
        for k, lev in enumerate(itertools.product(*(range(d) for d in dims))):
            want[k] = keep.reshape(dims)[tuple(m[x] for m, x in zip(maps, lev))]
        expect(np.allclose(remap_result(arg, c), want), "the amplitudes of the logical states are not those of the physical states")
        expect(np.array_equal(arg, keep), "the result is changed")
    c.mappings = None
    expect(np.allclose(remap_result(s, c), s), "a result without placements is changed")


@case("devices")
def devices(seed):
    """the back ends of the library, on all their levels"""
    from mqt.qudits.simulation import MQTQuditProvider
    r = random.Random(seed)
    name = r.choice(["faketraps2trits", "faketraps2trits", "faketraps2six"])
    dims = [3, 3] if name == "faketraps2trits" else [6, 6]
    for _ in range(20):
        gs = random_circuit(random.Random(r.randrange(10 ** 6)), maxlines=2, maxdim=3, gates=3, kinds=["r", "h", "virtrz", "cu_one", "csum", "cx"])
        if gs[0] == [3, 3]:
            break
    else:
        return
    gs = [g for g in gs[1] if dims == [3, 3] or (g["kind"] in ("r", "virtrz", "cx") and "ctl" not in g)]
    c = make(dims, gs)
    for mode in ("O0", "O1", "O2") if dims == [3, 3] else ("O0",):
        b = MQTQuditProvider().get_backend(name)
        m1 = [list(g.log_phy_map) for g in b.energy_level_graphs]
        t = compiled(mode, b, c)
        m2 = [list(g.log_phy_map) for g in b.energy_level_graphs]
        expect([list(m) for m in t.mappings] == m2, "the reported placements")
        x = deviation(circuit_unitary(t), placements(m2) @ circuit_unitary(c) @ placements(m1).T)
        expect(x < 1e-3 * (len(gs) + 1) * np.prod(dims), f"{mode} on {name}: the compiled circuit differs by {x:.3g}")


@gen("C13")
def g(r, budget):
    while True:
        # local gates that make the adaptive passes move levels and carry phases
        d1, d2 = r.choice([(3, None), (3, None), (3, 2), (2, 3), (3, 3)])
        dims = [d1] if d2 is None else [d1, d2]
        gates = [{"kind": "cu_one", "lines": [r.randrange(len(dims))], "params": r.randrange(1000)} for _ in range(r.randint(1, 3))]
        if d2 and r.random() < 0.4:
            gates.insert(r.randint(0, len(gates)), {"kind": "cx0", "lines": r.choice([[0, 1], [1, 0]]), "params": None})
        yield "compile", dict(mode=r.choice(["O2", "O2", "ada"]), dims=dims, gates=gates, maps=[random_map(r, d) for d in dims], trees=[random_tree(r, d) for d in dims], again=[])
        for _ in range(2):
            n = r.randint(1, 4)
            dims = [r.randint(2, 4) for _ in range(n)]
            if np.prod(dims) <= 60:
                yield "remap", dict(dims=dims, maps=[random_map(r, d) for d in dims], seed=r.randrange(1000))
        lines = r.choice([[0, 1], [1, 0], [0, 2], [2, 0]])
        dims = [r.randint(2, 3) for _ in range(3)]
        kind = r.choice(["cex", "cex", "cx", "cu_one", "cu_two", "csum", "ls", "ms"])
        dt, dc = dims[lines[1]], dims[lines[0]]
        params = {"cex": [*sorted(r.sample(range(dt), 2)), r.randrange(dc), r.uniform(0, 6.28)], "ls": [[r.uniform(0, 6)]], "ms": [[r.uniform(0, 6)]]}.get(kind)
        if kind in ("ls", "ms") or kind == "csum" or kind == "cx":
            pass
        yield "ent", dict(dims=dims, lines=lines, maps=[random_map(r, dims[q]) for q in lines], more=r.choice([0, 0, 1]) if kind == "cex" else 0, kind=kind, params=params, dag=r.random() < 0.3, seed=r.randrange(1000))
        mode = r.choice(["O0", "O0", "O1", "O1", "O2", "O2", "ada", "ada", *LISTS])
        adaptive = mode in ("O2", "ada", "short ada")
        dims, gates = random_circuit(r, maxlines=3, maxdim=3, maxsize=18 if adaptive else 27, gates=5, kinds=KINDS, maxctl=2 if r.random() < 0.2 else 1)
        again = [r.randrange(8) for _ in range(r.choice([0, 0, 1, 2]))]
        yield "compile", dict(mode=mode, dims=dims, gates=gates, maps=[random_map(r, d) for d in dims], trees=[random_tree(r, d) for d in dims], again=again)
        if r.random() < 0.1:
            yield "devices", dict(seed=r.randrange(10 ** 6))
        if r.random() < 0.2:
            yield "words", dict(word=[r.choice([[0], [1], [0, 1], [2, 0], [0, 1, 2], [2]]) for _ in range(r.randint(1, 4))], shared=r.random() < 0.5)
