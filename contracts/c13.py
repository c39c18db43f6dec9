"""C13: whole-circuit compilation.  The drivers run with the passes by their contracts (C09, C12, C14): a local pass returns a block that implements V' U V^-1, where V is the placement
it reads from the back end and V' the one it leaves there (with pending phases if it was told to keep them), a two-qudit pass needs that no phases are pending.
The mapping-aware two-qudit pass itself is compared with P U P^-1 for arbitrary gates, remapping of results for arbitrary states."""
from __future__ import annotations

import itertools
import types

import numpy as np

from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import FakeCircuit, fake_matrix, ob
from pyvc.builtins_ import fl
from pyvc.num import Num

from .c09 import perm
from .c11 import angle, eye, mul, same
from .c12 import cex_block
from .c14 import gates_of, same_seq, words

P = "C13"
D = "compiler/dit_compiler.py:QuditCompiler."
PE = "compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py:PhyEntQRCEXPass."
VI = "visualisation/plot_information.py:"
POOL = [(0,), (1,), (0, 1), (2, 0), (0, 1, 2)]


def load(f):
    return loader.load(f.split(".py")[0].replace("/", "."))


class Graph:
    """a level graph by what the drivers may read: its placement; version and pending phases are ghost state"""

    def __init__(self, mp, version=0, pending=False):
        self.log_phy_map, self.version, self.pending = list(mp), version, pending


class Block:
    """gates that implement, on the lines of a gate, the gate between the placements of two moments"""

    def __init__(self, gate, before, after):
        self.gate, self.before, self.after = gate, before, after

    def __deepcopy__(self, memo):
        return self


class World:
    """the passes by their contracts, and what they were asked"""

    def __init__(self, vc, m, physical):
        self.vc, self.GT = vc, loader.load("quantum_circuit.components.extensions.gate_types").GateTypes
        w, gt = self, self.GT
        self.resynthesised = None

        class Base:
            def __init__(self, backend, vrz_prop=False):
                vc.ensure(backend is w.backend, "the pass works on the given back end")
                self.backend, self.vrz_prop = backend, vrz_prop

        def state(gate):
            return [(g.version, g.pending) for g in (w.backend.energy_level_graphs[q] for q in gate.reference_lines)]

        class PhyQR(Base):
            def transpile_gate(self, gate):
                vc.ensure(gate.gate_type is gt.SINGLE, "the local pass gets local gates")
                s = state(gate)
                vc.ensure(not s[0][1], "no phases are pending before the QR pass")
                return [Block(gate, s, s), Block(None, s, s)]

        class PhyAda(Base):
            def transpile_gate(self, gate):
                vc.ensure(gate.gate_type is gt.SINGLE, "the local pass gets local gates")
                q, s = gate.target_qudits, state(gate)
                old = w.backend.energy_level_graphs[q]
                new = Graph(old.log_phy_map[1:] + old.log_phy_map[:1], old.version + 1, bool(self.vrz_prop))
                w.backend.energy_level_graphs[q] = new
                return [Block(gate, s, state(gate))]

        class LogQR(Base):
            def transpile_gate(self, gate):
                vc.ensure(gate.gate_type is gt.SINGLE, "the local pass gets local gates")
                return [Block(gate, None, None)]

        class PhyEnt(Base):
            def transpile_gate(self, gate):
                vc.ensure(gate.gate_type is gt.TWO, "the two-qudit pass gets two-qudit gates")
                s = state(gate)
                vc.ensure(not any(p for _, p in s), "no phases are pending before an entangling gate")
                return [Block(gate, s, s)]

        class LogEnt(Base):
            def transpile_gate(self, gate):
                vc.ensure(gate.gate_type is gt.TWO, "the two-qudit pass gets two-qudit gates")
                return [Block(gate, None, None), Block(None, None, None)]

        class Resynth(Base):
            def transpile(self, circuit):
                vc.ensure(circuit is w.circuit, "the circuit is resynthesised")
                t = circuit.copy()
                t.set_instructions(w.resynthesis)
                return t
        for k, c in dict(PhyLocQRPass=PhyQR, PhyLocAdaPass=PhyAda, LogLocQRPass=LogQR, LogEntQRCEXPass=LogEnt, PhyEntQRCEXPass=PhyEnt, NaiveLocResynthOptPass=Resynth).items():
            c.__name__ = c.__qualname__ = k
            c.__module__ = "passes"
            setattr(self, k, c)
        self.passes = {"PhyLocQRPass": PhyQR, "PhyLocAdaPass": PhyAda, "LocQRPass": PhyQR, "LocAdaPass": PhyAda, "LogLocQRPass": LogQR, "LogEntQRCEXPass": LogEnt, "PhyEntQRCEXPass": PhyEnt}


NAMES = ("PhyLocQRPass", "PhyLocAdaPass", "LogLocQRPass", "LogEntQRCEXPass", "PhyEntQRCEXPass", "NaiveLocResynthOptPass")
MODES = {"O0": None, "O1": None, "O2": None, "log": ["LogLocQRPass", "LogEntQRCEXPass"], "log reversed": ["LogEntQRCEXPass", "LogLocQRPass"], "ada": ["PhyLocAdaPass", "PhyEntQRCEXPass"],
         "short names": ["LocQRPass", "PhyEntQRCEXPass"], "short ada": ["LocAdaPass", "PhyEntQRCEXPass"], "local": ["LocQRPass"], "two": ["LogEntQRCEXPass"], "none": []}


def drive(vc, mode, length, shared):
    m = load(D)
    qc = loader.load("quantum_circuit.circuit").QuantumCircuit
    names = MODES[mode]
    old = {k: vars(m)[k] for k in NAMES if k in vars(m)}
    table = m.QuditCompiler.passes_enabled
    w = World(vc, m, mode)
    for k in old:
        setattr(m, k, getattr(w, k))
    vc.ensure(set(w.passes) <= set(table), "the passes are known by their names")
    for k, c in w.passes.items():
        vc.ensure(table[k] is old[{"LocQRPass": "PhyLocQRPass", "LocAdaPass": "PhyLocAdaPass"}.get(k, k)], "a name stands for the pass of that name")
    m.QuditCompiler.passes_enabled = {**table, **w.passes}
    single, two = mode.startswith("O") or any("Loc" in x for x in names), mode.startswith("O") or any("Ent" in x for x in names)
    dims = [2, 3, 2]
    try:
        for word in words(length, POOL):
            gates = gates_of(word, shared)
            C.ctx().inputs.update({"word": [list(x) for x in word], "shared": shared, "mode": mode})
            c = qc(3, list(dims), 0)
            c.set_instructions(gates)
            graphs = [Graph(x) for x in ([1, 0], [2, 0, 3, 1], [0, 1], [2, 1, 0])]
            w.backend, w.circuit = types.SimpleNamespace(energy_level_graphs=list(graphs)), c
            todo = gates
            if mode == "O1":
                todo = w.resynthesis = [*gates_of(word, False)]
            comp = m.QuditCompiler()
            t = getattr(comp, "compile_" + mode)(w.backend, c) if names is None else comp.compile(w.backend, c, list(names))
            vc.ensure(t is not c and same_seq(c.instructions, gates) and c.number_gates == len(gates) and c.mappings is None and list(c.dimensions) == dims, "the input circuit is not modified")
            vc.ensure(list(t.dimensions) == dims and t.num_qudits == 3, "the compiled circuit has the lines of the circuit")
            vc.ensure(t.number_gates == len(t.instructions), "the gate count")
            heads = [x for x in t.instructions if not isinstance(x, Block) or x.gate is not None]
            vc.ensure(len(heads) == len(todo), "every gate is compiled once")
            handled = {w.GT.SINGLE: single, w.GT.TWO: two, w.GT.MULTI: False}
            now = {q: (0, False) for q in range(4)}
            for x, g in zip(heads, todo):
                if not handled[g.gate_type]:
                    vc.ensure(x is g, "a gate no pass handles is carried over at its place")
                    continue
                if not isinstance(x, Block):
                    vc.fail("a gate a pass handles is compiled", "it is carried over")
                vc.ensure(x.gate is g, "the gates are compiled in their order")
                if x.before is not None:
                    vc.ensure(x.before == [now[q] for q in g.reference_lines], "every gate starts in the placement the last one left")
                    now.update(zip(g.reference_lines, x.after))
            for i, x in enumerate(t.instructions):
                if isinstance(x, Block) and x.gate is None:
                    vc.ensure(i > 0 and isinstance(t.instructions[i - 1], Block), "the gates of a sequence stay together")
            final = w.backend.energy_level_graphs
            vc.ensure(len(final) == 4 and all((g.version, g.pending) == now[q] for q, g in enumerate(final)), "the back end holds the placements at the end")
            vc.ensure(not any(g.pending for g in final), "no phases are pending at the end")
            vc.ensure(t.mappings == [[x for x in final[q].log_phy_map if x < dims[q]] for q in range(3)], "the reported placements are those at the end, on the levels of the qudits")
    finally:
        for k, v in old.items():
            setattr(m, k, v)
        m.QuditCompiler.passes_enabled = table


for mode in MODES:
    f = [D + ("compile_" + mode if mode in ("O0", "O1", "O2") else "compile")] + ([D + "compile"] if mode == "O0" else [])
    for shared in (False, True):
        for length, tier in ((5, "quick"), (6, "thorough")):
            @ob(P, f"compile.{mode}.{'shared' if shared else 'distinct'}.{length}", f, bound=f"circuits of at most {length} gates on three lines: local gates, two-qudit gates on adjacent and distant lines, gates on three lines",
                case="words", tier=tier, budget=200)
            def driver(vc, mode=mode, length=length, shared=shared):
                """every gate is compiled by the pass for its kind, in order, between the placements of the moment; the placements at the end are reported"""
                drive(vc, mode, length, shared)


@ob(P, "PhyEntQRCEXPass.transpile", [PE + "transpile"], bound="circuits of at most four gates on three lines", case="words", budget=100)
def ent_transpile(vc):
    m = load(PE)
    qc = loader.load("quantum_circuit.circuit").QuantumCircuit
    p = m.PhyEntQRCEXPass(types.SimpleNamespace(energy_level_graphs=[]))
    asked = []

    def transpile_gate(g):
        asked.append(g)
        return [Block(g, None, None), Block(None, None, None)]
    p.transpile_gate = transpile_gate
    m.gc = types.SimpleNamespace(collect=lambda: 0)
    for word in words(4, POOL):
        for shared in (False, True):
            gates = gates_of(word, shared)
            C.ctx().inputs.update({"word": [list(x) for x in word], "shared": shared, "mode": "ent"})
            c = qc(3, [2, 3, 2], 0)
            c.set_instructions(gates)
            del asked[:]
            t = p.transpile(c)
            vc.ensure(t is not c and same_seq(c.instructions, gates) and c.number_gates == len(gates), "the input circuit is not modified")
            want = [x for g in gates for x in ([g, "more"] if len(g.lines) == 2 else [g])]
            got = t.instructions
            vc.ensure(len(got) == len(want) == t.number_gates, "the gate count")
            for x, y in zip(got, want):
                if isinstance(y, str):
                    vc.ensure(isinstance(x, Block) and x.gate is None, "the sequence of a two-qudit gate stands in its place")
                else:
                    vc.ensure((isinstance(x, Block) and x.gate is y) if len(y.lines) == 2 else x is y, "two-qudit gates are replaced, the others stay")


def larger(mp, d, k):
    """the placement of a graph with k more levels, interleaved with those of the qudit"""
    out = list(mp)
    for i in range(k):
        out.insert((2 * i) % (len(out) + 1), d + i)
    return out


def entry(m, ls, i, j):
    if i in ls and j in ls:
        return m[ls.index(i)][ls.index(j)]
    return N.ONE if i == j else N.ZERO


def cex_matrix(g, dc, dt):
    """the matrix of a CEx by its contract (C01), on (level of the first line, level of the second line)"""
    lc, ls, m = cex_block(g)
    return {(c, i, j): entry(m, ls, i, j) if c == lc else (N.ONE if i == j else N.ZERO) for c in range(dc) for i in range(dt) for j in range(dt)}


SIZES = [(2, 2, "quick"), (2, 3, "quick"), (3, 2, "quick"), (3, 3, "quick"), (2, 4, "quick"), (4, 2, "quick"), (3, 4, "thorough"), (4, 3, "thorough"), (2, 5, "thorough")]
for dc, dt, tier in SIZES:
    @ob(P, f"PhyEntQRCEXPass.transpile_gate.cex.{dc}{dt}", [PE + "__init__", PE + "transpile_gate"], bound=f"dimensions {dc} and {dt}, every placement, all levels, an arbitrary phase", case="ent", tier=tier, budget=300)
    def cex(vc, dc=dc, dt=dt):
        """a CEx becomes the CEx on the levels where the placements put its levels"""
        m = load(PE)
        G = loader.load("quantum_circuit.gates")
        phi = vc.angle("phi")
        vc.assume(phi >= 0)
        vc.assume(phi <= 2 * N.PI)
        for lines in ([0, 2], [2, 0]):
            dims = [dc, 7, dt] if lines == [0, 2] else [dt, 7, dc]
            for (m0, m1), more, lc, (a, b), dagger in itertools.product(itertools.product(itertools.permutations(range(dc)), itertools.permutations(range(dt))), (0, 1), range(dc),
                                                                        itertools.combinations(range(dt), 2), (False, True)):
                C.ctx().inputs.update({"dims": dims, "lines": lines, "maps": [list(m0), list(m1)], "more": more, "kind": "cex", "params": [a, b, lc, phi], "dag": dagger})
                c = FakeCircuit(dims)
                g = G.CEx(c, "CEx", list(lines), [a, b, lc, fl(phi)], [dc, dt], None)
                if dagger:
                    g = g.dag()
                graphs = [None, None, None]
                graphs[lines[0]], graphs[lines[1]] = (types.SimpleNamespace(log_phy_map=larger(x, d, more)) for x, d in ((m0, dc), (m1, dt)))
                p = object.__new__(m.PhyEntQRCEXPass)
                p.backend = types.SimpleNamespace(energy_level_graphs=graphs)
                got = p.transpile_gate(g)
                vc.ensure(len(got) == 1 and type(got[0]) is G.CEx and got[0] is not g, "one gate of the same kind")
                h = got[0]
                vc.ensure(list(h.target_qudits) == lines and list(h.dimensions) == [dc, dt] and h.parent_circuit is c and h.control_info["controls"] is None, "on the same lines")
                x, y = cex_matrix(g, dc, dt), cex_matrix(h, dc, dt)
                for (l, i, j), v in x.items():
                    w = y[m0[l], m1[i], m1[j]]
                    if not (w - v).is_zero():
                        vc.ensure_eq(w, v, "the gate between the placed levels")
        vc.ok("the gate between the placed levels")


class Token:
    """gates with a known matrix on (line, or both lines in ascending order)"""

    def __init__(self, m, q):
        self.m, self.q, self.dagger = m, q, False

    def dag(self):
        self.dagger = not self.dagger
        return self


def embed(t, dims, lines):
    a, b = sorted(lines)
    m = np.asarray(t.m, dtype=object)
    if t.dagger:
        m = np.array([[Num.lift(m[j, i]).conjugate() for j in range(len(m))] for i in range(len(m))], dtype=object)
    if t.q is None:
        return m
    n, k = dims[a], dims[b]
    out = np.empty((n * k, n * k), dtype=object)
    for i, j in itertools.product(range(n * k), repeat=2):
        (i0, i1), (j0, j1) = divmod(i, k), divmod(j, k)
        if t.q == a:
            out[i, j] = m[i0, j0] if i1 == j1 else N.ZERO
        else:
            out[i, j] = m[i1, j1] if i0 == j0 else N.ZERO
    return out


class AnyGate:
    """a two-qudit gate, or a gate on one qudit with a control"""

    def __init__(self, lines, dims, controlled):
        GT = loader.load("quantum_circuit.components.extensions.gate_types").GateTypes
        self.gate_type, self.parent_circuit, self.dagger = GT.TWO, FakeCircuit(dims), False
        self.reference_lines = list(lines)
        self.target_qudits = lines[1] if controlled else list(lines)
        self.dimensions = dims[lines[1]] if controlled else [dims[q] for q in lines]


def conjugation(vc, dims, lines, controlled):
    """P U P^-1 with the permutation in the placement by the local pass (C09) and the inverse of the decomposition (C12)"""
    m = load(PE)
    a, b = sorted(lines)
    n = dims[a] * dims[b]
    parts = [np.asarray(fake_matrix(f"d{i}", n), dtype=object) for i in range(2)]
    u = mul(*[np.array([[Num.lift(x[j, i]).conjugate() for j in range(n)] for i in range(n)], dtype=object) for x in parts], eye(n))      # (D2 D1)^-1
    tokens = [Token(x, None) for x in parts]
    perms = {q: list(itertools.permutations(range(dims[q]))) for q in lines}
    old = {k: vars(m)[k] for k in ("PhyLocQRPass", "EntangledQRCEX")}
    G = loader.load("quantum_circuit.gates")
    gate = AnyGate(lines, dims, controlled)

    class Eqr:
        def __init__(self, g):
            vc.ensure(g is gate, "the gate is decomposed")

        def execute(self):
            return list(tokens), 1, 2
    m.EntangledQRCEX = Eqr
    try:
        for mp in itertools.product(perms[a], perms[b]):
            mp = dict(zip((a, b), mp))
            for more in (0, 1):
                C.ctx().inputs.update({"dims": dims, "lines": list(lines), "maps": [list(mp[q]) for q in lines], "more": more, "kind": "cu_one" if controlled else "cu_two"})
                graphs = [None] * len(dims)
                for q in lines:
                    graphs[q] = types.SimpleNamespace(log_phy_map=larger(mp[q], dims[q], more))
                backend = types.SimpleNamespace(energy_level_graphs=graphs)

                class Local:
                    def __init__(self, bk):
                        vc.ensure(bk is backend, "the local pass works on the same back end")

                    def transpile_gate(self, g):
                        q = g.target_qudits
                        vc.ensure(type(g) is G.Perm and q in lines and g.dimensions == dims[q] and g.control_info["controls"] is None and g.parent_circuit is gate.parent_circuit, "a permutation of one of the lines")
                        v = perm(mp[q])
                        pm = np.array([[Num.lift(x) for x in row] for row in np.asarray(g.__array__(), dtype=object)], dtype=object)
                        if g.dagger:
                            pm = pm.T
                        return [Token(mul(v, pm, v.T), q)]
                m.PhyLocQRPass = Local
                p = object.__new__(m.PhyEntQRCEXPass)
                p.backend = backend
                got = p.transpile_gate(gate)
                vc.ensure(not any(t.dagger for t in tokens), "the gates of the decomposition are not modified")
                # permutations only move entries: multiply them as index maps, the two parts once
                mids = [i for i, t in enumerate(got) if t.q is None]
                vc.ensure(len(mids) == 2 and mids[1] == mids[0] + 1, "the decomposition stays together")
                pre, post = eye(n), eye(n)
                for t in got[:mids[0]]:
                    pre = mul(embed(t, dims, lines), pre)
                for t in got[mids[1] + 1:]:
                    post = mul(embed(t, dims, lines), post)
                mid = [embed(t, dims, lines) for t in (got[mids[1]], got[mids[0]])]
                whole = np.array([[perm(mp[a])[i // dims[b], j // dims[b]] * perm(mp[b])[i % dims[b], j % dims[b]] for j in range(n)] for i in range(n)], dtype=object)
                same(vc, pre, whole.T, "the levels move to their logical places first")
                same(vc, post, whole, "and back to their placement at the end")
                for x, y in zip(mid, reversed([embed_dag(x) for x in reversed(parts)])):
                    same(vc, x, y, "the inverse of the decomposition in between, in reversed order")
    finally:
        for k, v in old.items():
            setattr(m, k, v)


def embed_dag(x):
    return np.array([[Num.lift(x[j, i]).conjugate() for j in range(len(x))] for i in range(len(x))], dtype=object)


for dims, lines, tier in [([2, 2], [0, 1], "quick"), ([2, 3], [0, 1], "quick"), ([3, 2], [1, 0], "quick"), ([3, 5, 2], [2, 0], "quick"), ([3, 3], [0, 1], "quick"), ([2, 4], [1, 0], "thorough"), ([4, 5, 3], [2, 0], "thorough")]:
    for controlled in (False, True):
        @ob(P, f"PhyEntQRCEXPass.transpile_gate.{dims}.{lines}.{'controlled' if controlled else 'two'}", [PE + "transpile_gate"], bound=f"dimensions {dims}, lines {lines}, every placement, an arbitrary decomposition of two gates",
            case="ent", tier=tier, budget=300)
        def general(vc, dims=dims, lines=lines, controlled=controlled):
            """any other gate on two qudits is conjugated with the placements"""
            conjugation(vc, dims, lines, controlled)


for dims, tier in [([2], "quick"), ([3], "quick"), ([4], "quick"), ([2, 2], "quick"), ([2, 3], "quick"), ([3, 2], "quick"), ([3, 3], "quick"), ([2, 3, 2], "quick"), ([5], "thorough"), ([4, 3], "thorough"), ([3, 2, 3], "thorough")]:
    @ob(P, f"remap_result.{dims}", [VI + "remap_result"], bound=f"dimensions {dims}, every placement, arbitrary amplitudes", case="remap", tier=tier, budget=200)
    def remap(vc, dims=dims):
        """the amplitude of a logical basis state is the one of its physical basis state"""
        m = load(VI)
        n = int(np.prod(dims))
        state = np.asarray(fake_matrix("s", 1, n), dtype=object)[0]
        for maps in itertools.product(*(itertools.permutations(range(d)) for d in dims)):
            C.ctx().inputs.update({"dims": dims, "maps": [list(x) for x in maps]})
            c = types.SimpleNamespace(mappings=[list(x) for x in maps], dimensions=list(dims))
            for arg in (state.copy(), list(state)):
                got = np.asarray(m.remap_result(arg, c), dtype=object)
                vc.ensure(got.shape == (n,), "one amplitude for every basis state")
                for k, lev in enumerate(itertools.product(*(range(d) for d in dims))):
                    j = 0
                    for d, mp, x in zip(dims, maps, lev):
                        j = j * d + mp[x]
                    if not (Num.lift(got[k]) - state[j]).is_zero():
                        vc.ensure_eq(Num.lift(got[k]), state[j], "the amplitude of the physical basis state")
                vc.ensure(all(x is y for x, y in zip(arg, state)), "the result given is not modified")
        got = np.asarray(m.remap_result(state, types.SimpleNamespace(mappings=None, dimensions=list(dims))), dtype=object)
        vc.ensure(all(x is y for x, y in zip(got, state)), "without placements the result stays")
