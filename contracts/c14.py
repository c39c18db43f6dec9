"""C14: lanes and local resynthesis.  A gate is an opaque object with a kind and its lines (and an opaque matrix); the words of gates are enumerated
up to a length, so the contracts are bounded in the length and proved for arbitrary matrices."""
from __future__ import annotations

import itertools
import types

import numpy as np

from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import fake_matrix, ob
from pyvc.num import Num

P = "C14"
F = "core/lanes.py:Lanes."
RF = "compiler/naive_local_resynth/local_resynth.py:NaiveLocResynthOptPass."
POOL = [(0,), (0, "b"), (1,), (2,), (0, 1), (1, 2), (0, 2), (2, 0), (0, 1, 2)]
B = "circuits of three lines and at most four gates, local gates, gates on two lines (adjacent or not, in both orders) and on three lines"


def mod():
    return loader.load("core.lanes")


class FakeGate:
    """a gate: its kind and lines, first line is the control of gates on several lines, every other such gate reports its lines as controls and target"""

    def __init__(self, lines, n, matrix=None, controlled=False):
        GT = loader.load("quantum_circuit.components.extensions.gate_types").GateTypes
        self.lines = lines
        self.n = n
        self.gate_type = GT.SINGLE if len(lines) == 1 else GT.TWO if len(lines) == 2 else GT.MULTI
        self.target_qudits = lines[0] if len(lines) == 1 else lines[-1] if controlled else list(lines)
        self.matrix = matrix
        self.dagger = False

    @property
    def reference_lines(self):
        return list(self.lines)

    def to_matrix(self, identities=0):
        return self.matrix

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"g{self.n}{self.lines}"


def words(length, pool=POOL):
    for k in range(length + 1):
        yield from itertools.product(pool, repeat=k)


def gates_of(word, shared, controlled=False):
    """the gates of a word; shared: equal local gates are one object that occurs several times"""
    seen, out = {}, []
    for i, key in enumerate(word):
        if shared and key in seen:
            out.append(seen[key])
            continue
        g = FakeGate(tuple(q for q in key if q != "b"), i, controlled=controlled)
        seen[key] = g
        out.append(g)
    return out


def inputs(word, shared, **kw):
    C.ctx().inputs.update({"word": [list(x) for x in word], "shared": shared, **kw})


def same_seq(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def line(gates, q):
    return [g for g in gates if q in g.lines]


for length, tier in ((4, "quick"), (5, "thorough")):
    for shared in (False, True):
        @ob(P, f"extract_instructions.{length}.{shared}", [F + "__init__", F + "create_lanes", F + "extract_instructions", F + "extract_lane", F + "pre_process_ops"],
            bound=B.replace("four", "four" if length == 4 else "five"), case="lanes", tier=tier, budget=200)
        def extract(vc, length=length, shared=shared):
            m = mod()
            for w in words(length):
                for ctl in (False, True):
                    gates = gates_of(w, shared, ctl)
                    inputs(w, shared)
                    circ = types.SimpleNamespace(instructions=list(gates))
                    lanes = m.Lanes(circ)
                    got = lanes.extract_instructions()
                    vc.ensure(len(got) == len(gates), "every gate exactly once")
                    for q in range(3):
                        vc.ensure(same_seq(line(got, q), line(gates, q)), "the gates of a line keep their order")
                        if q in lanes.index_dict:
                            vc.ensure(same_seq(lanes.extract_lane(q), line(gates, q)), "a lane holds the gates on its line in order")
                        else:
                            vc.ensure(not line(gates, q), "every line with gates has a lane")
                    vc.ensure(same_seq(circ.instructions, gates), "the circuit is not modified")

        @ob(P, f"consecutive groups.{length}.{shared}", [F + "find_consecutive_singles", F + "next_is_local", F + "pre_process_ops"],
            bound=B.replace("four", "four" if length == 4 else "five"), case="lanes", tier=tier, budget=200)
        def groups(vc, length=length, shared=shared):
            m = mod()
            for w in words(length):
                gates = gates_of(w, shared)
                inputs(w, shared)
                lanes = m.Lanes(types.SimpleNamespace(instructions=list(gates)))
                tuples = m.Lanes.pre_process_ops(gates)
                vc.ensure(same_seq([t[1] for t in tuples], gates), "the gates with their counters, in order")
                k = 0
                for t in tuples:
                    k += len(t[1].lines) > 1
                    vc.ensure(t[0] == k, "the counter is the number of gates on several lines so far")
                view = lanes.consecutive_view
                vc.ensure(sorted(view) == [q for q in range(3) if line(gates, q)], "one entry for every line with gates")
                for q, gs in view.items():
                    vc.ensure(same_seq([t[1] for g in gs for t in g], line(gates, q)), "the groups of a line are its gates in order")
                    for a, b in itertools.pairwise(gs):
                        vc.ensure(not (len(a[0][1].lines) == 1 and len(b[0][1].lines) == 1), "a run of local gates is one group")
                    for g in gs:
                        vc.ensure(all(len(t[1].lines) == 1 for t in g) or len(g) == 1, "a group is a run of local gates or one other gate")
                if not shared:
                    for i, g in enumerate(gates):
                        if len(g.lines) == 1:
                            rest = [h for h in gates[i + 1:] if g.lines[0] in h.lines]
                            vc.ensure(bool(lanes.next_is_local(g)) == bool(rest and len(rest[0].lines) == 1), "next_is_local: the next gate on the line is local")
                        else:
                            vc.ensure(not lanes.next_is_local(g), "next_is_local of a gate on several lines")
                    ok = False
                    try:
                        lanes.next_is_local(FakeGate((0,), 99))
                    except KeyError:
                        ok = True
                    vc.ensure(ok, "next_is_local of a gate that is not in the circuit is an error")

        @ob(P, f"replace_gates_in_lane.{length}.{shared}", [F + "replace_gates_in_lane"], bound=B.replace("four", "four" if length == 4 else "five"), case="lanes", tier=tier, budget=200)
        def replace(vc, length=length, shared=shared):
            m = mod()
            for w in words(length):
                gates = gates_of(w, shared)
                inputs(w, shared)
                base = m.Lanes(types.SimpleNamespace(instructions=list(gates)))
                for q in base.index_dict:
                    n = len(base.index_dict[q])
                    for s, e in itertools.combinations_with_replacement(range(n + 1), 2):
                        if s >= n:
                            continue
                        run = line(gates, q)[s:e + 1]
                        if any(len(g.lines) > 1 for g in run):
                            continue
                        lanes = m.Lanes(types.SimpleNamespace(instructions=list(gates)))
                        new = FakeGate((q,), 77)
                        lanes.replace_gates_in_lane(q, s, e, new)
                        want = line(gates, q)
                        want[s:e + 1] = [new]
                        vc.ensure(same_seq(lanes.extract_lane(q), want), "the run is replaced by the new gate at its place")
                        got = lanes.extract_instructions()
                        vc.ensure(len(got) == len(gates) - len(run) + 1, "every gate once after the replacement")
                        for o in range(3):
                            vc.ensure(same_seq(line(got, o), want if o == q else line(gates, o)), "the order on every line after the replacement")
                before = {q: list(v) for q, v in base.index_dict.items()}
                base.replace_gates_in_lane(5, 0, 0, FakeGate((5,), 78))
                vc.ensure(before == base.index_dict, "a line without gates: nothing happens")


class CustomContract:
    """CustomOne by its contract (C01): its matrix is its parameter"""

    def __init__(self, circuit, name, target_qudits, parameters, dimensions, controls=None):
        assert controls is None
        GT = loader.load("quantum_circuit.components.extensions.gate_types").GateTypes
        self.lines, self.n, self.gate_type = (target_qudits,), "new", GT.SINGLE
        self.parent_circuit, self.target_qudits, self.matrix, self.dimensions = circuit, target_qudits, parameters, dimensions
        self.reference_lines = [target_qudits]

    def to_matrix(self, identities=0):
        return self.matrix

    def __deepcopy__(self, memo):
        return self


RPOOL = [(0,), (0, "b"), (1,), (0, 1), (2, 0), (0, 1, 2)]
for length, tier in ((4, "quick"), (5, "thorough")):
    @ob(P, f"resynthesis.{length}", [RF + "transpile"], bound=f"at most {length} gates on three lines, arbitrary matrices", case="resynth", tier=tier, budget=300)
    def resynth(vc, length=length):
        m = loader.load("compiler.naive_local_resynth.local_resynth")
        qc = loader.load("quantum_circuit.circuit").QuantumCircuit
        dims = [2, 3, 2]
        mats = {(i, q): fake_matrix(f"m{i}_{q}_", dims[q]) for i in range(length) for q in range(3)}
        old = m.CustomOne
        m.CustomOne = CustomContract
        try:
            for w in words(length, RPOOL):
                for shared in ((False, True) if length <= 4 else (False,)):
                    gates = gates_of(w, shared)
                    for g in gates:
                        if len(g.lines) == 1:
                            g.matrix = mats[g.n, g.lines[0]]
                    inputs(w, shared)
                    c = qc(3, list(dims), 0)
                    c.set_instructions(gates)
                    graphs = [types.SimpleNamespace(log_phy_map=mp) for mp in ([1, 0], [2, 0, 1], [1, 2, 0], [0, 1])]
                    t = m.NaiveLocResynthOptPass(types.SimpleNamespace(energy_level_graphs=graphs)).transpile(c)
                    vc.ensure(t is not c and same_seq(c.instructions, gates) and c.number_gates == len(gates) and c.mappings is None, "the input circuit is not modified")
                    vc.ensure(t.number_gates == len(t.instructions), "the gate count")
                    vc.ensure(t.mappings == [[1, 0], [2, 0, 1], [1, 0]], "the reported placements, restricted to the levels of the qudit")
                    for q in range(3):
                        a, b = runs(line(gates, q)), runs(line(t.instructions, q))
                        vc.ensure(len(a) == len(b), "the gates on several lines cut the line at the same places")
                        for x, y in zip(a, b):
                            if isinstance(x, list) != isinstance(y, list):
                                vc.fail("the gates on several lines stay in their places", "a local gate where there was none")
                            if not isinstance(x, list):
                                vc.ensure(x is y, "the gates on several lines stay the same")
                                continue
                            px, py = product(x, dims[q]), product(y, dims[q])
                            for i in range(dims[q]):
                                for j in range(dims[q]):
                                    vc.ensure_eq(py[i, j], px[i, j], "the product of a run of local gates")
                    multi = [g for g in t.instructions if len(g.lines) > 1]
                    vc.ensure(len(multi) == len([g for g in gates if len(g.lines) > 1]), "every gate on several lines once")
        finally:
            m.CustomOne = old


def runs(gates):
    """runs of local gates as lists (empty at the ends and between two other gates), the other gates alone"""
    out = [[]]
    for g in gates:
        if len(g.lines) == 1:
            out[-1].append(g)
        else:
            out += [g, []]
    return out


def product(gates, d):
    m = np.empty((d, d), dtype=object)
    for i in range(d):
        for j in range(d):
            m[i, j] = N.ONE if i == j else N.ZERO
    for g in gates:
        a = np.asarray(g.to_matrix(), dtype=object)
        m = np.array([[sum((Num.lift(a[i, k]) * m[k, j] for k in range(d)), N.ZERO) for j in range(d)] for i in range(d)], dtype=object)
    return m
