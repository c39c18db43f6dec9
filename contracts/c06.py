"""C06: registers, lines, dimensions and the instruction list."""
from __future__ import annotations

from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import fake_matrix, index, ob
from pyvc.builtins_ import SymSeq
from pyvc.num import Num, Unsupported

P = "C06"
CF = "quantum_circuit/circuit.py:QuantumCircuit."
RF = "quantum_circuit/components/quantum_register.py:QuantumRegister."


def mods():
    return (loader.load("quantum_circuit.circuit"), loader.load("quantum_circuit.components.quantum_register").QuantumRegister,
            loader.load("quantum_circuit.components.classic_register").ClassicRegister)


class GhostMap:
    """a dictionary that already has n entries about which nothing is known but that their keys are not the new ones"""
    def __init__(self, n):
        self.n, self.new = n, []

    def vc_len(self):
        return self.n + len(self.new)

    def __setitem__(self, k, v):
        for e in self.new:
            if same_key(e[0], k):
                e[1] = v
                return
        self.new.append([k, v])

    def __getitem__(self, k):
        for a, v in self.new:
            if same_key(a, k):
                return v
        raise Unsupported("an old entry of a ghost dictionary")

    def __getattr__(self, n):
        raise Unsupported("ghost dictionary: " + n)


def same_key(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_key(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    return bool(a == b)


def seq_dims(n, name="olddim"):
    return SymSeq(n, lambda i: Num.opaque(name, C.ctx().norm(Num.lift(i)), kind="int"))


for size in (1, 2, 3, 4):
    @ob(P, f"append to an arbitrary circuit.{size}", [CF + "append", CF + "num_qudits", CF + "dimensions"], case="registers")
    def append(vc, size=size):
        cm, QR, CR = mods()
        c = cm.QuantumCircuit()
        n = vc.int("n", 0)
        old = QR("old", 1, [2])
        c.quantum_registers = [old]
        c.num_qudits = n
        c._dimensions = seq_dims(n)
        c.sitemap, c.inverse_sitemap = GhostMap(n), GhostMap(n)
        dims = [vc.int(f"d{i}", 2) for i in range(size)]
        C.ctx().inputs["regs"] = [["new", list(dims)]]
        r = QR("new", size, list(dims))
        gates = list(c.instructions)
        c.append(r)
        vc.ensure(c.num_qudits == n + size, "number of lines")
        j = vc.int("j", 0)
        vc.assume(j < n)
        vc.ensure_eq(c.dimensions[j], Num.opaque("olddim", C.ctx().norm(j), kind="int"), "dimensions of the earlier lines")
        vc.ensure(Num.lift(c.dimensions.n) == n + size, "number of dimensions")
        vc.ensure(c.quantum_registers[0] is old and c.quantum_registers[-1] is r and len(c.quantum_registers) == 2, "registers in order")
        vc.ensure(len(c.sitemap.new) == size and len(c.inverse_sitemap.new) == size, "one entry per line")
        for i in range(size):
            line, d = c.sitemap["new", i]
            vc.ensure_eq(line, n + i, "lines are numbered consecutively")
            vc.ensure_eq(d, dims[i], "a line keeps the dimension of its register entry")
            vc.ensure_eq(c.dimensions[n + i], dims[i], "dimensions of the new lines")
            vc.ensure_eq(r.local_sitemap[i], n + i, "lines of the register")
            vc.ensure_eq(r[i], n + i, "lines of the register")
        inv = c.inverse_sitemap.new
        for k, (lab, i) in inv:
            vc.ensure(lab == "new", "inverse sitemap")
            vc.ensure_eq(k, n + i, "inverse sitemap")
        vc.ensure([list(x) for x in [r[0:size]]] == [[r[i] for i in range(size)]], "slice of the register")
        vc.ensure(len(r.dimensions) == size and c.instructions == gates, "register and instructions unchanged")


@ob(P, "append rejects a label in use", [CF + "append", CF + "append_classic"], case="labels")
def labels(vc):
    cm, QR, CR = mods()
    c = cm.QuantumCircuit()
    r = QR("q", 2, [vc.int("d0", 2), vc.int("d1", 2)])
    c.append(r)
    before = (c.num_qudits, list(c.dimensions), dict(c.sitemap))
    vc.ensure_raises(Exception, lambda: c.append(QR("q", 1, [3])), "a second register of the same label is rejected")
    vc.ensure((c.num_qudits, list(c.dimensions)) == before[:2] and list(c.sitemap) == list(before[2]), "a rejected register leaves the circuit unchanged")
    c.append_classic(CR("m", 2))
    vc.ensure_raises(Exception, lambda: c.append_classic(CR("m", 1)), "a second classical register of the same label is rejected")


@ob(P, "classical registers", [CF + "append_classic"], bound="two classical registers of up to three entries", case=None)
def classical(vc):
    cm, QR, CR = mods()
    for a in (1, 2, 3):
        for b in (1, 2, 3):
            c = cm.QuantumCircuit()
            x, y = CR("x", a), CR("y", b)
            c.append_classic(x)
            c.append_classic(y)
            vc.ensure(c.num_cl == a + b and [x[i] for i in range(a)] == list(range(a)) and y[0:b] == list(range(a, a + b)), "classical lines")
            vc.ensure(c.classic_site_map == {**{("x", i): (i,) for i in range(a)}, **{("y", i): (a + i,) for i in range(b)}}, "classical sitemap")
            vc.ensure(c.cl_inverse_sitemap == {**{i: ("x", i) for i in range(a)}, **{a + i: ("y", i) for i in range(b)}}, "classical inverse sitemap")
            vc.ensure(c.num_qudits == 0 and c.dimensions == [], "quantum lines untouched")


@ob(P, "constructor", [CF + "__init__", RF + "__init__"], bound="circuits of up to three lines", case=None)
def constructor(vc):
    cm, QR, CR = mods()
    for n in (1, 2, 3):
        dims = [vc.int(f"d{n}{i}", 2) for i in range(n)]
        a, b = cm.QuantumCircuit(n, list(dims), 0), cm.QuantumCircuit(QR("r", n, list(dims)))
        for c, lab in ((a, "q"), (b, "r")):
            vc.ensure(c.num_qudits == n and c.dimensions == dims and c.number_gates == 0 and c.instructions == [], "constructor")
            vc.ensure([(k, v[0]) for k, v in c.sitemap.items()] == [((lab, i), i) for i in range(n)] and [v[1] for v in c.sitemap.values()] == dims, "constructor: sitemap")
        vc.ensure(cm.QuantumCircuit(n, None, 0).dimensions == [2] * n and QR("x", n).dimensions == [2] * n, "default dimensions")
    vc.ensure(cm.QuantumCircuit().dimensions == [], "empty circuit")


def gates_of(c, dims):
    """one gate of every kind through the circuit interface"""
    CD = loader.load("quantum_circuit.components.extensions.controls").ControlData
    from pyvc.builtins_ import fl
    half = fl(N.PI / 2)
    return [
        (lambda: c.x(0), "X", [0]), (lambda: c.z(1), "Z", [1]), (lambda: c.h(2), "H", [2]), (lambda: c.r(1, [0, 1, half, half]), "R", [1]), (lambda: c.rz(0, [1, 0, half]), "Rz", [0]),
        (lambda: c.rh(2, [0, 1]), "Rh", [2]), (lambda: c.virtrz(1, [1, half]), "VirtRz", [1]), (lambda: c.noisex(0, [0, 1]), "NoiseX", [0]), (lambda: c.noisey(1, [0, 1]), "NoiseY", [1]),
        (lambda: c.noisez(2, 1), "VirtRz", [2]), (lambda: c.s(2), "S", [2]), (lambda: c.pm(2, [1, 0]), "Perm", [2]), (lambda: c.csum([2, 0]), "CSum", [2, 0]), (lambda: c.cx([0, 1]), "CEx", [0, 1]),
        (lambda: c.ls([1, 2], [half]), "LS", [1, 2]), (lambda: c.ms([2, 1], [half]), "MS", [2, 1]), (lambda: c.cu_one(2, fake_matrix("u", 2)), "CustomOne", [2]),
        (lambda: c.cu_two([1, 0], fake_matrix("v", 4)), "CustomTwo", [1, 0]), (lambda: c.cu_multi([2, 1, 0], fake_matrix("w", 8)), "CustomMulti", [2, 1, 0]),
        (lambda: c.x(1, CD([0, 2], [1, 0])), "X", [1]), (lambda: c.randu([0, 2]), "RandU", [0, 2]),
    ]


@ob(P, "every gate is appended once, in order", ["quantum_circuit/circuit.py:add_gate_decorator"] + [CF + x for x in "x z h r rz rh virtrz noisex noisey noisez s pm csum cx ls ms cu_one cu_two cu_multi randu".split()], case="gates")
def appended(vc):
    cm, QR, CR = mods()
    d0, d1 = vc.int("d0", 2), vc.int("d1", 2)
    for k in range(21):
        c = cm.QuantumCircuit(3, [d0, d1, 2], 0)
        m = vc.int("m", 0)
        c.number_gates = m
        c.instructions = [object(), object()]
        before = list(c.instructions)
        f, kind, lines = gates_of(c, None)[k]
        g = f()
        vc.ensure(type(g).__name__ == kind, f"{kind}: kind")
        vc.ensure(c.instructions[:2] == before and len(c.instructions) == 3 and c.instructions[2] is g, f"{kind}: appended at the end")
        vc.ensure(c.number_gates == m + 1, f"{kind}: count")
        t = g.target_qudits
        vc.ensure(([t] if isinstance(t, int) else list(t)) == lines, f"{kind}: lines")
        ds = g._dimensions if isinstance(g._dimensions, list) else [g._dimensions]
        vc.ensure(len(ds) == len(lines) and all(bool(Num.lift(a) == c.dimensions[q]) for a, q in zip(ds, lines)), f"{kind}: dimensions of its lines, in the order of the lines")
        vc.ensure(g.parent_circuit is c, f"{kind}: circuit")


@ob(P, "replace_gate and set_instructions", [CF + "replace_gate", CF + "set_instructions", CF + "set_mapping"], bound="lists of up to four gates", case="replace")
def replace(vc):
    cm, QR, CR = mods()
    for n in range(1, 5):
        for i in range(-n, n):
            for m in range(4):
                c = cm.QuantumCircuit(1, [3], 0)
                old = [object() for _ in range(n)]
                c.set_instructions(old)
                vc.ensure(c.instructions == old and c.instructions is not old and c.number_gates == n, "set_instructions")
                new = [object() for _ in range(m)]
                c.replace_gate(i, new)
                want = list(old)
                p = i % n
                want[p:p + 1] = new
                vc.ensure(c.instructions == want and c.number_gates == len(want), f"replace_gate {i} of {n} by {m}")
                r = c.set_instructions(c.instructions)
                vc.ensure(r is c and c.instructions == want and c.number_gates == len(want), "set_instructions with its own list")
                c.set_instructions([])
                vc.ensure(c.instructions == [] and c.number_gates == 0, "set_instructions: nothing left")


@ob(P, "reset", [CF + "reset"], case="reset")
def reset(vc):
    cm, QR, CR = mods()
    d = [vc.int(f"d{i}", 2) for i in range(3)]
    c = cm.QuantumCircuit(QR("a", 3, list(d)))
    c.append_classic(CR("m", 2))
    c.h(0)
    c.csum([0, 2])
    c.set_mapping([[0, 1]])
    c.path_save = "somewhere"
    c.reset()
    fresh = cm.QuantumCircuit()
    vc.ensure(set(vars(c)) == set(vars(fresh)), "reset: attributes")
    for k, v in vars(fresh).items():
        vc.ensure(vars(c)[k] == v, f"reset: {k}")
    e = [vc.int(f"e{i}", 2) for i in range(2)]
    c.append(QR("b", 2, list(e)))
    c.x(1)
    vc.ensure(c.dimensions == e and c.num_qudits == 2 and c.number_gates == 1 and list(c.sitemap) == [("b", 0), ("b", 1)], "the circuit is usable after reset")


@ob(P, "registers are not shared", [CF + "append", CF + "copy"], bound="two registers", case=None)
def shared(vc):
    cm, QR, CR = mods()
    d = [vc.int(f"d{i}", 2) for i in range(3)]
    a = QR("a", 2, d[:2])
    b = QR("b", 1, d[2:])
    c = cm.QuantumCircuit(a)
    c.append(b)
    c.x(0)
    vc.ensure(a.dimensions == d[:2] and b.dimensions == d[2:], "appending does not change the registers' dimensions")
    k = c.copy()
    k.append(QR("z", 1, [2]))
    k.x(2)
    vc.ensure(c.dimensions == d and c.num_qudits == 3 and c.number_gates == 1 and len(c.instructions) == 1 and len(c.sitemap) == 3, "a copy is independent")
    vc.ensure(k.number_gates == 2 and k.num_qudits == 4 and k.instructions[0] is not c.instructions[0], "a copy has the circuit's gates")
