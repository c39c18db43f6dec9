"""C05: QASM export and import.

Texts are bounded skeletons (registers, gate kinds, target and control lines, layouts); every number in them is arbitrary: dimensions,
levels, angles of either sign and any of the lexical shapes of repr(float).  Numbers print as placeholder numerals and read back as
themselves (pyvc.builtins_.Numerals); that the parser's patterns treat all digits alike is an obligation of its own.
"""
from __future__ import annotations

import re

from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import fake_matrix, ob
from pyvc.builtins_ import Numerals
from pyvc.num import Num

P = "C05"
Q = "quantum_circuit/"
FUNCS = [Q + "gate.py:Gate.__qasm__", Q + "qasm.py:QASM.parse_ditqasm2_str", Q + "qasm.py:QASM.parse_gate", Q + "qasm.py:QASM.parse_qreg", Q + "qasm.py:QASM.parse_nonspecial_lines",
         Q + "qasm.py:QASM.safe_eval_math_expression", Q + "circuit.py:QuantumCircuit.from_qasm", Q + "circuit.py:QuantumCircuit.to_qasm", Q + "components/quantum_register.py:QuantumRegister.from_map",
         Q + "components/quantum_register.py:QuantumRegister.__qasm__"]

SINGLE = ["x", "z", "h", "r", "rz", "rh", "virtrz", "noisex", "noisey", "s", "pm"]
TWO = ["csum", "cx0", "cx", "ls", "ms"]
CONTROLLED = ["x", "z", "h", "r", "rz", "rh", "virtrz", "noisex", "noisey", "s"]


def qc():
    return loader.load("quantum_circuit.circuit").QuantumCircuit, loader.load("quantum_circuit.components.quantum_register").QuantumRegister


def build(vc, regs, concrete=None):
    QC, QR = qc()
    c = None
    k = 0
    for name, size in regs:
        dims = []
        for _ in range(size):
            dims.append(concrete[k] if concrete else vc.int(f"d{k}", 2))
            k += 1
        r = QR(name, size, dims)
        if c is None:
            c = QC(r)
        else:
            c.append(r)
    return c


def lev(vc, name, d):
    x = vc.int(name, 0)
    vc.assume(x < d)
    return x


def add(vc, c, kind, lines, tag="", ctl=None):
    q = lines[0]
    d = c.dimensions[q]
    CD = loader.load("quantum_circuit.components.extensions.controls").ControlData
    cd = CD(list(ctl), [lev(vc, f"l{tag}_{x}", c.dimensions[x]) for x in ctl]) if ctl else None

    def pair():
        a, b = lev(vc, "a" + tag, d), lev(vc, "b" + tag, d)
        vc.assume(a != b)
        return a, b

    def ang(n):
        from pyvc.builtins_ import fl
        x = fl(vc.angle(n + tag))
        C.ctx().inputs[n + tag] = x
        return x
    if kind in ("x", "z", "h", "s"):
        return getattr(c, kind)(q, cd)
    if kind == "r":
        return c.r(q, [*pair(), ang("theta"), ang("phi")], cd)
    if kind == "rz":
        return c.rz(q, [*pair(), ang("phi")], cd)
    if kind in ("rh", "noisex", "noisey"):
        return getattr(c, kind)(q, [*pair()], cd)
    if kind == "virtrz":
        return c.virtrz(q, [lev(vc, "a" + tag, d), ang("phi")], cd)
    if kind == "pm":
        return c.pm(q, [1, 2, 0])
    if kind == "csum":
        return c.csum(list(lines))
    if kind == "cx0":
        return c.cx(list(lines))
    if kind == "cx":
        dt = c.dimensions[lines[1]]
        a, b = lev(vc, "a" + tag, dt), lev(vc, "b" + tag, dt)
        vc.assume(a < b)
        x = ang("phi")
        vc.assume(x >= 0)
        vc.assume(x <= 2 * N.PI)
        return c.cx(list(lines), [a, b, lev(vc, "k" + tag, d), x])
    x = ang("theta")
    vc.assume(x >= 0)
    vc.assume(x <= 2 * N.PI)
    return getattr(c, kind)(list(lines), [x])


class Text(Numerals):
    """numerals, and the angle normalisation by its contract (a function of the angle; C10 proves what it computes)"""
    def __enter__(self):
        self.saved = []
        loader.load("quantum_circuit.gates")
        for name, m in list(loader.LOADED.items()):
            if ".gates." in name and "regulate_theta" in vars(m):
                self.saved.append((m, m.regulate_theta))
                m.regulate_theta = lambda x: Num.opaque("regulate_theta", Num.lift(x))
        return super().__enter__()

    def __exit__(self, *a):
        for m, f in self.saved:
            m.regulate_theta = f
        return super().__exit__(*a)


def equal_values(vc, x, y, label):
    if isinstance(x, (list, tuple)):
        vc.ensure(isinstance(y, (list, tuple)) and len(x) == len(y), label)
        for a, b in zip(x, y):
            equal_values(vc, a, b, label)
    elif isinstance(x, (Num, int, float)) and not isinstance(x, bool):
        vc.ensure_eq(x, y, label)
    elif hasattr(x, "shape"):
        vc.ensure(x is y or (x.shape == y.shape and all(Num.lift(a - b).is_zero() for a, b in zip(x.ravel(), y.ravel()))), label)
    else:
        vc.ensure(type(x) is type(y) and x == y, label)


ATTRS = ("qasm_tag", "_params", "_target_qudits", "_dimensions", "lev_a", "lev_b", "theta", "phi", "ctrl_lev", "perm_data", "gate_type", "is_long_range", "dagger")


def equal_gate(vc, g, h, label):
    vc.ensure(type(g) is type(h), label + ": kind")
    for a in ATTRS:
        if a in vars(g) or a in vars(h):
            equal_values(vc, vars(g).get(a), vars(h).get(a), f"{label}: {a}")
    x, y = g._controls_data, h._controls_data
    vc.ensure((x is None) == (y is None), label + ": controls")
    if x is not None:
        equal_values(vc, x.indices, y.indices, label + ": control lines")
        equal_values(vc, x.ctrl_states, y.ctrl_states, label + ": control levels")


def equal_circuit(vc, c, d):
    vc.ensure(c.num_qudits == d.num_qudits, "number of lines")
    equal_values(vc, c.dimensions, d.dimensions, "dimensions")
    vc.ensure([(r.label, r.size) for r in c.quantum_registers] == [(r.label, r.size) for r in d.quantum_registers], "registers")
    for r, s in zip(c.quantum_registers, d.quantum_registers):
        equal_values(vc, r.dimensions, s.dimensions, "dimensions of the registers")
        vc.ensure(r.local_sitemap == s.local_sitemap, "lines of the registers")
    vc.ensure(list(c.sitemap) == list(d.sitemap) and c.inverse_sitemap == d.inverse_sitemap, "sitemap")
    for k in c.sitemap:
        equal_values(vc, c.sitemap[k], d.sitemap[k], "sitemap")
    vc.ensure(c.number_gates == d.number_gates == len(c.instructions) == len(d.instructions), "number of gates")
    for k, (g, h) in enumerate(zip(c.instructions, d.instructions)):
        equal_gate(vc, g, h, f"gate {k}")


def reread(text):
    QC, _ = qc()
    d = QC()
    d.from_qasm(text)
    return d


REGS = [("q", 2), ("anc_1", 1)]


def concrete_for(kind):
    return [3, 5, 2] if kind == "s" else [3, 3, 3] if kind == "pm" else None


for shape in range(4):
    for kind in SINGLE:
        if shape and kind not in ("r", "rz", "virtrz"):
            continue

        @ob(P, f"round trip.{kind}{f' numerals {shape}' if shape else ''}", FUNCS, bound="one gate on every line of registers of two and one lines, zero, one or two controls; all dimensions, levels and angles", case="qasm_single", fixed={"gate": kind})
        def single(vc, kind=kind, shape=shape):
            with Text(shape):
                c = build(vc, REGS, concrete_for(kind))
                q = vc.choose("q", 3)
                others = [x for x in range(3) if x != q]
                ctls = [None, [others[0]], [others[1]], others, others[::-1]] if kind in CONTROLLED else [None]
                ctl = ctls[vc.choose("ctl", len(ctls))]
                C.ctx().inputs.update(q=q, ctl=ctl)
                add(vc, c, kind, [q], ctl=ctl)
                d = reread(c.to_qasm())
                equal_circuit(vc, c, d)
    for kind in TWO:
        if shape and kind in ("csum", "cx0"):
            continue

        @ob(P, f"round trip.{kind}{f' numerals {shape}' if shape else ''}", FUNCS, bound="one gate on every ordered pair of three lines; all dimensions, levels and angles", case="qasm_two", fixed={"gate": kind})
        def two(vc, kind=kind, shape=shape):
            with Text(shape):
                c = build(vc, REGS)
                pairs = [(a, b) for a in range(3) for b in range(3) if a != b]
                ls = pairs[vc.choose("pair", 6)]
                C.ctx().inputs.update(lines=list(ls))
                add(vc, c, kind, ls)
                equal_circuit(vc, c, reread(c.to_qasm()))


@ob(P, "round trip.three gates and reset", FUNCS + [Q + "circuit.py:QuantumCircuit.reset"], bound="three gates on three lines, read twice into the same circuit", case=None, budget=120)
def sequence(vc):
    with Text(0):
        c = build(vc, REGS)
        add(vc, c, "r", [2], "1", [0])
        add(vc, c, "cx", [1, 0], "2")
        add(vc, c, "r", [2], "3")
        t = c.to_qasm()
        d = reread(t)
        equal_circuit(vc, c, d)
        vc.ensure(d.to_qasm() == t, "export is stable under a second round trip")
        d.from_qasm(t)
        equal_circuit(vc, c, d)


for n, regs in enumerate([[("a", 1)], [("b", 1), ("a", 1)], [("x1", 3)], [("q", 1), ("qq", 2)], [("z", 2), ("y", 1), ("x", 2)]]):
    @ob(P, f"registers.{'-'.join(f'{a}{s}' for a, s in regs)}", FUNCS, bound="this register layout, all dimensions", case=None)
    def registers(vc, regs=regs):
        with Text(0):
            c = build(vc, regs)
            for k in range(c.num_qudits):
                add(vc, c, "x", [k], str(k))
            equal_circuit(vc, c, reread(c.to_qasm()))


class Store:
    """ghost file store of numpy.save and numpy.load"""
    def __init__(self):
        self.files = {}

    def save(self, path, arr):
        self.files[str(path)] = arr

    def load(self, path):
        return self.files[str(path)]


for kind in ("cu_one", "cu_two", "cu_multi"):
    @ob(P, f"round trip.{kind}", FUNCS + [Q + "gate.py:Gate.return_custom_data"], bound="one custom gate with an arbitrary matrix, numpy.save and numpy.load by contract", case="qasm_custom", fixed={"gate": kind})
    def custom(vc, kind=kind):
        np_ = loader.standin("numpy")
        st = Store()
        np_.save, np_.load = st.save, st.load
        try:
            with Text(0):
                c = build(vc, REGS)
                c.path_save = "/ghost/dir"
                if kind == "cu_one":
                    k = vc.choose("q", 3)
                    CD = loader.load("quantum_circuit.components.extensions.controls").ControlData
                    o = (k + 1) % 3
                    c.cu_one(k, fake_matrix("u", 2), CD([o], [lev(vc, "l", c.dimensions[o])]) if vc.choose("ctl", 2) else None)
                elif kind == "cu_two":
                    c.cu_two([[0, 1], [2, 0]][vc.choose("pair", 2)], fake_matrix("u", 4))
                else:
                    c.cu_multi([[0, 1, 2], [2, 0, 1]][vc.choose("order", 2)], fake_matrix("u", 8))
                t = c.to_qasm()
                d = reread(t)
                equal_circuit(vc, c, d)
                vc.ensure(d.instructions[0].__array__() is not None, "the matrix is set")
        finally:
            del np_.save, np_.load


LAYOUT = {
    "blank lines": lambda L: [x for l in L for x in ("", l, "   ")],
    "indented": lambda L: ["\t  " + l + "  " for l in L],
    "line comments": lambda L: [x for l in L for x in ("// x q[0];", l, "//z q[0]; /* h q[0];")],
    "comments after the statement": lambda L: [l + " // h q[0]; /* x" for l in L],
    "block comment on one line": lambda L: [x for l in L for x in ("/* x q[0]; */", l)],
    "block comment over lines": lambda L: [x for l in L for x in ("/* x q[0];", "x q[0];", "// */", l)],
    "block comment before the statement": lambda L: ["/* z q[0]; */ " + l for l in L],
    "block comment after the statement": lambda L: [l + " /* x q[0];\n h q[0]; */" for l in L],
    "include and barrier": lambda L: [L[0], 'include "qelib1.inc";', *[x for l in L[1:] for x in (l, "barrier q[0];")]],
    "one line": lambda L: [" ".join(L)],
    "no space between the statements": lambda L: ["".join(L)],
    "wide spaces": lambda L: [l.replace(" ", "   ").replace(",", ",  ") if not l.startswith("qreg") else l for l in L],
    "narrow": lambda L: [l.replace(", ", ",") for l in L],
    "windows line ends": lambda L: [l + "\r" for l in L],
}
for name in LAYOUT:
    @ob(P, f"layout.{name}", FUNCS, bound="one text of two registers and four gates in this layout, all numbers arbitrary", case="qasm_layout", fixed={"layout": name}, budget=120)
    def layout(vc, name=name):
        with Text(0):
            c = build(vc, [("q", 2), ("r", 1)])
            C.ctx().inputs["layout"] = name
            add(vc, c, "r", [1], "1", [2, 0])
            add(vc, c, "cx", [2, 0], "2")
            add(vc, c, "h", [0], "3")
            add(vc, c, "virtrz", [2], "4")
            lines = [l for l in c.to_qasm().split("\n") if l]
            equal_circuit(vc, c, reread("\n".join(LAYOUT[name](lines)) + "\n"))


@ob(P, "classical registers", [Q + "qasm.py:QASM.parse_creg", Q + "qasm.py:QASM.parse_ditqasm2_str", Q + "components/classic_register.py:ClassicRegister.from_map", Q + "components/classic_register.py:ClassicRegister.__qasm__",
    Q + "circuit.py:QuantumCircuit.append_classic", Q + "circuit.py:QuantumCircuit.from_qasm"], bound="up to three classical registers of one to three entries", case="qasm_classic")
def classic(vc):
    CR = loader.load("quantum_circuit.components.classic_register").ClassicRegister
    QC, _ = qc()
    names = [["m"], ["m", "c_1"], ["b", "a", "meas2"]][vc.choose("names", 3)]
    regs = [(x, 1 + vc.choose("size_" + x, 3)) for x in names]
    spaced = vc.choose("spaced", 2)
    C.ctx().inputs.update(cregs=[list(x) for x in regs], spaced=spaced)
    decl = "".join(f"{CR(x, k).__qasm__() if spaced else f'creg {x}[{k}];'}\n" for x, k in regs)
    c = QC()
    for _ in range(2):
        c.from_qasm("DITQASM 2.0;\nqreg q [2][3,4];\n" + decl + "x q[1];\n")
        lines = [(x, i) for x, k in regs for i in range(k)]
        vc.ensure([(r.label, r.size) for r in c.classic_registers] == regs, "the declared classical registers")
        vc.ensure(c.num_cl == len(lines), "number of classical lines")
        vc.ensure(c.classic_site_map == {x: (i,) for i, x in enumerate(lines)} and c.cl_inverse_sitemap == dict(enumerate(lines)), "classical lines in the order of declaration")
        vc.ensure([r[i] for r in c.classic_registers for i in range(r.size)] == list(range(len(lines))), "lines of the entries")
        vc.ensure(len(c.quantum_registers) == 1 and c.dimensions == [3, 4] and len(c.instructions) == 1, "the rest of the program")


@ob(P, "numerals are treated alike", FUNCS, case=None)
def digits(vc):
    """every pattern the parser compiles treats all decimal digits alike"""
    try:
        from re import _parser as sp
    except ImportError:
        import sre_parse as sp
    seen = []
    mod = loader.load("quantum_circuit.qasm")
    real = re.compile

    class Re:
        def __getattr__(self, n):
            return getattr(re, n)

        def compile(self, p, *a):
            seen.append(p)
            return real(p, *a)

        def search(self, p, *a):
            seen.append(p)
            return re.search(p, *a)

        def match(self, p, *a):
            seen.append(p)
            return re.match(p, *a)
    old = mod.re
    mod.re = Re()
    try:
        mod.QASM().parse_ditqasm2_str("DITQASM 2.0;\nqreg q [2][3,4];\ncreg c[2];\nrxy (0, 1, 0.5, 0.25) q[0] ctl q[1] [2];\nx q[1];\n")
    finally:
        mod.re = old

    def literals(t):
        for op, av in t:
            name = str(op)
            if name in ("LITERAL", "NOT_LITERAL"):
                yield chr(av)
            elif name == "IN":
                for o2, a2 in av:
                    if str(o2) == "LITERAL":
                        yield chr(a2)
                    elif str(o2) == "RANGE" and not (a2[1] < 48 or a2[0] > 57 or (a2[0] <= 48 and a2[1] >= 57)):
                        yield "5"
            elif isinstance(av, tuple):
                for x in av:
                    if hasattr(x, "data"):
                        yield from literals(x)
                    elif isinstance(x, list):
                        for y in x:
                            if hasattr(y, "data"):
                                yield from literals(y)
    for p in seen:
        ds = [x for x in literals(sp.parse(p)) if x.isdigit()]
        keyword = bool(re.search(r"DITQASM|qelib1", p))
        vc.ensure(not ds or keyword, f"pattern without digit literals: {p[:40]}")
    vc.ensure(len(seen) > 4, "patterns were seen")
