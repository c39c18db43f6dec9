"""C05 at run time: QASM round trips."""
from __future__ import annotations

import math
import os
import tempfile

import numpy as np

from .base import case, expect, finding, gen
from .c01 import rand_angle
from .c03 import random_matrix


def build(regs, gates):
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
    c = None
    for name, dims in regs:
        q = QuantumRegister(name, len(dims), list(dims))
        if c is None:
            c = QuantumCircuit(q)
        else:
            c.append(q)
    for g in gates:
        kind, lines, params, ctl = g["kind"], g["lines"], g.get("params"), g.get("ctl")
        cd = ControlData(list(ctl[0]), list(ctl[1])) if ctl else None
        t = lines[0] if len(lines) == 1 else list(lines)
        if kind in ("cu_one", "cu_two", "cu_multi"):
            m = random_matrix(int(np.prod([c.dimensions[x] for x in lines])), params)
            h = getattr(c, kind)(t, m, *([cd] if kind == "cu_one" else []))
        elif kind in ("x", "z", "h", "s"):
            h = getattr(c, kind)(t, cd)
        elif kind in ("csum", "cx0"):
            h = getattr(c, kind[:4] if kind == "csum" else "cx")(t)
        elif kind in ("r", "rz", "rh", "virtrz", "noisex", "noisey"):
            h = getattr(c, kind)(t, list(params), cd)
        else:
            h = getattr(c, kind)(t, list(params))
        if g.get("dag"):
            h.dag()
    return c


def same_params(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return len(a) == len(b) and all(type(x) is type(y) and x == y for x, y in zip(a, b))


def compare(c, d):
    expect(c.num_qudits == d.num_qudits and list(c.dimensions) == list(d.dimensions), f"dimensions {d.dimensions} instead of {c.dimensions}")
    expect([(r.label, r.size, list(r.dimensions)) for r in c.quantum_registers] == [(r.label, r.size, list(r.dimensions)) for r in d.quantum_registers], "registers differ")
    expect(dict(c.sitemap) == dict(d.sitemap) and dict(c.inverse_sitemap) == dict(d.inverse_sitemap), "sitemap differs")
    expect(len(c.instructions) == len(d.instructions) == d.number_gates == c.number_gates, f"{len(d.instructions)} gates ({d.number_gates}) instead of {len(c.instructions)}")
    size = int(np.prod(c.dimensions))
    for k, (g, h) in enumerate(zip(c.instructions, d.instructions)):
        w = f"gate {k} ({g.qasm_tag})"
        expect(type(g) is type(h) and g.qasm_tag == h.qasm_tag, f"{w} read as {h.qasm_tag}")
        expect(g.target_qudits == h.target_qudits, f"{w}: lines {h.target_qudits} instead of {g.target_qudits}")
        expect(same_params(g._params, h._params), f"{w}: parameters {h._params} instead of {g._params}")
        x, y = g.control_info["controls"], h.control_info["controls"]
        expect((x is None) == (y is None), f"{w}: controls {y} instead of {x}")
        if x is not None:
            expect(list(x.indices) == list(y.indices) and list(x.ctrl_states) == list(y.ctrl_states), f"{w}: controls {y} instead of {x}")
        expect(g.gate_type == h.gate_type and g.is_long_range == h.is_long_range, f"{w}: kind or long-range flag")
        if size <= 150:
            expect(np.allclose(g.to_matrix(2), h.to_matrix(2), atol=1e-9), f"{w}: matrix differs")


LAYOUT = {
    "plain": lambda L: L,
    "blank lines": lambda L: [x for l in L for x in ("", l, "   ")],
    "indented": lambda L: ["\t  " + l + "  " for l in L],
    "line comments": lambda L: [x for l in L for x in ("// x q[0];", l, "//z q[0]; /* h q[0];")],
    "comments after the statement": lambda L: [l + " // h q[0]; /* x" for l in L],
    "block comment on one line": lambda L: [x for l in L for x in ("/* x q[0]; */", l)],
    "block comment over lines": lambda L: [x for l in L for x in ("/* x q[0];", "x q[0];", "// */", l)],
    "block comment text around": lambda L: [x for l in L for x in ("/*", "x q[0];", "*/", l, "/* a", " b */", "/**/", "/***/")],
    "block comment before the statement": lambda L: ["/* z q[0]; */ " + l for l in L],
    "block comment after the statement": lambda L: [l + " /* x q[0];\n h q[0]; */" for l in L],
    "include and barrier": lambda L: [L[0], 'include "qelib1.inc";', *[x for l in L[1:] for x in (l, "barrier q[0];")]],
    "one line": lambda L: [" ".join(L)],
    "no space between the statements": lambda L: ["".join(L)],
    "wide spaces": lambda L: [l.replace(" ", "   ").replace(",", ",  ") if not l.startswith("qreg") else l for l in L],
    "narrow": lambda L: [l.replace(", ", ",") for l in L],
    "windows line ends": lambda L: [l + "\r" for l in L],
    "no trailing measures": lambda L: [l for l in L if not l.startswith("measure")],
    "measures first": lambda L: [*[l for l in L if l.startswith(("DIT", "qreg", "creg", "measure"))], *[l for l in L if not l.startswith(("DIT", "qreg", "creg", "measure"))]],
}


@case("qasm")
def qasm(regs, gates, layout="plain", file=False, twice=False, **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    c = build(regs, gates)
    d = QuantumCircuit()
    if twice:
        d = build([("old", [2, 5])], [dict(kind="x", lines=[1])])
        d.set_mapping([[0, 1], [0, 1]])
    custom = any(g["kind"].startswith("cu_") for g in gates)
    if file or custom:
        with tempfile.TemporaryDirectory() as t:
            f = c.save_to_file("circuit", t)
            expect(c.path_save is None, "path_save is left set")
            d.load_from_file(f)
    else:
        text = c.to_qasm()
        lines = [l for l in text.split("\n") if l]
        d.from_qasm("\n".join(LAYOUT[layout](lines)) + "\n")
        if layout == "plain":
            expect(d.to_qasm() == text or len(c.quantum_registers) == 0, "the text changes in a second round trip")
    compare(c, d)
    if twice:
        expect(d.mappings is None, "mappings of the earlier program")


@case("qasm_single")
def qasm_single(gate, q, ctl, d0, d1, d2, **kw):
    dims = [d0, d1, d2]
    if gate == "s":
        dims = [3, 5, 2]
    if gate == "pm":
        dims = [3, 3, 3]
    if max(dims) > 60:
        return
    a, b, th, ph = (kw.get(x) for x in ("a", "b", "theta", "phi"))
    params = {"r": [a, b, th, ph], "rz": [a, b, ph], "rh": [a, b], "noisex": [a, b], "noisey": [a, b], "virtrz": [a, ph], "pm": [1, 2, 0]}.get(gate)
    if params is not None and any(p is None for p in params):
        return
    params = params and [float(p) if gate in ("r", "rz", "virtrz") and i >= (1 if gate == "virtrz" else 2) else p for i, p in enumerate(params)]
    qasm([("q", dims[:2]), ("anc_1", dims[2:])], [dict(kind=gate, lines=[q], params=params, ctl=[ctl, [kw.get(f"l_{x}", 0) for x in ctl]] if ctl else None)])


@case("qasm_two")
def qasm_two(gate, lines, d0, d1, d2, **kw):
    if max(d0, d1, d2) > 60:
        return
    params = {"cx": [kw.get("a"), kw.get("b"), kw.get("k"), kw.get("phi")], "ls": [kw.get("theta")], "ms": [kw.get("theta")]}.get(gate)
    if params is not None and any(p is None for p in params):
        return
    if params:
        params[-1] = float(params[-1])
    qasm([("q", [d0, d1]), ("anc_1", [d2])], [dict(kind=gate, lines=lines, params=params)])


@case("qasm_custom")
def qasm_custom(gate, **kw):
    lines = {"cu_one": [[0], [2]], "cu_two": [[0, 1], [2, 0]], "cu_multi": [[0, 1, 2], [2, 0, 1]]}[gate]
    for ls in lines:
        for ctl in ([None, [[1], [1]]] if gate == "cu_one" else [None]):
            qasm([("q", [3, 2]), ("anc_1", [4])], [dict(kind=gate, lines=ls, params=5, ctl=ctl)])


@case("qasm_classic")
def qasm_classic(cregs, spaced=0, layout="plain", **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.quantum_circuit.components.classic_register import ClassicRegister
    decl = [ClassicRegister(x, k).__qasm__() if spaced else f"creg {x}[{k}];" for x, k in cregs]
    text = "\n".join(LAYOUT[layout](["DITQASM 2.0;", "qreg q [2][3,4];", *decl, "x q[1];"])) + "\n"
    lines = [(x, i) for x, k in cregs for i in range(k)]
    c = QuantumCircuit()
    for _ in range(2):
        c.from_qasm(text)
        expect([(r.label, r.size) for r in c.classic_registers] == [(x, k) for x, k in cregs], f"classical registers {[(r.label, r.size) for r in c.classic_registers]} instead of {cregs}")
        expect(c.num_cl == len(lines) and c.classic_site_map == {x: (i,) for i, x in enumerate(lines)} and c.cl_inverse_sitemap == dict(enumerate(lines)), f"lines of the classical registers: {c.classic_site_map}")
        expect([r[i] for r in c.classic_registers for i in range(r.size)] == list(range(len(lines))), "lines of the entries")
        expect(len(c.quantum_registers) == 1 and c.dimensions == [3, 4] and len(c.instructions) == 1, "the rest of the program")


@case("qasm_layout")
def qasm_layout(layout, **kw):
    qasm([("q", [3, 4]), ("r", [3])], [dict(kind="r", lines=[1], params=[0, 2, 0.3, -1e-7], ctl=[[2, 0], [1, 2]]), dict(kind="cx", lines=[2, 0], params=[0, 2, 1, 0.5]), dict(kind="h", lines=[0]),
                                      dict(kind="virtrz", lines=[2], params=[1, -2.5])], layout)


@finding("C05", "qasm-dagger")
def dagger():
    from mqt.qudits.quantum_circuit import QuantumCircuit
    c = QuantumCircuit(1, [3], 0)
    c.z(0).dag()
    d = QuantumCircuit()
    d.from_qasm(c.to_qasm())
    return len(d.instructions) != 1 or not np.allclose(c.instructions[0].to_matrix(2), d.instructions[0].to_matrix(2))


NAMES = ["q", "qq", "a", "anc_1", "reg2", "Q", "ctlreg", "x", "pi", "meas_in", "_z", "q0"]


def float_(r):
    return r.choice([rand_angle(r), r.uniform(-1, 1) * 10 ** r.randint(-12, 3), float(r.randint(-6, 6)), 1e-300, math.pi / r.randint(1, 9)])


def random_gate(r, dims):
    n = len(dims)
    kind = r.choice(["x", "z", "h", "r", "rz", "rh", "virtrz", "noisex", "noisey", "s", "pm", "csum", "cx0", "cx", "ls", "ms", "cu_one", "cu_two", "cu_multi"])
    q = r.randrange(n)
    d = dims[q]
    if kind in ("csum", "cx0", "cx", "ls", "ms", "cu_two"):
        if n < 2:
            return None
        ls = r.sample(range(n), 2)
        if kind == "cx":
            a, b = sorted(r.sample(range(dims[ls[1]]), 2))
            return dict(kind=kind, lines=ls, params=[a, b, r.randrange(dims[ls[0]]), r.choice([0.0, 2 * math.pi, r.uniform(0, 6.28), 1e-9])])
        if kind in ("ls", "ms"):
            return dict(kind=kind, lines=ls, params=[r.choice([0.0, 1e-8, r.uniform(0, 6.28)])])
        return dict(kind=kind, lines=ls, params=r.randrange(1000)) if kind == "cu_two" else dict(kind=kind, lines=ls)
    if kind == "cu_multi":
        if n < 3 or np.prod(dims) > 60:
            return None
        return dict(kind=kind, lines=r.sample(range(n), 3), params=r.randrange(1000))
    if kind == "s" and d not in (2, 3, 5, 7):
        return None
    a, b = r.sample(range(d), 2)
    params = {"r": [a, b, float_(r), float_(r)], "rz": [a, b, float_(r)], "rh": [a, b], "noisex": [a, b], "noisey": [a, b], "virtrz": [a, float_(r)],
              "pm": r.sample(range(d), d), "cu_one": r.randrange(1000)}.get(kind)
    ctl = None
    if kind != "pm" and n > 1 and r.random() < 0.35:
        cs = r.sample([x for x in range(n) if x != q], r.randint(1, min(3, n - 1)))
        ctl = [cs, [r.randrange(dims[x]) for x in cs]]
    return dict(kind=kind, lines=[q], params=params, ctl=ctl)


@gen("C05")
def g(r, budget):
    while True:
        names = r.sample(NAMES, r.randint(1, 3))
        regs = [(m, [r.choice([2, 3, 4, 5, 7, 11, 13]) for _ in range(r.randint(1, 3))]) for m in names]
        dims = [d for _, ds in regs for d in ds]
        if r.random() < 0.05:
            regs = [("big", [2] * 12)]
            dims = [2] * 12
        gates = [x for x in (random_gate(r, dims) for _ in range(r.randint(0, 6))) if x]
        small = [x for x in gates if not x["kind"].startswith("cu_")]
        if len(dims) == 12:
            gates = small
        if gates != small and r.random() < 0.5:
            yield "qasm", dict(regs=regs, gates=gates, file=True, twice=r.random() < 0.3)
        yield "qasm", dict(regs=regs, gates=small, layout=r.choice(list(LAYOUT)), twice=r.random() < 0.3)
        if r.random() < 0.2:
            yield "qasm_classic", dict(cregs=[[m, r.randint(1, 12)] for m in r.sample([x for x in NAMES if x != "q"], r.randint(1, 4))], spaced=r.randrange(2), layout=r.choice(list(LAYOUT)))
