"""C06 at run time: random histories of a circuit against a plain reference."""
from __future__ import annotations

import copy

from .base import case, expect, gen
from .c05 import build, random_gate, NAMES


def state(c, regs, gates, msg):
    dims = [d for _, ds in regs for d in ds]
    expect(list(c.dimensions) == dims, f"{msg}: dimensions {c.dimensions} instead of {dims}")
    expect(c.num_qudits == len(dims), f"{msg}: num_qudits {c.num_qudits} instead of {len(dims)}")
    expect([(r.label, r.size) for r in c.quantum_registers] == [(n, len(ds)) for n, ds in regs], f"{msg}: registers")
    k = 0
    want, inv = {}, {}
    for (name, ds), reg in zip(regs, c.quantum_registers):
        for i, d in enumerate(ds):
            want[name, i] = (k, d)
            inv[k] = (name, i)
            expect(reg[i] == k, f"{msg}: entry {i} of register {name} is on line {reg[i]} instead of {k}")
            k += 1
        expect(reg[0:len(ds)] == [want[name, i][0] for i in range(len(ds))], f"{msg}: slice of register {name}")
        expect(list(reg.dimensions) == list(ds), f"{msg}: dimensions of register {name}")
    expect(dict(c.sitemap) == want, f"{msg}: sitemap {c.sitemap}")
    expect(dict(c.inverse_sitemap) == inv, f"{msg}: inverse sitemap {c.inverse_sitemap}")
    expect(len(c.instructions) == len(gates) and all(a is b for a, b in zip(c.instructions, gates)), f"{msg}: instructions are not the program")
    expect(c.number_gates == len(gates), f"{msg}: number_gates {c.number_gates} instead of {len(gates)}")


@case("history")
def history(steps, **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    from mqt.qudits.quantum_circuit.components.classic_register import ClassicRegister
    c = QuantumCircuit()
    regs, gates, ncl = [], [], 0
    for s in steps:
        op = s[0]
        if op == "reg":
            r = QuantumRegister(s[1], len(s[2]), list(s[2]))
            if any(n == s[1] for n, _ in regs):
                try:
                    c.append(r)
                except Exception:  # noqa: BLE001
                    pass
                else:
                    expect(False, "a second register of the same label is accepted")
            else:
                c.append(r)
                regs.append((s[1], list(s[2])))
        elif op == "creg":
            if not any(k.label == s[1] for k in c.classic_registers):
                k = ClassicRegister(s[1], s[2])
                c.append_classic(k)
                expect([k[i] for i in range(s[2])] == list(range(ncl, ncl + s[2])), "classical lines")
                expect(all(c.classic_site_map[s[1], i] == (ncl + i,) for i in range(s[2])), "classical sitemap")
                ncl += s[2]
                expect(c.num_cl == ncl, "num_cl")
        elif op == "gate":
            before = len(gates)
            add_to(c, s[1])
            expect(len(c.instructions) == before + 1, f"adding one gate makes {len(c.instructions) - before}")
            g = c.instructions[-1]
            t = g.target_qudits
            expect(([t] if isinstance(t, int) else list(t)) == s[1]["lines"], f"gate on {t} instead of {s[1]['lines']}")
            ds = g._dimensions if isinstance(g._dimensions, list) else [g._dimensions]
            expect(list(ds) == [c.dimensions[q] for q in s[1]["lines"]], f"dimensions {ds} of a gate on {s[1]['lines']}")
            gates.append(g)
        elif op == "reset":
            c.set_mapping([[0]])
            c.reset()
            fresh = QuantumCircuit()
            for k, v in vars(fresh).items():
                expect(getattr(c, k) == v, f"reset leaves {k} = {getattr(c, k)}")
            regs, gates, ncl = [], [], 0
        elif op == "set":
            keep = [gates[i % len(gates)] for i in s[1]] if gates else []
            r = c.set_instructions(keep)
            expect(r is c, "set_instructions returns the circuit")
            keep_ = list(keep)
            keep.append(None)
            gates = keep_
        elif op == "replace" and gates:
            i = s[1] % len(gates)
            new = [gates[k % len(gates)] for k in s[2]]
            c.replace_gate(i - len(gates) if s[3] else i, new)
            gates = gates[:i] + new + gates[i + 1:]
        elif op == "copy":
            d = c.copy()
            n = len(d.instructions)
            expect(list(d.dimensions) == list(c.dimensions) and n == len(gates) and d.number_gates == n and all(type(a) is type(b) for a, b in zip(d.instructions, gates)), "copy differs")
            d.append(QuantumRegister("copyreg", 1, [3]))
            d.x(d.num_qudits - 1)
            d.reset()
        state(c, regs, gates, f"after {op}")


def add_to(c, g):
    from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
    from .c03 import random_matrix
    import numpy as np
    kind, lines, params, ctl = g["kind"], g["lines"], g.get("params"), g.get("ctl")
    cd = ControlData(list(ctl[0]), list(ctl[1])) if ctl else None
    t = lines[0] if len(lines) == 1 else list(lines)
    if kind in ("cu_one", "cu_two", "cu_multi"):
        m = random_matrix(int(np.prod([c.dimensions[x] for x in lines])), params)
        return getattr(c, kind)(t, m, *([cd] if kind == "cu_one" else []))
    if kind in ("x", "z", "h", "s"):
        return getattr(c, kind)(t, cd)
    if kind in ("csum", "cx0"):
        return getattr(c, "csum" if kind == "csum" else "cx")(t)
    if kind in ("r", "rz", "rh", "virtrz", "noisex", "noisey"):
        return getattr(c, kind)(t, list(params), cd)
    return getattr(c, kind)(t, list(params))


@case("registers")
def registers(regs, **_):
    history([["reg", "old", [3, 2]]] + [["reg", n, d] for n, d in regs])


@case("labels")
def labels(**_):
    history([["reg", "q", [2, 3]], ["reg", "q", [4]], ["reg", "r", [5]]])


@case("gates")
def gates(d0, d1, **_):
    if max(d0, d1) > 30:
        return
    import random
    r = random.Random(3)
    dims = [d0, d1, 2]
    seen = [g for g in (random_gate(r, dims) for _ in range(200)) if g]
    history([["reg", "q", dims]] + [["gate", g] for g in seen])


@case("replace")
def replace(**_):
    g = [dict(kind="x", lines=[0]), dict(kind="z", lines=[0]), dict(kind="h", lines=[0]), dict(kind="x", lines=[0])]
    for n in range(1, 5):
        for i in range(n):
            for neg in (False, True):
                for m in range(4):
                    history([["reg", "q", [3]]] + [["gate", x] for x in g[:n]] + [["replace", i, list(range(m)), neg], ["set", list(range(m))]])


@case("reset")
def reset(**_):
    history([["reg", "a", [2, 3, 4]], ["creg", "m", 2], ["gate", dict(kind="h", lines=[0])], ["gate", dict(kind="csum", lines=[0, 2])], ["reset"], ["reg", "b", [5]], ["gate", dict(kind="x", lines=[0])]])


@gen("C06")
def g(r, budget):
    for name in ("labels", "replace", "reset"):
        yield name, {}
    while True:
        steps, dims = [], []
        for _ in range(r.randint(1, 14)):
            op = r.choice(["reg", "reg", "gate", "gate", "gate", "gate", "reset", "set", "replace", "copy", "creg"])
            if op == "reg" or not dims:
                name = r.choice(NAMES)
                ds = [r.randint(2, 6) for _ in range(r.randint(1, 3))]
                if len(dims) + len(ds) > 7:
                    continue
                if not any(s[0] == "reg" and s[1] == name for s in steps[max([i for i, s in enumerate(steps) if s[0] == "reset"], default=-1) + 1:]):
                    dims += ds
                steps.append(["reg", name, ds])
            elif op == "gate":
                x = random_gate(r, dims)
                if x:
                    steps.append(["gate", x])
            elif op == "reset":
                if r.random() < 0.5:
                    steps.append(["reset"])
                    dims = []
            elif op == "set":
                steps.append(["set", [r.randrange(9) for _ in range(r.randint(0, 4))]])
            elif op == "replace":
                steps.append(["replace", r.randrange(9), [r.randrange(9) for _ in range(r.randint(0, 3))], r.random() < 0.5])
            elif op == "creg":
                steps.append(["creg", r.choice("mnop"), r.randint(1, 3)])
            else:
                steps.append(["copy"])
        yield "history", dict(steps=steps)
