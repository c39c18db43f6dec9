"""C15: propagation and removal of phase gates.  propagate_z is proved for arbitrary angles of the gates and, with one phase gate per level in front,
for an arbitrary phase on every level: the step of the induction over the line.  The selection of the gates is checked over words of gates."""
from __future__ import annotations

import itertools

import numpy as np

from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import FakeCircuit, ob
from pyvc.builtins_ import fl
from pyvc.num import Num

from . import spec
from .c16 import regulators

P = "C15"
F = "compiler/onedit/local_phases_transpilation/propagate_virtrz.py:ZPropagationOptPass."
RF = "compiler/onedit/local_phases_transpilation/remove_phase_rotations.py:ZRemovalOptPass."


def mod():
    return loader.load("compiler.onedit.local_phases_transpilation.propagate_virtrz")


def gates():
    return loader.load("quantum_circuit.gates")


def matrix(g):
    """the gate by its contract (C01, C02): the formula at its levels and angles"""
    G = gates()
    d = g.dimensions
    if isinstance(g, G.R):
        f = spec.r(d, g.lev_a, g.lev_b, Num.lift(g.theta), Num.lift(g.phi))
    elif isinstance(g, G.VirtRz):
        f = spec.virtrz(d, g.lev_a, Num.lift(g.phi))
    else:
        raise AssertionError(type(g))
    m = np.array([[Num.lift(f(i, j)) for j in range(d)] for i in range(d)], dtype=object)
    return np.array([[m[j, i].conjugate() for j in range(d)] for i in range(d)], dtype=object) if g.dagger else m


def product(seq, d):
    m = np.array([[N.ONE if i == j else N.ZERO for j in range(d)] for i in range(d)], dtype=object)
    for g in seq:
        a = matrix(g)
        m = np.array([[sum((a[i, k] * m[k, j] for k in range(d) if not a[i, k].is_zero()), N.ZERO) for j in range(d)] for i in range(d)], dtype=object)
    return m


def angle(vc, name):
    return fl(vc.angle(name))


def prop(vc, d, kinds, back, qudit=0):
    """kinds: list of ("v", level, dagger) and ("r", a, b, dagger)"""
    m = mod()
    G = gates()
    regs = regulators()
    old = m.pi_mod

    def pi_mod(a):
        k = vc.int("turns")
        return fl(Num.lift(a) + 2 * N.PI * k)
    m.pi_mod = pi_mod
    try:
        c = FakeCircuit([2] * qudit + [d])
        line, desc = [], []
        for i, k in enumerate(kinds):
            if k[0] == "v":
                a = angle(vc, f"v{i}_")
                g = G.VirtRz(c, "V", qudit, [k[1], a], d)
                desc.append(["v", k[1], a, k[2]])
            else:
                t, p = angle(vc, f"t{i}_"), angle(vc, f"f{i}_")
                g = G.R(c, "R", qudit, [k[1], k[2], t, p], d)
                desc.append(["r", k[1], k[2], t, p, k[3]])
            if k[-1]:
                g.dag()
            line.append(g)
        C.ctx().inputs.update({"d": d, "line": desc, "back": back})
        orig = list(line)
        rots, zs = m.ZPropagationOptPass.propagate_z(c, list(line), back)
        vc.ensure(all(isinstance(g, G.R) for g in rots) and len(rots) == sum(k[0] == "r" for k in kinds), "one rotation per rotation")
        vc.ensure(all(isinstance(g, G.VirtRz) for g in zs) and len(zs) == d, "one phase gate per level")
        for g in [*rots, *zs]:
            vc.ensure(g.target_qudits == qudit and g.control_info["controls"] is None and g.parent_circuit is c, "on the qudit of the line, without controls")
        new = zs + rots if back else rots + zs
        x, y = product(orig, d), product(new, d)
        for i in range(d):
            for j in range(d):
                vc.ensure_eq(y[i, j], x[i, j], "the product of the line")
    finally:
        m.pi_mod = old
        for x, f in regs:
            x.regulate_theta = f


for d, tier in ((2, "quick"), (3, "quick"), (4, "quick"), (5, "quick"), (6, "quick")):
    pairs = list(itertools.permutations(range(d), 2))
    for back in (True, False):
        for a, b in pairs:
            @ob(P, f"propagate_z.step.{d}.{back}.{(a, b)}", [F + "propagate_z"], bound=f"dimension {d}; arbitrary phase on every level before a rotation with arbitrary angles, the step of the induction over the line",
                case="line", tier=tier, budget=120)
            def step(vc, d=d, a=a, b=b, back=back):
                dag = bool(vc.choose("dagger", 2))
                vs = [("v", lev, lev == 0) for lev in range(d)]
                prop(vc, d, vs + [("r", a, b, dag)] if not back else [("r", a, b, dag), *vs], back)

        @ob(P, f"propagate_z.two.{d}.{back}", [F + "propagate_z"], bound=f"dimension {d}; two rotations on shared levels with phase gates between", case="line", tier=tier, budget=200)
        def two(vc, d=d, back=back):
            lev = vc.choose("level", d)
            prop(vc, d, [("r", 0, 1, False), ("v", lev, False), ("r", 0, d - 1, True), ("v", 0, True)], back, qudit=1)

        @ob(P, f"propagate_z.phases.{d}.{back}", [F + "propagate_z"], bound=f"dimension {d}; phase gates only", case="line", tier=tier)
        def phases(vc, d=d, back=back):
            prop(vc, d, [("v", 0, False), ("v", d - 1, True), ("v", 0, True)], back)


# ------------------------------------------------------------------ which gates are replaced

KINDS = ["R0", "V0", "V1", "cR0", "cV0", "H0", "CX01", "R1", "Rz0"]


def build(word, n=2):
    qc = loader.load("quantum_circuit.circuit").QuantumCircuit
    CD = loader.load("quantum_circuit.components.extensions.controls").ControlData
    c = qc(n, [3] * n, 0)
    for i, k in enumerate(word):
        q = int(k[-1])
        ctl = CD([1 - q], [1]) if k[0] == "c" else None
        a = 0.3 + 0.1 * i
        if k[-2] == "V":
            g = c.virtrz(q, [1, a], ctl)
        elif k[-2] == "R":
            g = c.r(q, [0, 1, a, 0.2], ctl)
        elif k[-2] == "H":
            g = c.h(q)
        elif k[-3:-1] == "Rz":
            g = c.rz(q, [0, 1, a], ctl)
        elif k[-2] == "Z":
            g = c.z(q, ctl)
        elif k[-2] == "T":        # on three lines
            g = c.x(q).control([x for x in range(3) if x != q], [1, 1])
        elif k.startswith("CS"):
            g = c.csum([int(k[-2]), q])
        else:
            g = c.cx([int(k[-2]), q])
        g.tag = i
    return c


class Mark:
    def __init__(self, which, tags, line):
        self.which, self.tags, self.line = which, tags, line


def tags(seq):
    return [g.tag for g in seq]


for back in (True, False):
    for length, tier in ((4, "quick"), (5, "thorough")):
        @ob(P, f"remove_z.{back}.{length}", [F + "remove_z", F + "transpile", F + "find_intervals_with_same_target_qudits", F + "is_propagating"],
            bound=f"circuits of at most {length} gates out of nine kinds on two lines; propagate_z by its contract", case="pass", tier=tier, budget=300)
        def remove_z(vc, back=back, length=length):
            m = mod()

            class Pass(m.ZPropagationOptPass):
                @staticmethod
                def propagate_z(circuit, line, bk):
                    if len(line) == 0:
                        raise IndexError
                    vc.ensure(bk == back, "the direction is passed on")
                    ts = tags(line)
                    qs = {g.target_qudits for g in line}
                    G = gates()
                    vc.ensure(len(qs) == 1 and all(isinstance(g, (G.R, G.VirtRz)) and g.control_info["controls"] is None for g in line),
                              "precondition of propagate_z: R and VirtRz gates on one qudit without controls")
                    return [Mark("rot", ts, qs)], [Mark("phase", ts, qs)]
            for k in range(length + 1):
                for w in itertools.product(KINDS, repeat=k):
                    c = build(w)
                    C.ctx().inputs.update({"word": list(w), "back": back})
                    before = list(c.instructions)
                    t = Pass(None, back).transpile(c) if back else Pass(None, False).transpile(c)
                    vc.ensure(t is not c and len(c.instructions) == k and all(x is y for x, y in zip(c.instructions, before)) and tags(c.instructions) == list(range(k)),
                              "the input circuit is not modified")
                    vc.ensure(t.number_gates == len(t.instructions), "the gate count")
                    out, i = [], 0
                    while i < len(t.instructions):
                        g = t.instructions[i]
                        if not isinstance(g, Mark):
                            out.append(g.tag)
                            i += 1
                            continue
                        h = t.instructions[i + 1] if i + 1 < len(t.instructions) else None
                        ok = isinstance(h, Mark) and h.tags == g.tags and [g.which, h.which] == (["phase", "rot"] if back else ["rot", "phase"])
                        vc.ensure(ok, "rotations and phases of a line stand together, the phases at the right end")
                        out += g.tags
                        i += 2
                    # a line may be propagated over gates on other lines only: compare the order of dependent gates
                    vc.ensure(sorted(out) == list(range(k)), "every gate once")
                    lines = [set(g.reference_lines) for g in before]
                    pos = {x: p for p, x in enumerate(out)}
                    for x, y in itertools.combinations(range(k), 2):
                        if lines[x] & lines[y]:
                            vc.ensure(pos[x] < pos[y], "gates on a common line keep their order")


RKINDS = ["V0", "Z1", "R0", "cV0", "cZ1", "CX01", "CS10", "Rz2", "T1", "H2"]
for length, tier in ((4, "quick"), (5, "thorough")):
    for what in ("remove_initial_rz", "remove_trailing_rz_sequence", "transpile"):
        @ob(P, f"{what}.{length}", [RF + what, RF + "remove_rz_gates"], bound=f"circuits of at most {length} gates out of ten kinds on three lines", case="removal", tier=tier, budget=300)
        def removal(vc, what=what, length=length):
            m = loader.load("compiler.onedit.local_phases_transpilation.remove_phase_rotations")
            for k in range(length + 1):
                for w in itertools.product(RKINDS, repeat=k):
                    c = build(w, 3)
                    C.ctx().inputs.update({"word": list(w), "what": what})
                    before = list(c.instructions)
                    t = getattr(m.ZRemovalOptPass(None), what)(c)
                    vc.ensure(t is not c and len(c.instructions) == k and all(x is y for x, y in zip(c.instructions, before)), "the input circuit is not modified")
                    left = tags(t.instructions)
                    vc.ensure(t.number_gates == len(left) and left == sorted(set(left)), "the gates left are in order, counted and not doubled")
                    for g, h in zip(t.instructions, [before[x] for x in left]):
                        vc.ensure(type(g).__name__ == type(h).__name__ and g.target_qudits == h.target_qudits and g._params == h._params and g.dagger == h.dagger
                                  and (g._controls_data is None) == (h._controls_data is None), "the gates left are unchanged")
                    for x in range(k):
                        if x in left:
                            continue
                        vc.ensure(w[x] in ("V0", "Z1", "Rz2"), "only phase gates without controls are removed")
                        q = before[x].target_qudits
                        first = all(y not in left for y in range(x) if q in before[y].reference_lines)
                        last = all(y not in left for y in range(x + 1, k) if q in before[y].reference_lines)
                        ok = {"remove_initial_rz": first, "remove_trailing_rz_sequence": last, "transpile": first or last}[what]
                        vc.ensure(ok, "a removed phase gate is at the start or at the end of its line")
