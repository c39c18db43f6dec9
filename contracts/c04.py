"""C04: adding controls, for any number of lines, any dimensions, any lines and levels (lists of up to three controls)."""
from __future__ import annotations

import itertools

from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import FakeCircuit, ob
from pyvc.builtins_ import SymSeq
from pyvc.num import Num, Unsupported

from .c03 import mods

P = "C04"
G = "quantum_circuit/gate.py:Gate."
FUNCS = [G + "control", G + "reference_lines", G + "get_control_lines", G + "check_long_range", G + "control_info", G + "set_gate_type_two", G + "set_gate_type_multi"]


def circuit(vc):
    """a circuit with any number of lines; the dimension of a line is an uninterpreted function >= 2"""
    n = vc.int("n", 1)

    def dim(i):
        v = Num.opaque("dim", C.ctx().norm(Num.lift(i)), kind="int")
        C.ctx().add(C.zreal(v) >= 2)
        return v
    c = FakeCircuit([])
    c.dimensions = c._dimensions = SymSeq(n, dim)
    c.num_qudits = n
    return c, n, dim


def gate(circ, target, dim, ctl=None):
    gm, GT, CD = mods()

    class Any(gm.Gate):
        def __array__(self):
            raise Unsupported("the matrix of the gate is not read by the bookkeeping")
    return Any(circ, "any", GT.SINGLE, target, dim, control_set=ctl)


def line(vc, name, n):
    t = vc.int(name, 0)
    vc.assume(t < n)
    return t


def long_range(vc, lines):
    """some two neighbouring lines of the gate are not adjacent: the lines do not fill the range they span"""
    k = len(lines)
    if k == 1:
        return False
    hi = lo = lines[0]
    for x in lines[1:]:
        hi = x if bool(x > hi) else hi
        lo = x if bool(x < lo) else lo
    return not bool(hi - lo == k - 1)


def same(vc, a, b):
    return len(a) == len(b) and all(bool(Num.lift(x) == Num.lift(y)) for x, y in zip(a, b))


def body(vc, k, m, aslist, ctor):
    circ, n, dim = circuit(vc)
    t = line(vc, "t", n)
    gm, GT, CD = mods()
    idx = [vc.int(f"c{i}") for i in range(k)]
    lev = [vc.int(f"l{i}") for i in range(m)]
    C.ctx().inputs["k"], C.ctx().inputs["m"], C.ctx().inputs["aslist"] = k, m, aslist
    target = [t] if aslist else t
    g = None
    try:
        if ctor:
            g = gate(circ, target, dim(t), CD(list(idx), list(lev)))
        else:
            g = gate(circ, target, dim(t))
            vc.ensure(g.get_control_lines == [] and g.gate_type == GT.SINGLE and g.is_long_range is False, "a gate without controls")
            before = dict(vars(g))
            r = g.control(list(idx), list(lev))
            vc.ensure(r is g, "control returns the gate")
        ok = True
    except (IndexError, AssertionError, ValueError) as e:
        ok = False
    valid = k == m
    if valid:
        for i in range(k):
            if not (bool(idx[i] >= 0) and bool(idx[i] < n) and bool(idx[i] != t)):
                valid = False
                break
            if not (bool(lev[i] >= 0) and bool(lev[i] < dim(idx[i]))) or any(bool(idx[i] == idx[j]) for j in range(i)):
                valid = False
                break
    vc.ensure(ok == valid, "accepted exactly when every control line exists, is not the target, is not repeated and its level fits its dimension")
    if ok:
        vc.ensure(same(vc, g.get_control_lines, idx) and same(vc, g._controls_data.ctrl_states, lev), "controls are stored as given")
        vc.ensure(g.control_info["controls"] is g._controls_data, "control_info")
        lines = g.reference_lines
        vc.ensure(len(lines) == k + 1, "reported lines: number")
        want = [*idx, t]
        vc.ensure(all(any(bool(a == b) for b in lines) for a in want), "reported lines are the controls and the target")
        vc.ensure(g.gate_type == (GT.TWO if k == 1 else GT.MULTI), "gate kind")
        vc.ensure(g.is_long_range == long_range(vc, want), "long-range flag")
        vc.ensure(g.target_qudits is target, "target unchanged")
    elif g is not None:
        vc.ensure(vars(g) == before, "a rejected request leaves the gate unchanged")
        vc.ensure(g.get_control_lines == [] and g.gate_type == GT.SINGLE and g.is_long_range is False, "a rejected request leaves the gate unchanged")


for k, m, aslist, ctor in [(1, 1, False, False), (1, 1, True, False), (2, 2, False, False), (2, 2, True, True), (1, 1, False, True), (3, 3, False, False),
                           (1, 2, False, False), (2, 1, False, False), (2, 3, False, False)]:
    @ob(P, f"control.{k} lines, {m} levels{', target list' if aslist else ''}{', constructor' if ctor else ''}", FUNCS + ([G + "__init__"] if ctor else []), case="control",
        budget=200 if k > 2 else 100)
    def control(vc, k=k, m=m, aslist=aslist, ctor=ctor):
        body(vc, k, m, aslist, ctor)


@ob(P, "control.empty", FUNCS, case="control_empty")
def empty(vc):
    circ, n, dim = circuit(vc)
    t = line(vc, "t", n)
    gm, GT, CD = mods()
    g = gate(circ, t, dim(t))
    before = dict(vars(g))
    vc.ensure(g.control([], []) is g, "no controls")
    vc.ensure(vars(g) == before, "no controls: nothing changes")


@ob(P, "control.twice", FUNCS, case="control_twice", budget=120)
def twice(vc):
    """a second request: the gate is not single any more, so it is rejected and changes nothing"""
    circ, n, dim = circuit(vc)
    t, c0, c1 = line(vc, "t", n), line(vc, "c0", n), line(vc, "c1", n)
    vc.assume(t != c0)
    l0 = vc.int("l0", 0)
    vc.assume(l0 < dim(c0))
    g = gate(circ, t, dim(t))
    g.control([c0], [l0])
    before, data = dict(vars(g)), (list(g._controls_data.indices), list(g._controls_data.ctrl_states))
    vc.ensure_raises((AssertionError, IndexError, ValueError), lambda: g.control([c1], [vc.int("l1")]), "second request rejected")
    vc.ensure(vars(g) == before and same(vc, g._controls_data.indices, data[0]) and same(vc, g._controls_data.ctrl_states, data[1]), "second request leaves the gate unchanged")


@ob(P, "control of gates on several lines", FUNCS, case="control_multi")
def multi(vc):
    circ, n, dim = circuit(vc)
    gm, GT, CD = mods()

    class Any(gm.Gate):
        def __array__(self):
            raise Unsupported("matrix")
    for kind, m in ((GT.TWO, 2), (GT.MULTI, 3)):
        ts = [line(vc, f"t{i}_", n) for i in range(m)]
        for i in range(m):
            for j in range(i):
                vc.assume(ts[i] != ts[j])
        g = Any(circ, "any", kind, list(ts), [dim(x) for x in ts])
        vc.ensure(g.is_long_range == long_range(vc, ts), "long-range flag of a gate on several lines")
        vc.ensure(same(vc, g.reference_lines, ts) and g.get_control_lines == [], "lines of a gate on several lines")
        before = dict(vars(g))
        c0, l0 = vc.int("c0"), vc.int("l0")
        vc.ensure_raises((AssertionError, IndexError, ValueError), lambda: g.control([c0], [l0]), "controls of gates on several lines are rejected")
        vc.ensure(vars(g) == before, "a rejected request leaves the gate unchanged")


@ob(P, "reference lines are a copy", FUNCS)
def alias(vc):
    """callers sort the reported lines: that must not reorder the gate's own lists"""
    circ, n, dim = circuit(vc)
    t, c0, c1 = line(vc, "t", n), line(vc, "c0", n), line(vc, "c1", n)
    vc.assume(t != c0)
    vc.assume(t != c1)
    vc.assume(c0 != c1)
    for target in (t, [t]):
        g = gate(circ, target, dim(t))
        g.control([c0, c1], [0, 1])
        r = g.reference_lines
        r.reverse()
        r.append(7)
        vc.ensure(same(vc, g.get_control_lines, [c0, c1]) and len(g.reference_lines) == 3, "reported lines are a copy")
        vc.ensure(g.target_qudits is target and (not isinstance(target, list) or len(target) == 1), "reported lines are a copy: target")
