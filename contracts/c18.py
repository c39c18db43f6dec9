"""C18: noise models.  The outcome of every draw of the random generator is arbitrary (all are explored) and every probability is an arbitrary
number in [0, 1]; on every path the inserted gates must be declared, on declared lines, with the declared probability."""
from __future__ import annotations

import contextlib
import itertools

from contracts import dd
from oracle import noise_ref as ref
from pyvc import core as C
from pyvc import cxx, loader
from pyvc import num as N
from pyvc.api import ob
from pyvc.num import Num, Unsupported

P = "C18"
FF = "simulation/noise_tools/noisy_circuit_factory.py:NoisyCircuitFactory."
NF = "simulation/noise_tools/noise.py:"
ADD = {"local": "add_quantum_error_locally", "all": "add_all_qudit_quantum_error", "nonlocal": "add_nonlocal_quantum_error",
       "target": "add_nonlocal_quantum_error_on_target", "control": "add_nonlocal_quantum_error_on_control"}
FUN = [FF + "__init__", FF + "generate_circuit", FF + "_apply_noise", FF + "_get_affected_qudits", FF + "_get_qudits_for_mode", FF + "_get_nonlocal_qudits", FF + "_get_control_qudits",
       FF + "_get_target_qudits", FF + "_validate_two_qudit_gate"]
DEPO, DEPH = FF + "_apply_depolarizing_noise", FF + "_apply_dephasing_noise"
DYN = [FF + "_dynamic_subspace_noise_info_rectification", FF + "_needs_correction"]


class Rng:
    """contract of numpy's Generator: choice returns one of the options; the probabilities must be a distribution"""

    def __init__(self, vc):
        self.vc, self.log, self.outs = vc, [], []

    def choice(self, options, size=None, replace=True, p=None):
        if size is not None:
            raise Unsupported("choice with a size")
        options = list(options)
        vc = self.vc
        if p is None:
            p = [Num.lift(1) / len(options)] * len(options)
        p = list(p)
        vc.ensure(len(p) == len(options), "one probability per option")
        tot = N.ZERO
        for x in p:
            tot = tot + Num.lift(x)
            vc.ensure(Num.lift(x) >= 0, "probabilities are not negative")
        vc.ensure_eq(tot, 1, "probabilities sum to one")
        k = vc.choose("outcome", len(options))
        self.outs.append(k)
        C.ctx().inputs["outs"] = list(self.outs)
        self.log.append(p[k])
        return options[k]

    def __getattr__(self, n):
        raise Unsupported("random generator: " + n)


def build(vc, dims, gates):
    qc = loader.load("quantum_circuit")
    cd = loader.load("quantum_circuit.components.extensions.controls").ControlData
    c = qc.QuantumCircuit(qc.QuantumRegister("q", len(dims), list(dims)))
    for g in gates:
        t = g["lines"][0] if len(g["lines"]) == 1 else list(g["lines"])
        ctl = cd(list(g["ctl"][0]), list(g["ctl"][1])) if g.get("ctl") else None
        kind, ps = g["kind"], g.get("params")
        if kind in ("csum", "cx0"):
            h = c.csum(t) if kind == "csum" else c.cx(t)
        elif ps is None:
            h = getattr(c, kind)(t, ctl)
        else:
            h = getattr(c, kind)(t, list(ps), *([ctl] if ctl else []))
        if g.get("dag"):
            h.dag()
    return c


def factory(vc, c, m, rng):
    fm = loader.load("simulation.noise_tools.noisy_circuit_factory")
    np_ = fm.np
    old = np_.random
    import types
    np_.random = types.SimpleNamespace(default_rng=lambda *a, **k: rng)
    try:
        f = fm.NoisyCircuitFactory(m, c)
    finally:
        np_.random = old
    return f


def make_noise(noise):
    nm = loader.load("simulation.noise_tools.noise")
    if noise[0] == "math":
        return nm.Noise(noise[1], noise[2])
    if noise[0] == "dyn":
        return nm.SubspaceNoise(noise[1], noise[2], [])
    s = None
    for lv, p, q in noise[1]:
        if s is None:
            s = nm.SubspaceNoise(p, q, tuple(lv))
        else:
            s.add_noise(lv[0], lv[1], nm.Noise(p, q))
    return s


def make_model(model):
    m = loader.load("simulation.noise_tools.noise").NoiseModel()
    for tag, mode, noise in model:
        getattr(m, ADD[mode])(make_noise(noise), [tag])
    return m


def probs(vc, name):
    out = []
    for s in ("p", "q"):
        x = vc.real(name + s)
        vc.assume(x >= 0)
        vc.assume(x <= 1)
        out.append(x)
    return out


def fields(g):
    cs = g.control_info["controls"]
    return (type(g).__name__, repr(g.target_qudits), repr(g._params), bool(g.dagger), None if cs is None else (list(cs.indices), list(cs.ctrl_states)), g.qasm_tag)


def run(vc, dims, gates, model):
    c = build(vc, dims, gates)
    tags = [g.qasm_tag for g in c.instructions]
    C.ctx().inputs.update(dims=list(dims), gates=gates, model=[list(e) for e in model])
    m = make_model(model)
    rng = Rng(vc)
    f = factory(vc, c, m, rng)
    before, held = [fields(g) for g in c.instructions], len(c.instructions)
    for k, g in enumerate(c.instructions):
        g.vc_mark = k
    bad = None
    for g, t in zip(gates, tags):
        try:
            ref.slots(g, t, model, dims)
        except ref.Rejected as e:
            bad = e.exc
            break
    if bad is not None:
        vc.ensure_raises(bad, f.generate_circuit, "noise that does not fit the gate is an error")
        return
    nc = f.generate_circuit()
    vc.ensure([fields(g) for g in c.instructions] == before and len(c.instructions) == held == c.number_gates, "the circuit is unchanged")
    vc.ensure(list(nc.dimensions) == list(dims) and nc.num_qudits == len(dims) and nc.num_cl == c.num_cl, "same dimensions")
    vc.ensure(nc.number_gates == len(nc.instructions), "number of gates")
    slot, total = [], N.ONE
    k, parts = -1, []
    for g in nc.instructions:
        if hasattr(g, "vc_mark"):
            k += 1
            vc.ensure(g.vc_mark == k and fields(g) == before[k] and g is not c.instructions[k], "the gates of the circuit are carried over in order, as copies")
            parts.append([])
        else:
            vc.ensure(k >= 0, "no error in front of the circuit")
            parts[-1].append(g)
    vc.ensure(k == len(gates) - 1, "all gates of the circuit are carried over")
    weights = [[]]
    for g, t, gs in zip(gates, tags, parts):
        r = ref.readings([describe(x) for x in gs], ref.slots(g, t, model, dims))
        if not r:
            vc.fail("only declared errors are inserted", f"after {g}: {[(x.qasm_tag, x.target_qudits, x._params) for x in gs]}")
        weights = [a + b for a in weights for b in r]
    vc.ok("only declared errors are inserted")
    got = N.ONE
    for x in rng.log:
        got = got * Num.lift(x)
    if len(weights) == 1:
        want = N.ONE
        for x in weights[0]:
            want = want * Num.lift(x)
        vc.ensure_eq(got, want, "probability of the inserted errors")


def describe(gate):
    k = type(gate).__name__
    if k == "VirtRz":
        a = Num.lift(gate._params[1])
        if not (a - N.PI).is_zero() or gate.dagger or gate.get_control_lines:
            return None
        return "flip", gate.target_qudits, (gate._params[0],)
    return ref.describe(gate)


GATES = {
    "x": dict(kind="x", lines=[1]), "h dag": dict(kind="h", lines=[0], dag=True), "rxy": dict(kind="r", lines=[0], params=[1, 0, 0.5, 0.25]), "rz": dict(kind="rz", lines=[1], params=[0, 1, 0.5]),
    "rh": dict(kind="rh", lines=[0], params=[0, 1]), "virtrz": dict(kind="virtrz", lines=[1], params=[1, 0.5]), "csum": dict(kind="csum", lines=[1, 0]),
    "cx": dict(kind="cx", lines=[0, 1], params=[0, 1, 1, 0.5]), "cx default": dict(kind="cx0", lines=[1, 0]), "ms": dict(kind="ms", lines=[0, 1], params=[0.5]),
    "controlled x": dict(kind="x", lines=[0], ctl=[[1], [1]]), "controlled rxy": dict(kind="r", lines=[1], params=[0, 1, 0.5, 0.25], ctl=[[0], [0]]),
}
TAG = {"h dag": "h", "cx default": "cx", "controlled x": "x", "controlled rxy": "rxy"}
TWO = "two lines of dimension 2 and 3, every mode, every outcome; probabilities arbitrary"
for name in GATES:
    for kind in ("math", "sub", "dyn"):
        @ob(P, f"noise.{name}.{kind}", [*FUN, DEPO, DEPH, *(DYN if kind == "dyn" else [])], bound=TWO, case="noisy", budget=100)
        def noise(vc, name=name, kind=kind):
            mode = list(ADD)[vc.choose("mode", 5)]
            p, q = probs(vc, "")
            n = ("sub", [((1, 0), p, q)]) if kind == "sub" else (kind, p, q)
            run(vc, [2, 3], [GATES[name]], [(TAG.get(name, name), mode, n)])

for mode in ADD:
    @ob(P, f"two controls.{mode}", FUN, bound="three lines of dimension 2", case="noisy", budget=100)
    def two_controls(vc, mode=mode):
        p, q = probs(vc, "")
        run(vc, [2, 2, 2], [dict(kind="x", lines=[1], ctl=[[2, 0], [1, 0]])], [("x", mode, ("sub", [((0, 1), p, q)]))])

for d in (2, 3, 4, 5):
    @ob(P, f"depolarizing on dimension {d}", [*FUN[:3], DEPO], bound=f"dimension {d}; probability arbitrary", case="noisy", budget=100)
    def depo(vc, d=d):
        p, q = probs(vc, "")
        run(vc, [d], [dict(kind="h", lines=[0])], [("h", "local", ("math", p, q))])

for d, lv in [(d, (a, b)) for d in (2, 3, 4) for a in range(d + 1) for b in range(d + 1) if a != b]:
    @ob(P, f"subspace {lv} of dimension {d}", [*FUN[:3], DEPO, DEPH], bound=f"dimension {d}", case="noisy", budget=100)
    def sub(vc, d=d, lv=lv):
        p, q = probs(vc, "")
        run(vc, [d], [dict(kind="h", lines=[0])], [("h", "local", ("sub", [(lv, p, q)]))])

for d, (a, b) in [(4, (1, 3)), (4, (3, 0)), (3, (2, 1)), (5, (2, 4))]:
    for kind, ps in (("r", [a, b, 0.5, 0.25]), ("rz", [a, b, 0.5]), ("rh", [a, b]), ("h", None)):
        @ob(P, f"dynamic subspace.{kind} on levels {a} {b} of dimension {d}", [*FUN[:3], *DYN, DEPO, DEPH], bound=f"dimension {d}", case="noisy", budget=100)
        def dyn(vc, d=d, kind=kind, ps=ps):
            p, q = probs(vc, "")
            run(vc, [d], [dict(kind=kind, lines=[0], params=ps)], [({"r": "rxy"}.get(kind, kind), "local", ("dyn", p, q))])


@ob(P, "two subspaces with their own probabilities", [*FUN[:3], DEPO, DEPH], bound="dimension 3", case="noisy", budget=100)
def two_sub(vc):
    p, q = probs(vc, "a")
    r, s = probs(vc, "b")
    run(vc, [3], [dict(kind="h", lines=[0])], [("h", "local", ("sub", [((0, 1), p, q), ((2, 1), r, s)]))])


@ob(P, "several gates and several modes", FUN, bound="two lines of dimension 2 and 3, three gates", case="noisy", budget=200)
def several(vc):
    p, q = probs(vc, "a")
    r, s = probs(vc, "b")
    run(vc, [2, 3], [dict(kind="rh", lines=[1], params=[1, 2]), dict(kind="x", lines=[0]), dict(kind="csum", lines=[1, 0])],
        [("csum", "control", ("sub", [((0, 1), p, q)])), ("csum", "target", ("sub", [((0, 1), r, s)])), ("rh", "local", ("dyn", r, q))])


@ob(P, "gates without an entry get no noise", FUN[:3], bound="three gates", case="noisy")
def none(vc):
    p, q = probs(vc, "a")
    run(vc, [2, 3], [dict(kind="z", lines=[1]), dict(kind="rz", lines=[1], params=[0, 2, 0.5]), dict(kind="csum", lines=[1, 0])], [("x", "all", ("math", p, q))])
    run(vc, [2, 3], [dict(kind="z", lines=[1])], [])


@ob(P, "every run draws anew", [FF + "generate_circuit", FF + "reset_rng"], bound="one gate, two runs", case="noisy", budget=60)
def anew(vc):
    p, q = probs(vc, "")
    gates = [dict(kind="z", lines=[0])]
    C.ctx().inputs.update(dims=[2], gates=gates, model=[["z", "local", ["math", p, q]]])
    c = build(vc, [2], gates)
    rng = Rng(vc)
    f = factory(vc, c, make_model([("z", "local", ("math", p, q))]), rng)
    a = f.generate_circuit()
    n = len(rng.log)
    b = f.generate_circuit()
    vc.ensure(len(rng.log) == 2 * n and a is not b and a.instructions[0] is not b.instructions[0], "each noisy circuit has its own draws and gates")


PAIRS = [(-2, -1), (-1, -2), (-1, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 1)]


@ob(P, "SubspaceNoise.add_noise", [NF + "SubspaceNoise.__init__", NF + "SubspaceNoise.add_noise", NF + "SubspaceNoise.add_noises"], bound="level pairs from -2 to 2, three additions", case="model", budget=100)
def add_noise(vc):
    nm = loader.load("simulation.noise_tools.noise")
    want, steps = {}, []

    def add(lv, p, q):
        a, b = sorted(lv)
        if a == b or (a, b) in want or (a < 0 and want) or any(x < 0 and y < 0 for x, y in want):
            return False
        want[a, b] = (p, q)
        return True
    s = None
    for k in range(3):
        lv = PAIRS[vc.choose("lv", len(PAIRS))]
        p, q = vc.real(f"p{k}"), vc.real(f"q{k}")
        steps.append([list(lv), p, q])
        C.ctx().inputs["steps"] = list(steps)
        ok = add(lv, p, q)
        fresh = nm.Noise(p, q)

        def go():
            nonlocal s
            if s is None:
                s = nm.SubspaceNoise(p, q, lv)
            elif k == 1:
                s.add_noise(lv[0], lv[1], fresh)
            else:
                s.add_noises({lv: fresh})
        if not ok:
            vc.ensure_raises(ValueError, go, "equal levels, levels defined twice and mixtures with the dynamic subspace are rejected")
            if s is None:
                return
        else:
            go()
        vc.ensure(list(s.subspace_w_probs) == list(want), "the subspaces, levels ascending")
        for lvl, (x, y) in want.items():
            vc.ensure_eq(s.subspace_w_probs[lvl].probability_depolarizing, x, "depolarizing probability")
            vc.ensure_eq(s.subspace_w_probs[lvl].probability_dephasing, y, "dephasing probability")


@ob(P, "SubspaceNoise of a list of levels", [NF + "SubspaceNoise.__init__"], bound="lists of up to two pairs", case=None)
def levels_list(vc):
    nm = loader.load("simulation.noise_tools.noise")
    p, q = vc.real("p"), vc.real("q")
    for lv, want in ([], [(-2, -1)]), ([(1, 0)], [(0, 1)]), ([(0, 1), (3, 2)], [(0, 1), (2, 3)]):
        s = nm.SubspaceNoise(p, q, lv)
        vc.ensure(list(s.subspace_w_probs) == want, "one subspace per pair, the dynamic one for none")
        for x in s.subspace_w_probs.values():
            vc.ensure_eq(x.probability_depolarizing, p, "depolarizing probability")
            vc.ensure_eq(x.probability_dephasing, q, "dephasing probability")
        vc.ensure(len({id(x) for x in s.subspace_w_probs.values()}) == len(want), "each subspace has its own noise")


@ob(P, "NoiseModel.add", [NF + "NoiseModel._add_quantum_error", *[NF + "NoiseModel." + a for a in ADD.values()], NF + "NoiseModel.basis_gates"], bound="two additions on up to two gates", case="model_modes", budget=100)
def model_add(vc):
    nm = loader.load("simulation.noise_tools.noise")
    m = nm.NoiseModel()
    mode = [list(ADD)[vc.choose("mode", 5)]]
    mode.append(mode[0] if vc.choose("same", 2) else list(ADD)[(list(ADD).index(mode[0]) + 1) % 5])
    gates = [["x", "z"], [["z", "h"], ["h"]][vc.choose("gates", 2)]]
    kinds = [["math", "sub"][vc.choose("kind", 2)] for _ in range(2)]
    lvs = [(0, 1), [(0, 1), (1, 2)][vc.choose("lv", 2)]]
    want, adds = {}, []
    for k in range(2):
        p, q = vc.real(f"p{k}"), vc.real(f"q{k}")
        n = ["math", p, q] if kinds[k] == "math" else ["sub", [[list(lvs[k]), p, q]]]
        adds.append([mode[k], gates[k], n])
        C.ctx().inputs["adds"] = list(adds)
        fits = all(mode[k] not in want.get(g, {}) or (kinds[k] == want[g][mode[k]][0] == "sub" and lvs[k] not in want[g][mode[k]][1]) for g in gates[k])
        obj = make_noise((n[0], p, q) if n[0] == "math" else ("sub", [(lvs[k], p, q)]))

        def go():
            getattr(m, ADD[mode[k]])(obj, list(gates[k]))
        if not fits:
            vc.ensure_raises((ValueError, AssertionError), go, "noise defined twice is rejected")
            return
        go()
        for g in gates[k]:
            e = want.setdefault(g, {})
            if kinds[k] == "sub":
                e[mode[k]] = ("sub", {**(e[mode[k]][1] if mode[k] in e else {}), lvs[k]: (p, q)})
            else:
                e[mode[k]] = ("math", (p, q))
    vc.ensure(m.basis_gates == list(want) and {g: list(e) for g, e in m.quantum_errors.items()} == {g: list(e) for g, e in want.items()}, "the gates and modes")
    own = set()
    for g, e in want.items():
        for mo, (kind, val) in e.items():
            got = m.quantum_errors[g][mo]
            vc.ensure(id(got) not in own, "each entry has its own noise")
            own.add(id(got))
            vc.ensure(type(got).__name__ == {"math": "Noise", "sub": "SubspaceNoise"}[kind], "kind of noise")
            pairs = [(got, val)] if kind == "math" else [(got.subspace_w_probs[lv], pq) for lv, pq in val.items()]
            if kind == "sub":
                vc.ensure(list(got.subspace_w_probs) == list(val), "subspaces")
            for x, (p, q) in pairs:
                vc.ensure_eq(x.probability_depolarizing, p, "depolarizing probability")
                vc.ensure_eq(x.probability_dephasing, q, "dephasing probability")


# ------------------------------------------------------------------ the decision-diagram backend draws its noise in C++
CX = "cpp:src/python/bindings.cpp:"
with contextlib.suppress(Unsupported):
    cxx.load()


def cpp_noise(vc, dims, gates, model):
    """generateCircuit on the circuit and the model, with every outcome of every draw"""
    c = build(vc, dims, gates)
    m0 = cxx.Machine(dd.hooks(dd.Pkg(dims)))
    info = m0.call("readCircuit", cxx.PyObj(c))
    before = cxx.copy(info.items[2])
    nm = m0.call("parse_noise_model", cxx.PyObj(make_model(model).quantum_errors))
    table = {t: (mode, p, q) for t, mode, (_, p, q) in model}
    total = sum(2 for g in gates if ref_tag(g) in table)
    for outs in itertools.product((0, 1), repeat=total):
        C.ctx().inputs.update(dims=list(dims), gates=gates, model=[[t, mode, ["math", 1.0, 1.0]] for t, mode, _ in model])
        it = iter(outs)
        m = cxx.Machine(dd.hooks(dd.Pkg(dims)), lambda m_, w: next(it, 0))
        out = m.call("generateCircuit", cxx.copy(info), cxx.copy(nm))
        vc.ensure(len(m.drawn) == total, "one draw for each declared probability and gate")
        if len(m.drawn) != total:
            return
        at = dr = 0
        for k, g in enumerate(gates):
            vc.ensure(at < len(out) and same_ins(out[at], before[k]), "the original gates in their order")
            if at >= len(out) or not same_ins(out[at], before[k]):
                return
            at += 1
            got = []
            while at < len(out) and not (k + 1 < len(gates) and same_ins(out[at], before[k + 1]) and len(got) >= len(want_errors(vc, g, table, m.drawn[dr:dr + 2], dims))):
                got.append(out[at])
                at += 1
            tag = ref_tag(g)
            want = want_errors(vc, g, table, m.drawn[dr:dr + 2], dims)
            if tag in table:
                dr += 2
            vc.ensure(sorted(map(ins_key, got)) == sorted(want), f"errors after gate {k} ({tag}): {sorted(map(ins_key, got))} instead of {sorted(want)}")
        vc.ensure(at == len(out), "nothing else")
    vc.ok("all draws")


def ref_tag(g):
    return {"r": "rxy", "cx0": "cx"}.get(g["kind"], g["kind"])


def same_ins(a, b):
    return ins_key(a) == ins_key(b)


def ins_key(i):
    tag, dag, ds, typ, lines, params, ctl = i.items
    ps = cxx.topy(params)
    return (tag, bool(dag), str([cxx.intval(x) for x in ds]), typ, str([cxx.intval(x) for x in lines]), str([canon(x) for x in ps] if ps is not None else None), str([[cxx.intval(x) for x in y] for y in ctl.items]))


def canon(x):
    return int(x) if isinstance(x, int) else str(N.Num.lift(x)) if not isinstance(x, float) else f"{x:.12f}"


def want_errors(vc, g, table, drawn, dims):
    tag = ref_tag(g)
    if tag not in table:
        return []
    mode, p, q = table[tag]
    out = []
    for w, k in drawn:
        w = [Num.lift(x) for x in w]
        x = (w[1] - p).is_zero()
        z = (w[1] - q).is_zero()
        vc.ensure(len(w) == 2 and (x or z), "the declared probability is drawn")
        vc.ensure_eq(w[0], 1 - w[1], "no error with the remaining probability")
        if k != 1:
            continue
        for line in ref.affected(g, mode, len(dims)):
            d = dims[line]
            if tag in ("rxy", "rz", "virtrz"):
                a = g["params"][0]
                lv = list(g["params"][:2]) if tag != "virtrz" else [min(a, d - 2), min(a, d - 2) + 1]
                out.append(("rxy" if x else "rz", False, str([d]), "SINGLE", str([line]), str([canon(v) for v in lv + [cxx.exact(3.14159265358979323846)] + ([cxx.exact(3.14159265358979323846 / 2)] if x else [])]), "[[], []]"))
            else:
                out.append(("x" if x else "z", False, str([d]), "SINGLE", str([line]), "None", "[[], []]"))
    return out


CPP = {"x": ([3, 2], [dict(kind="x", lines=[0])], ("local", "all")), "h": ([2, 3], [dict(kind="h", lines=[1])], ("local", "all")),
       "r": ([3, 3], [dict(kind="r", lines=[1], params=[2, 0, 0.3, 0.1])], ("local", "all")), "rz": ([4], [dict(kind="rz", lines=[0], params=[1, 3, 0.3])], ("local",)),
       "virtrz low": ([3, 3], [dict(kind="virtrz", lines=[0], params=[0, 0.3])], ("local", "all")), "virtrz top": ([4, 4], [dict(kind="virtrz", lines=[1], params=[3, 0.3])], ("local", "all")),
       "csum": ([2, 3, 4], [dict(kind="csum", lines=[2, 0])], ("local", "all", "nonlocal", "control", "target")), "cx": ([3, 2], [dict(kind="cx0", lines=[0, 1])], ("local", "all", "nonlocal", "control", "target")),
       "several": ([2, 3], [dict(kind="x", lines=[0]), dict(kind="z", lines=[1]), dict(kind="h", lines=[0])], ("local", "all")),
       "gate before and after": ([2, 2], [dict(kind="z", lines=[0]), dict(kind="csum", lines=[0, 1]), dict(kind="rz", lines=[1], params=[0, 1, 0.2])], ("target", "control"))}

for name_, (ds_, gs_, modes_) in CPP.items():
    for mode_ in modes_:
        @ob(P, f"C++ generateCircuit.{name_}.{mode_}", [CX + "generateCircuit", CX + "parse_noise_model", CX + "readCircuit"], bound=f"the circuit {[(g['kind'], g['lines']) for g in gs_]} on {ds_}; probabilities arbitrary, every outcome of the draws",
            case="misim_noise", budget=60)
        def cpp(vc, ds_=ds_, gs_=gs_, mode_=mode_, name_=name_):
            p, q = probs(vc, "")
            tags = ["csum"] if "after" in name_ else sorted({ref_tag(g) for g in gs_} - ({"z"} if name_ == "several" else set()))
            dd.guard(vc, lambda: cpp_noise(vc, ds_, gs_, [(t, mode_, ("math", p, q)) for t in tags]))
