"""C18 at run time: noisy circuits against the declared noise."""
from __future__ import annotations

import math

import numpy as np

from . import noise_ref as ref
from .base import case, expect, finding, gen
from .c05 import build
from .sim import random_circuit, snapshot

ADD = {"local": "add_quantum_error_locally", "all": "add_all_qudit_quantum_error", "nonlocal": "add_nonlocal_quantum_error",
       "target": "add_nonlocal_quantum_error_on_target", "control": "add_nonlocal_quantum_error_on_control"}
TAGS = {"r": "rxy", "cu_one": "cuone", "cu_two": "cutwo", "cu_multi": "cumulti", "cx0": "cx"}


def tag_of(g):
    return TAGS.get(g["kind"], g["kind"])


def tup(noise):
    return ("sub", [(tuple(lv), p, q) for lv, p, q in noise[1]]) if noise[0] == "sub" else tuple(noise)


def make_noise(noise):
    from mqt.qudits.simulation.noise_tools import Noise, SubspaceNoise
    if noise[0] == "math":
        return Noise(noise[1], noise[2])
    if noise[0] == "dyn":
        return SubspaceNoise(noise[1], noise[2], [])
    s = None
    for lv, p, q in noise[1]:
        if s is None:
            s = SubspaceNoise(p, q, tuple(lv))
        else:
            s.add_noise(lv[0], lv[1], Noise(p, q))
    return s


def make_model(model):
    from mqt.qudits.simulation.noise_tools import NoiseModel
    m = NoiseModel()
    for tag, mode, noise in model:
        getattr(m, ADD[mode])(make_noise(noise), [tag])
    return m


def ordered(model):
    """the order in which the model holds its entries: by gate, then by mode"""
    out = {}
    for t, mode, noise in model:
        out.setdefault(t, []).append((t, mode, tup(noise)))
    return [e for v in out.values() for e in v]


class Stub:
    """a random generator whose outcomes are given; it records what was asked"""

    def __init__(self, outs):
        self.outs, self.log = list(outs), []

    def choice(self, options, size=None, replace=True, p=None):
        k = (self.outs.pop(0) if self.outs else 0) % len(options)
        self.log.append(p[k] if p is not None else 1 / len(options))
        return np.asarray(options)[k]


def same_gate(a, b):
    x, y = a.control_info["controls"], b.control_info["controls"]
    p, q = a._params, b._params
    same = np.array_equal(p, q) if isinstance(p, np.ndarray) else p == q
    return type(a) is type(b) and a.target_qudits == b.target_qudits and same and a.dagger == b.dagger and (x is None) == (y is None) and (
        x is None or (list(x.indices), list(x.ctrl_states)) == (list(y.indices), list(y.ctrl_states)))


def split(c, nc):
    """the gates inserted after each original gate (the originals carry a mark, which their copies keep)"""
    if all(hasattr(g, "vc_mark") for g in c.instructions) and [getattr(g, "vc_mark", None) for g in nc.instructions if hasattr(g, "vc_mark")] == list(range(len(c.instructions))):
        out, first = [], hasattr(nc.instructions[0], "vc_mark") if nc.instructions else True
        expect(first, "gates in front of the circuit")
        for x in nc.instructions:
            if hasattr(x, "vc_mark"):
                g = c.instructions[x.vc_mark]
                expect(same_gate(g, x) and x is not g, f"gate {x.vc_mark} ({g.qasm_tag}) is not carried over")
                out.append([])
            else:
                out[-1].append(x)
        return out
    k, out = 0, []
    for i, g in enumerate(c.instructions):
        expect(k < len(nc.instructions) and same_gate(g, nc.instructions[k]) and nc.instructions[k] is not g, f"gate {i} ({g.qasm_tag}) is not carried over")
        k += 1
        ins = []
        nxt = c.instructions[i + 1] if i + 1 < len(c.instructions) else None
        while k < len(nc.instructions) and not (nxt is not None and same_gate(nxt, nc.instructions[k]) and rest_fits(c, i + 1, nc, k)):
            ins.append(nc.instructions[k])
            k += 1
        out.append(ins)
    expect(k == len(nc.instructions), "gates in front of the circuit or after it")
    return out


def rest_fits(c, i, nc, k):
    """the originals from i on appear in order from position k on"""
    for g in c.instructions[i:]:
        while k < len(nc.instructions) and not same_gate(g, nc.instructions[k]):
            k += 1
        if k == len(nc.instructions):
            return False
        k += 1
    return True


def expected_error(gates, model, dims):
    for g in gates:
        try:
            ref.slots(g, tag_of(g), model, dims)
        except ref.Rejected as e:
            return e.exc
    return None


def factory(c, m, rng):
    from mqt.qudits.simulation.noise_tools import NoisyCircuitFactory
    old = np.random.default_rng
    np.random.default_rng = lambda *a, **k: rng
    try:
        return NoisyCircuitFactory(m, c)
    finally:
        np.random.default_rng = old


@case("noisy")
def noisy(dims, gates, model, outs=None, **_):
    """one outcome of the generator"""
    dims = list(dims)
    c = build([("q", dims)], gates)
    for k, x in enumerate(c.instructions):
        x.vc_mark = k
    m = make_model(model)
    text = str(m)
    before = snapshot(c)
    model = ordered(model)
    rng = Stub(outs) if outs is not None else np.random.default_rng(5)
    f = factory(c, m, rng)
    bad = expected_error(gates, model, dims)
    try:
        nc = f.generate_circuit()
    except (ValueError, IndexError) as e:
        expect(bad is not None and isinstance(e, bad), f"rejected: {e}")
        return
    expect(bad is None, "noise that does not fit the gate is accepted")
    expect(snapshot(c) == before and str(m) == text, "circuit or model is changed")
    expect(list(nc.dimensions) == dims and nc.num_qudits == len(dims) and nc.num_cl == c.num_cl, "dimensions of the noisy circuit")
    expect(nc.number_gates == len(nc.instructions), "number of gates")
    weights = None
    if len(gates) == 1:
        ins = [nc.instructions[1:]]
        expect(same_gate(c.instructions[0], nc.instructions[0]), "the gate is not carried over")
    else:
        ins = split(c, nc)
    for g, gs in zip(gates, ins):
        r = ref.readings([ref.describe(x) for x in gs], ref.slots(g, tag_of(g), model, dims))
        expect(r, f"after {g}: inserted {[(x.qasm_tag, x.target_qudits, x._params) for x in gs]}, not declared by {model}")
        if len(gates) == 1:
            weights = r
    if weights is not None and outs is not None:
        got = math.prod(rng.log)
        expect(any(abs(math.prod(w) - got) < 1e-9 for w in weights), f"inserted {[x.qasm_tag for x in gs]} with probability {got:.6g} instead of {[math.prod(w) for w in weights]}")


@case("noise_rate")
def noise_rate(dims, gate, model, n=3000, seed=11, **_):
    """frequency of every outcome of the noise after one gate"""
    dims = list(dims)
    c = build([("q", dims)], [gate])
    model = ordered(model)
    f = factory(c, make_model(model), np.random.default_rng(seed))
    slot = ref.slots(gate, tag_of(gate), model, dims)
    seen = {}
    for _ in range(n):
        key = tuple(sorted(((x.target_qudits, k, ref.describe(x)) for k, x in enumerate(f.generate_circuit().instructions[1:])), key=lambda t: t[:2]))
        key = tuple(d for _, _, d in key)
        seen[key] = seen.get(key, 0) + 1
    for key, k in seen.items():
        r = ref.readings(list(key), slot)
        expect(r, f"after {gate}: inserted {key}, not declared by {model}")
        w = sum(math.prod(x) for x in r)
        expect(abs(k - n * w) <= 6.5 * math.sqrt(n * w * (1 - w)) + 8, f"{gate} with {model}: {key} appears {k} times in {n}, expected {n * w:.1f}")
    none = math.prod(max((pr for gs, pr in dr if not gs), default=0) for _, dr in slot)
    k = seen.get((), 0)
    expect(abs(k - n * none) <= 6.5 * math.sqrt(n * none * (1 - none)) + 8, f"{gate} with {model}: no error {k} times in {n}, expected {n * none:.1f}")


@case("model")
def model_case(steps, **_):
    """building noise models: steps of (levels, p, q) on one subspace noise"""
    from mqt.qudits.simulation.noise_tools import Noise, SubspaceNoise
    first = steps[0]
    want = {}

    def add(lv, p, q):
        a, b = sorted(lv)
        if a == b or (a, b) in want or (a < 0 and want) or any(x < 0 and y < 0 for x, y in want):
            return False
        want[a, b] = (p, q)
        return True

    def held(s):
        return {k: (v.probability_depolarizing, v.probability_dephasing) for k, v in s.subspace_w_probs.items()}
    try:
        s = SubspaceNoise(first[1], first[2], tuple(first[0]))
        expect(add(*first), f"levels {first[0]} accepted")
    except ValueError:
        expect(not add(*first), f"levels {first[0]} rejected")
        return
    for lv, p, q in steps[1:]:
        try:
            s.add_noise(lv[0], lv[1], Noise(p, q))
            ok = True
        except ValueError:
            ok = False
        expect(ok == add(lv, p, q), f"adding levels {lv} to {held(s)}: accepted is {ok}")
        expect(held(s) == want, f"subspaces {held(s)} instead of {want}")


@case("model_modes")
def model_modes(adds, **_):
    """(mode, gates, noise) added to a model in turn"""
    from mqt.qudits.simulation.noise_tools import NoiseModel
    m = NoiseModel()
    want = {}
    for mode, gates, noise in adds:
        fits = all(mode not in want.get(g, {}) or (noise[0] == want[g][mode][0] == "sub" and not {tuple(sorted(x[0])) for x in noise[1]} & {x for x in want[g][mode][1]})
                   for g in gates)
        obj = make_noise(tup(noise))
        try:
            getattr(m, ADD[mode])(obj, list(gates))
            expect(fits, f"noise defined twice: {adds}")
        except (ValueError, AssertionError):
            expect(not fits, f"noise rejected: {mode} {gates} {noise}")
            return
        for g in gates:
            e = want.setdefault(g, {})
            if noise[0] == "sub":
                mine = {tuple(sorted(lv)): (p, q) for lv, p, q in noise[1]}
                e[mode] = ("sub", {**(e[mode][1] if mode in e else {}), **mine})
            else:
                e[mode] = ("math", (noise[1], noise[2]))
        got = {}
        for g, e in m.quantum_errors.items():
            for mo, x in e.items():
                got.setdefault(g, {})[mo] = ("math", (x.probability_depolarizing, x.probability_dephasing)) if type(x).__name__ == "Noise" else (
                    "sub", {k: (v.probability_depolarizing, v.probability_dephasing) for k, v in x.subspace_w_probs.items()})
        expect(got == want and list(got) == list(want) and m.basis_gates == list(want), f"model holds {got} instead of {want}")


@case("misim_noise")
def misim_noise(dims, gates, model, **_):
    """the decision-diagram backend with errors that are certain or impossible: x (first probability) and z (second) on the declared lines,
    as a rotation by pi in the subspace of the gate after two-level rotations and phases"""
    from mqt.qudits.simulation import MQTQuditProvider

    from .sim import unitary_of
    dims = list(dims)
    c = build([("q", dims)], gates)
    v = np.asarray(MQTQuditProvider().get_backend("misim").execute(c, make_model(model)))[0]
    full = []
    for gt in gates:
        full.append(gt)
        for t, mode, noise in sorted((e for e in model if e[0] == tag_of(gt)), key=lambda e: e[1]):
            for p, kind, pars in ((noise[1], "x", [math.pi, math.pi / 2]), (noise[2], "z", [math.pi])):
                if p != 1:
                    continue
                for q in ref.affected(gt, mode, len(dims)):
                    if tag_of(gt) in ("rxy", "rz", "virtrz"):
                        d = dims[q]
                        lv = gt["params"][:2] if tag_of(gt) != "virtrz" else [min(gt["params"][0], d - 2), min(gt["params"][0], d - 2) + 1]
                        full.append(dict(kind="r" if kind == "x" else "rz", lines=[q], params=[*lv, *pars]))
                    else:
                        full.append(dict(kind=kind, lines=[q]))
    want = unitary_of(build([("q", dims)], full), full)[:, 0]
    expect(abs(abs(np.vdot(want, v)) - 1) < 1e-6 and abs(np.linalg.norm(v) - 1) < 1e-6, f"misim with {model} on {dims}: not the state with the declared errors")


@finding("C18", "math-dephasing")
def math_dephasing():
    """a declared dephasing probability of one (mathematical noise) never changes a circuit simulated by the tensor-network backend"""
    c = build([("q", [3])], [dict(kind="z", lines=[0])])
    f = factory(c, make_model([["z", "local", ["math", 0.0, 1.0]]]), np.random.default_rng(1))
    return all(len(f.generate_circuit().instructions) == 1 for _ in range(20))


KINDS = ["x", "z", "h", "r", "rz", "rh", "virtrz", "csum", "cx0", "cx", "ls", "ms", "cu_one", "cu_two", "cu_multi"]


def rand_noise(r, d, wide=False):
    p, q = (r.choice([0.0, 1.0, r.random(), 0.5]) for _ in range(2))
    k = r.random()
    if k < 0.4:
        return ["math", p, q]
    if k < 0.6:
        return ["dyn", p, q]
    pairs = [[a, b] for a in range(d + (1 if wide else 0)) for b in range(a)]
    ch = r.sample(pairs, min(len(pairs), r.choice([1, 1, 2, 3])))
    return ["sub", [[lv if r.random() < 0.7 else lv[::-1], r.choice([p, r.random()]), r.choice([q, r.random()])] for lv in ch]]


def rand_model(r, gates, dims):
    out, used = [], set()
    tags = [tag_of(g) for g in gates] + ["x", "rxy"]
    for _ in range(r.randint(1, 4)):
        t, mode = r.choice(tags), r.choice(list(ADD))
        if (t, mode) in used:
            continue
        used.add((t, mode))
        out.append([t, mode, rand_noise(r, min(dims), r.random() < 0.05)])
    return out


@gen("C18")
def g(r, budget):
    yield "noise_rate", dict(dims=[3], gate=dict(kind="h", lines=[0]), model=[["h", "local", ["math", 0.6, 0.0]]])
    yield "noise_rate", dict(dims=[3, 2], gate=dict(kind="csum", lines=[1, 0]), model=[["csum", "target", ["sub", [[[0, 2], 0.7, 0.4]]]]])
    yield "noise_rate", dict(dims=[4], gate=dict(kind="r", lines=[0], params=[1, 2, 0.3, 0.1]), model=[["rxy", "all", ["dyn", 0.5, 0.25]]])
    while True:
        if r.random() < 0.1:
            yield "model", dict(steps=[[r.choice([[-2, -1], [r.randint(0, 2), r.randint(0, 2)]]), r.random(), r.random()] for _ in range(4)])
            continue
        if r.random() < 0.1:
            adds = []
            for _ in range(4):
                noise = rand_noise(r, 3)
                if noise[0] == "dyn":
                    noise = ["math", noise[1], noise[2]]
                adds.append([r.choice(list(ADD)), r.sample(["x", "z", "csum", "rxy"], r.randint(1, 3)), noise])
            yield "model_modes", dict(adds=adds)
            continue
        if r.random() < 0.15:
            dims, gates = random_circuit(r, maxlines=3, maxdim=4, gates=3, kinds=["x", "z", "h", "r", "rz", "virtrz", "csum"], control=0, dag=0)
            gates = [x for x in gates if not (x["kind"] in ("r", "rz", "virtrz") and len(set(dims)) > 1)]
            model = []
            for gt in gates:
                mode = r.choice(["local", "all"] + (["nonlocal", "control", "target"] if len(gt["lines"]) == 2 else []))
                if not any(e[0] == tag_of(gt) for e in model):
                    if mode in ("control", "target", "nonlocal") and any(len(o["lines"]) != 2 for o in gates if tag_of(o) == tag_of(gt)):
                        continue
                    model.append([tag_of(gt), mode, ["math", float(r.randrange(2)), float(r.randrange(2))]])
            yield "misim_noise", dict(dims=dims, gates=gates, model=model)
            continue
        dims, gates = random_circuit(r, maxlines=4, maxdim=4, gates=r.choice([1, 1, 2, 4]), kinds=KINDS, maxctl=2)
        if not gates:
            continue
        if r.random() < 0.01:
            yield "noise_rate", dict(dims=dims, gate=gates[0], model=[[tag_of(gates[0]), "local", ["math", 0.3, 0.1]]], n=500, seed=r.randrange(10 ** 6))
            continue
        yield "noisy", dict(dims=dims, gates=gates, model=rand_model(r, gates, dims), outs=[r.randrange(16) for _ in range(12)])
