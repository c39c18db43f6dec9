"""C16: state preparation.  The local sequence of a node with arbitrary complex weights is proved against the formulas of the rotations; the recursion
over the diagram is proved with its contract for the subtrees; whole circuits are run symbolically for small mixtures of dimensions."""
from __future__ import annotations

import itertools

import numpy as np

from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import FakeCircuit, ob
from pyvc.builtins_ import FloatNum, fl, vc_abs
from pyvc.num import Num

from . import spec
from .c17 import injective, maybe, note, paths, polar, sq

P = "C16"
F = "compiler/state_compilation/state_preparation.py:"
RS = "compiler/state_compilation/retrieve_state.py:"


def mod():
    return loader.load("compiler.state_compilation.state_preparation")


def block(a, b, theta, phi):
    """entries of R on its two levels (C01), a < b"""
    f = spec.r(max(a, b) + 1, a, b, Num.lift(theta), Num.lift(phi))
    return {(i, j): Num.lift(f(i, j)) for i in (a, b) for j in (a, b)}


class RContract:
    """R by its contract (C01)"""

    def __init__(self, circuit, name, qudit, params, dim, controls=None):
        a, b, t, p = params
        assert 0 <= a < b < dim and controls is None
        self.m = np.empty((dim, dim), dtype=object)
        bl = block(a, b, t, p)
        for i in range(dim):
            for j in range(dim):
                self.m[i, j] = bl.get((i, j), N.ONE if i == j else N.ZERO)

    def to_matrix(self, identities=0):
        return self.m


def with_r(m, f):
    old = m.R
    m.R = RContract
    try:
        return f()
    finally:
        m.R = old


def regulators():
    """regulate_theta by its contract (C10): the same rotation"""
    out = []
    for n in ("r", "rz", "virt_rz"):
        x = loader.load("quantum_circuit.gates." + n)
        if "regulate_theta" in vars(x):
            out.append((x, x.regulate_theta))
            x.regulate_theta = lambda t: t
    return out


def rz_block(theta):
    e = N.num_exp(N.I * Num.lift(theta) / 2)
    return e.conjugate(), e


def apply_ops(vec, ops):
    """the sequence ((levels), (theta, phi)) applied to a vector of one qudit; (-1, 0) is the phase on levels 0 and 1"""
    vec = [Num.lift(x) for x in vec]
    for (a, b), (t, p) in ops:
        if (a, b) == (-1, 0):
            e0, e1 = rz_block(t)
            vec[0], vec[1] = vec[0] * e0, vec[1] * e1
        else:
            bl = block(a, b, t, p)
            vec[a], vec[b] = bl[a, a] * vec[a] + bl[a, b] * vec[b], bl[b, a] * vec[a] + bl[b, b] * vec[b]
            vec[a], vec[b] = C.fold(vec[a]), C.fold(vec[b])
    return vec


@ob(P, "get_angles", [F + "get_angles"], case="local")
def angles(vc):
    """the rotation moves everything to the lower level and keeps its phase"""
    m = mod()
    f, t = maybe(vc, "from"), maybe(vc, "to")
    note(weights=[t, f])
    th, ph = m.get_angles(f, t)
    bl = block(0, 1, th, ph)
    if Num.lift(f).is_zero() and Num.lift(t).is_zero():
        vc.ensure_eq(th, 0, "nothing to rotate")
        return
    r = N.num_sqrt(sq(f) + sq(t))
    lo, hi = bl[0, 0] * t + bl[0, 1] * f, bl[1, 0] * t + bl[1, 1] * f
    vc.ensure_eq(hi, 0, "the upper level is emptied")
    vc.ensure_eq(sq(lo), r * r, "the norm stays")
    if not Num.lift(t).is_zero():
        vc.ensure_eq(lo * N.num_sqrt(sq(t)), Num.lift(t) * r, "the phase of the lower level stays")
    else:
        vc.ensure_eq(lo, r, "the lower level becomes real")
    inv = block(0, 1, -Num.lift(th), ph)
    vc.ensure_eq(inv[0, 0] * lo + inv[0, 1] * hi, t, "the negative angle undoes it")
    vc.ensure_eq(inv[1, 0] * lo + inv[1, 1] * hi, f, "the negative angle undoes it")


@ob(P, "find_complex_number", [F + "find_complex_number"], case="local")
def number(vc):
    """precondition: the weight of a node is a positive number (C17.normalize)"""
    x = vc.real("x")
    vc.assume(x > 0)
    c = polar(vc, "c")
    note(weights=[c, 0])
    vc.ensure_eq(Num.lift(mod().find_complex_number(x, c)) * x * x, c, "the phase of c, the length divided by x squared")


for d in range(2, 7):
    @ob(P, f"retrieve_local_sequence.{d} children", [F + "StatePrep.retrieve_local_sequence", F + "get_angles", F + "find_complex_number"],
        bound=f"{d} children, every pattern of zeros, arbitrary weights of norm one", case="local", budget=150, tier="quick" if d < 6 else "thorough")
    def local(vc, d=d):
        m = mod()
        w = [maybe(vc, f"w{i}") for i in range(d)]
        if all(Num.lift(x).is_zero() for x in w):
            return
        note(weights=list(w))
        nrm = N.num_sqrt(sum((sq(x) for x in w), N.ZERO))
        dd = __import__("types").SimpleNamespace
        kids = [dd(weight=x, value=1) for x in w]
        c = FakeCircuit([3, d, 2])
        f = vc.real("fweight")
        vc.assume(f > 0)
        sp = m.StatePrep(c, None)
        seq = with_r(m, lambda: sp.retrieve_local_sequence(f, kids))
        vc.ensure(sorted(seq) == [(i - 1, i) for i in range(d)], "one phase and one rotation per neighbouring pair of levels")
        # the operations in the order the synthesis applies them
        out = apply_ops([N.ONE] + [N.ZERO] * (d - 1), [(k, seq[k]) for k in sorted(seq)])
        for x, y in zip(out, w):
            vc.ensure_eq(x * nrm, y, "from level zero the sequence prepares the normalised weights")


for d in range(2, 6):
    @ob(P, f"synthesis.node with {d} children", [F + "StatePrep.synthesis", F + "Operation.__init__", F + "Operation.get_control_nodes", F + "Operation.get_control_levels", F + "Operation.is_z"],
        bound=f"{d} children, arbitrary subtrees", case="prepare", tier="quick" if d < 5 else "thorough", budget=150)
    def synth(vc, d=d):
        """the operations of the node come first, under the controls of its path; a child is treated under the controls of its own branch,
        the shared child of a reduced node under the controls of the node"""
        m = mod()
        node_type = loader.load("core.micro_dd").MicroDDNode
        node = node_type(1)
        kids = [node_type(1) for _ in range(d)]
        live = [bool(vc.choose("live", 2)) for _ in range(d)]
        if not any(live):
            return
        for k, x in zip(kids, live):
            k.weight = polar(vc, "w") if x else N.ZERO
        node.children = list(kids)
        node.terminal = bool(vc.choose("terminal", 2))
        node.weight = vc.real("weight")
        node.reduced = bool(vc.choose("reduced", 2))
        hashed = vc.choose("hashed", 2) or node.reduced
        if hashed:
            if node.reduced:
                node.children_index = [next(i for i in range(d) if live[i]) if live[i] else i for i in range(d)]
            else:
                node.children_index = [i if not vc.choose("shared", 2) else 0 for i in range(d)]
        sp = m.StatePrep(FakeCircuit([2, d, 2, 2]), None)
        note(dims=[2, d, 2], v=None)
        angles = {(i - 1, i): (vc.angle(f"t{i}"), vc.angle(f"ph{i}")) for i in range(d)}
        seen = []

        def rls(weight, children):
            seen.append((weight, children))
            return dict(reversed(list(angles.items())))
        calls = []
        real = sp.synthesis

        def stub(labels, card, n, meta, controls=None, depth=0):
            calls.append((labels, card, n, meta, controls, depth, len(meta)))
        sp.retrieve_local_sequence = rls
        sp.synthesis = stub
        labels, card, ctl, meta = [0, 1, 2, 3], [2, d, 2, 2], [(0, 1)], ["earlier"]
        real(labels, card, node, meta, ctl, 1)
        vc.ensure(ctl == [(0, 1)], "the controls of the path are not changed")
        if node.terminal:
            vc.ensure(meta == ["earlier"] and not calls, "nothing to do below a terminal node")
            return
        vc.ensure(seen == [(node.weight, node.children)] or (len(seen) == 1 and seen[0][0] is node.weight and seen[0][1] is node.children), "the local sequence of the node")
        ops = meta[1:]
        vc.ensure([o.levels for o in ops] == sorted(angles) and meta[0] == "earlier", "phase first, then the rotations upwards")
        for o in ops:
            vc.ensure(o.qudit == 1 and o.get_control_nodes() == [0] and o.get_control_levels() == [1], "on the line of the node, under the controls of the path")
            vc.ensure_eq(o.theta, angles[o.levels][0], "angle")
            vc.ensure_eq(o.phi, angles[o.levels][1], "axis")
            vc.ensure(o.is_z() == (o.levels == (-1, 0)), "kind")
        if node.reduced:
            want = [(kids[node.children_index[next(i for i in range(d) if live[i])]], [(0, 1)])]
        else:
            want = [(kids[node.children_index[i] if hashed else i], [(0, 1), (1, i)]) for i in range(d)]
        vc.ensure(len(calls) == len(want), "one call per branch, one for the shared child of a reduced node")
        for (la, ca, n, me, co, de, before), (wn, wc) in zip(calls, want):
            vc.ensure(la is labels and ca is card and me is meta and de == 2 and before == 1 + d, "one level below, after the operations of the node")
            vc.ensure(n is wn and co == wc and co is not ctl, "the child under the controls of its branch")



@ob(P, "compile_state.steps", [F + "StatePrep.compile_state", F + "StatePrep.__init__"], bound="three lines, four operations of every kind", case="prepare")
def steps(vc):
    """diagram, optional approximation with one percent, reduction, synthesis; the circuit is a copy, extended by the operations in order"""
    m = mod()
    qc = loader.load("quantum_circuit")
    approx = bool(vc.choose("approx", 2))
    circuit = qc.QuantumCircuit(3, [2, 3, 2], 0)
    earlier = vc.choose("earlier", 2)
    if earlier:
        circuit.x(1)
    state = object()
    log = []
    root = object()
    note(dims=[2, 3, 2], v=None)
    names = ("create_decision_tree", "get_node_contributions", "cut_branches", "normalize_all", "dd_reduction_hashing", "dd_reduction_aggregation")
    saved = {n: getattr(m, n) for n in names}
    ret = {"create_decision_tree": (root, [5]), "get_node_contributions": "contributions"}
    for n in names:
        setattr(m, n, (lambda n: lambda *a: (log.append((n, a)), ret.get(n))[1])(n))
    th = [vc.angle(f"t{i}") for i in range(3)]
    for t in th:
        vc.assume(t * t > 1)
    ph = vc.angle("phi")
    ops = [m.Operation([], 0, (-1, 0), (th[0], 0.0)), m.Operation([(0, 1)], 1, (1, 2), (th[1], ph)), m.Operation([(0, 1), (1, 2)], 2, (-1, 0), (th[2], 0.0)),
           m.Operation([(0, 0)], 1, (0, 1), (0.0, ph))]

    def synth(labels, card, node, meta, controls=None, depth=0):
        log.append(("synthesis", (labels, card, node, list(controls or []), depth)))
        meta.extend(ops)
    sp = m.StatePrep(circuit, state, approx)
    sp.synthesis = synth
    mods = regulators()
    try:
        out = sp.compile_state()
    finally:
        for x, f in mods:
            x.regulate_theta = f
        for n in names:
            setattr(m, n, saved[n])
    want = ["create_decision_tree"] + (["get_node_contributions", "cut_branches", "normalize_all"] if approx else []) + ["dd_reduction_hashing", "dd_reduction_aggregation", "synthesis"]
    vc.ensure([n for n, _ in log] == want, "the steps in order, the approximation only on request")
    a = dict(log)
    vc.ensure(list(a["create_decision_tree"][0]) == [0, 1, 2] and list(a["create_decision_tree"][1]) == [2, 3, 2] and a["create_decision_tree"][2] is state, "the diagram of the state")
    if approx:
        vc.ensure(a["get_node_contributions"][0] is root and a["cut_branches"][0] == "contributions" and a["normalize_all"][0] is root, "the approximation of this diagram")
        vc.ensure_eq(a["cut_branches"][1], 0.01, "one percent")
    vc.ensure(a["dd_reduction_hashing"][0] is root and a["dd_reduction_aggregation"][0] is root, "the reduction of this diagram")
    vc.ensure(a["synthesis"][2] is root and a["synthesis"][3] == [] and a["synthesis"][4] == 0, "the synthesis from the root without controls")
    vc.ensure(out is not circuit and len(circuit.instructions) == earlier, "the given circuit is not changed")
    gs = out.instructions[earlier:]
    vc.ensure(len(gs) == 3, "one gate per operation that turns")
    for g, o in zip(gs, ops[:3]):
        lev = (0, 1) if o.is_z() else o.levels
        vc.ensure(type(g).__name__ == ("Rz" if o.is_z() else "R") and g.target_qudits == o.qudit and (g.lev_a, g.lev_b) == lev, "kind, line and levels")
        ci = g.control_info["controls"]
        got = ([], []) if ci is None else (list(ci.indices), list(ci.ctrl_states))
        vc.ensure(got == (o.get_control_nodes(), o.get_control_levels()), "controls")
        vc.ensure_eq(g.phi if o.is_z() else g.theta, o.theta, "angle")
        if not o.is_z():
            vc.ensure_eq(g.phi, o.phi, "axis")


def run(circuit, dims):
    """the state the circuit prepares from all zeros, by the contracts of R, Rz and the controls (C01, C03)"""
    state = {p: N.ZERO for p in paths(dims)}
    state[(0,) * len(dims)] = N.ONE
    for g in circuit.instructions:
        ci = g.control_info["controls"]
        ctl = [] if ci is None else list(zip(ci.indices, ci.ctrl_states))
        q, a, b = g.target_qudits, g.lev_a, g.lev_b
        if type(g).__name__ == "Rz":
            e0, e1 = rz_block(g.phi)
            bl = {(a, a): e0, (b, b): e1, (a, b): N.ZERO, (b, a): N.ZERO}
        else:
            bl = block(a, b, g.theta, g.phi)
        new = dict(state)
        for p in paths(dims):
            if p[q] == a and all(p[x] == y for x, y in ctl):
                p2 = p[:q] + (b,) + p[q + 1:]
                x, y = state[p], state[p2]
                new[p], new[p2] = C.fold(bl[a, a] * x + bl[a, b] * y), C.fold(bl[b, a] * x + bl[b, b] * y)
        state = new
    return state


class Turn(FloatNum):
    """an angle that is not zero, assumed not to be below the threshold (1e-5) at which the synthesis drops an operation"""
    __slots__ = ()


def large(vc, m):
    real = m.Operation

    class Op(real):
        def __init__(self, controls, qudit, levels, angles):
            t, p = (Num.lift(x) for x in angles)
            super().__init__(controls, qudit, levels, (0.0 if t.is_zero() else Turn(t.t), fl(p)))
    return Op


def prepare(vc, dims, v, generic=False):
    m = mod()
    qc = loader.load("quantum_circuit")
    micro = loader.load("core.micro_dd")
    note(dims=list(dims), v=list(v))
    c = qc.QuantumCircuit(len(dims), list(dims), 0)
    mods = regulators()
    old, op = micro.__dict__.get("hash"), m.Operation
    micro.__dict__["hash"] = injective(micro, generic)
    m.Operation = large(vc, m)
    m.__dict__["abs"] = lambda x: N.ONE if isinstance(x, Turn) else vc_abs(x)
    try:
        out = with_r(m, lambda: m.StatePrep(c, list(v)).compile_state())
    finally:
        m.Operation = op
        m.__dict__["abs"] = vc_abs
        for x, f in mods:
            x.regulate_theta = f
        micro.__dict__.pop("hash") if old is None else micro.__dict__.__setitem__("hash", old)
    return run(out, dims)


for dims, bud in [((2,), 60), ((3,), 60), ((4,), 100), ((2, 2), 150), ((2, 3), 200), ((3, 2), 200), ((2, 2, 2), 300)]:
    @ob(P, f"compile_state.{dims}", [F + "StatePrep." + x for x in ("compile_state", "synthesis", "retrieve_local_sequence")], budget=bud, case="prepare",
        bound=f"dimensions {dims}, every pattern of zeros, arbitrary non-negative amplitudes of norm one; rotations below the threshold of the synthesis excluded, branches that coincide only for special values are in the structured contract",
        tier="quick" if bud <= 200 else "thorough")
    def whole(vc, dims=dims):
        n = len(paths(dims))
        v = [maybe(vc, f"v{i}") for i in range(n)]
        if all(Num.lift(x).is_zero() for x in v):
            return
        nrm = N.num_sqrt(sum((sq(x) for x in v), N.ZERO))
        st = prepare(vc, dims, list(v), True)
        k = next(i for i, x in enumerate(v) if not Num.lift(x).is_zero())
        p0 = paths(dims)[k]
        # equal up to one phase: st * v[k] == v * st[k], and the same norm
        for p, x in zip(paths(dims), v):
            vc.ensure_eq(st[p] * v[k], x * st[p0], "the prepared state is the given state up to a phase")
        vc.ensure_eq(sq(st[p0]) * nrm * nrm, sq(v[k]), "with the same norm")


for dims in [(2, 2), (3, 2), (2, 3), (2, 2, 2)]:
    @ob(P, f"compile_state.structured {dims}", [F + "StatePrep." + x for x in ("compile_state", "synthesis", "retrieve_local_sequence")], budget=200, case="prepare",
        bound=f"dimensions {dims}, entries out of three values (two for six or more), shared and reduced branches included", tier="quick" if len(dims) < 3 else "thorough")
    def structured(vc, dims=dims):
        n = len(paths(dims))
        v = [Num.lift([0, 1, N.I][vc.choose("v", 3 if n < 6 else 2)]) for i in range(n)]
        if all(x.is_zero() for x in v):
            return
        nrm = N.num_sqrt(sum((sq(x) for x in v), N.ZERO))
        st = prepare(vc, dims, list(v))
        k = next(i for i, x in enumerate(v) if not x.is_zero())
        p0 = paths(dims)[k]
        for p, x in zip(paths(dims), v):
            vc.ensure_eq(st[p] * v[k], x * st[p0], "the prepared state is the given state up to a phase")
        vc.ensure_eq(sq(st[p0]) * nrm * nrm, sq(v[k]), "with the same norm")


def named(kind, dims):
    zero = [0] * len(dims)
    if kind == "ghz":
        return {tuple([i] * len(dims)) for i in range(min(dims))}
    out = set()
    for j, d in enumerate(dims):
        for i in range(1, d if kind == "qudit-w-state" else 2):
            e = list(zero)
            e[j] = i
            out.add(tuple(e))
    return out


@ob(P, "generate_uniform_state", [RS + x for x in ("generate_uniform_state", "generate_all_combinations", "generate_ghz_entries", "generate_qudit_w_entries", "generate_embedded_w_entries",
                                                   "find_entries_indices", "verify_normalized_state")], bound="every mixture of dimensions 2 to 4 on up to three lines", case="named", budget=120)
def uniform(vc):
    m = loader.load("compiler.state_compilation.retrieve_state")
    n = vc.choose("lines", 3) + 1
    dims = [vc.choose("d", 3) + 2 for _ in range(n)]
    note(dims=list(dims))
    for kind in ("ghz", "qudit-w-state", "embedded-w-state"):
        v = m.generate_uniform_state(list(dims), kind)
        want = named(kind, dims)
        vc.ensure(len(v) == len(paths(dims)), "one amplitude per basis state")
        for p, x in zip(paths(dims), v):
            vc.ensure(abs(Num.lift(x).evalf({}) * len(want) ** 0.5 - (p in want)) < 1e-9, f"{kind}: uniform over its entries")
    vc.ensure_raises(ValueError, lambda: m.generate_uniform_state(list(dims), "w"), "other names are rejected")
    vc.ensure([tuple(x) for x in m.generate_all_combinations(list(dims))] == paths(dims), "all combinations, the last line running fastest")
