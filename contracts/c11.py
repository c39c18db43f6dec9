"""C11: level graphs and routing.  The placement of a level graph with pending phases is the matrix V with entries exp(i phase(n)) at (lpmap(n), n).  Exchanging
levels, routing, and the phase bookkeeping of the pulses are contracts over V, for arbitrary phases and angles; the graphs are enumerated (all labelled trees of
a dimension, every assignment of physical levels), so the contracts are bounded in the dimension."""
from __future__ import annotations

import itertools

import numpy as np

from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import FakeCircuit, ob
from pyvc.builtins_ import fl
from pyvc.num import Num

from .c15 import matrix

P = "C11"
F = "core/level_graph.py:LevelGraph."
RF = "compiler/onedit/local_operation_swap/swap_routine.py:"


def lg():
    return loader.load("core.level_graph")


def mod():
    return loader.load("compiler.onedit.local_operation_swap.swap_routine")


def trees(d):
    """all labelled trees with d nodes (Pruefer sequences)"""
    if d == 1:
        return [[]]
    if d == 2:
        return [[(0, 1)]]
    out = []
    for seq in itertools.product(range(d), repeat=d - 2):
        deg = [1 + seq.count(i) for i in range(d)]
        edges = []
        for s in seq:
            leaf = min(i for i in range(d) if deg[i] == 1)
            edges.append((leaf, s))
            deg[leaf] -= 1
            deg[s] -= 1
        edges.append(tuple(i for i in range(d) if deg[i] == 1))
        out.append(edges)
    return out


def graphs(d):
    """all connected graphs with d nodes"""
    alle = list(itertools.combinations(range(d), 2))
    for k in range(d - 1, len(alle) + 1):
        for e in itertools.combinations(alle, k):
            seen, todo = {0}, [0]
            while todo:
                x = todo.pop()
                for a, b in e:
                    for u, v in ((a, b), (b, a)):
                        if u == x and v not in seen:
                            seen.add(v)
                            todo.append(v)
            if len(seen) == d:
                yield list(e)


def build(d, edges, lpmap, phases=None, start=(0,)):
    g = lg().LevelGraph([(a, b, {"delta_m": 0, "sensitivity": 2 + i}) for i, (a, b) in enumerate(edges)], list(range(d)), list(lpmap), list(start))
    if phases is not None:
        g.phase_storing_setup()
        for n in range(d):
            g.nodes[n]["phase_storage"] = phases[n]
    return g


def placement(g, d):
    """V: exp(i phase(n)) at (lpmap(n), n)"""
    v = np.array([[N.ZERO] * d for _ in range(d)], dtype=object)
    for n in range(d):
        v[g.nodes[n]["lpmap"], n] = N.num_exp(N.I * Num.lift(g.nodes[n].get("phase_storage", 0)))
    return v


def mul(*ms):
    """product, leftmost applied last"""
    out = ms[-1]
    for a in reversed(ms[:-1]):
        d = len(a)
        out = np.array([[sum((a[i, k] * out[k, j] for k in range(d) if not a[i, k].is_zero() and not out[k, j].is_zero()), N.ZERO) for j in range(len(out[0]))] for i in range(d)],
                       dtype=object)
    return out


def dag(m):
    return np.array([[m[j, i].conjugate() for j in range(len(m))] for i in range(len(m))], dtype=object)


def eye(d):
    return np.array([[N.ONE if i == j else N.ZERO for j in range(d)] for i in range(d)], dtype=object)


def seq(gates, d):
    """the product of gates in the order they are applied"""
    return mul(*[matrix(g) for g in reversed(gates)], eye(d))


def same(vc, a, b, label):
    for i in range(len(a)):
        for j in range(len(a[0])):
            vc.ensure_eq(a[i, j], b[i, j], label)


def couplings(g):
    """the physical couplings with their data"""
    return sorted((tuple(sorted((g.nodes[a]["lpmap"], g.nodes[b]["lpmap"]))), sorted(x.items())) for a, b, x in g.edges(data=True))


def level_phases(g, d):
    return {g.nodes[n]["lpmap"]: g.nodes[n].get("phase_storage") for n in range(d)}


def levels(g, d):
    return {g.nodes[n]["lpmap"]: g.nodes[n]["level"] for n in range(d)}


def regs():
    """regulate_theta, new_mod and pi_mod by their contracts (C10): the same angle up to a full turn of the rotation.  A concrete angle is regulated by the real function."""
    out = []

    def put(x, name, f):
        out.append((x, name, getattr(x, name)))
        setattr(x, name, f)
    for n in ("r", "rz", "virt_rz"):
        x = loader.load("quantum_circuit.gates." + n)
        if "regulate_theta" in vars(x):
            real = x.regulate_theta
            put(x, "regulate_theta", lambda t, real=real: real(t) if Num.lift(t).as_fraction() is not None or not Num.lift(t / N.PI).atoms() else t)
    for n in ("new_mod", "pi_mod"):
        for x in users(n):
            real = getattr(x, n)

            def f(a, *r, real=real):
                if not Num.lift(Num.lift(a) / N.PI).atoms():
                    return real(a, *r)
                return fl(Num.lift(a) + 2 * N.PI * Num.var(C.ctx().fresh("turns"), "int"))
            put(x, n, f)
    return out


def users(name):
    out = []
    for path in ("compiler.onedit.local_operation_swap.swap_routine", "compiler.onedit.mapping_aware_transpilation.phy_local_qr_decomp",
                 "compiler.onedit.mapping_aware_transpilation.phy_local_adaptive_decomp", "compiler.onedit.mapping_un_aware_transpilation.log_local_qr_decomp"):
        m = loader.load(path)
        if name in vars(m):
            out.append(m)
    return out


def restore(out):
    for x, n, f in reversed(out):
        setattr(x, n, f)


def angle(vc, name):
    return fl(vc.angle(name))


def note(**kw):
    C.ctx().inputs.update(kw)


# ------------------------------------------------------------------ the graph

for d in (2, 3, 4):
    @ob(P, f"LevelGraph.{d}", [F + "__init__", F + "logic_physical_map", F + "define__states", F + "phase_storing_setup", F + "fst_inode", F + "fst_rnode", F + "is_irnode", F + "is_inode",
                               F + "log_phy_map", F + "distance_nodes", F + "get_edge_sensitivity", F + "get_node_sensitivity_cost"], bound=f"every connected graph with {d} levels", case="swap")
    def graph_init(vc, d=d):
        for edges in graphs(d):
            for mp in itertools.permutations(range(d)):
                for start in ((0,), (d - 1,), (0, 1)):
                    note(d=d, edges=[[a, b, 2 + i] for i, (a, b) in enumerate(edges)], map=list(mp), swaps=[], start=list(start))
                    g = build(d, edges, mp, None, start)
                    vc.ensure(list(g.nodes) == list(range(d)) and g.log_phy_map == list(mp), "levels in order, each on its physical level")
                    vc.ensure({frozenset(e) for e in g.edges} == {frozenset(e) for e in edges}, "the couplings given")
                    vc.ensure(all(g.is_inode(n) == (n in start) and g.is_irnode(n) == (n not in start) for n in range(d)), "levels that can be reached at the start, and the others")
                    vc.ensure(g.fst_inode == min(start) and (len(start) == d or g.fst_rnode == min(n for n in range(d) if n not in start)), "first of each kind")
                    for i, (a, b) in enumerate(edges):
                        vc.ensure(g.get_edge_sensitivity(a, b) == 2 + i and g.distance_nodes(a, b) == 1, "a coupling and its sensitivity")
                    for n in range(d):
                        vc.ensure(g.get_node_sensitivity_cost(n) == sum(2 + i for i, e in enumerate(edges) if n in e), "the sensitivities of the couplings of a level")
                    vc.ensure(all("phase_storage" not in g.nodes[n] for n in range(d)), "no pending phases before the setup")
                    g.phase_storing_setup()
                    vc.ensure(all(g.nodes[n]["phase_storage"] == 0 for n in range(d)), "no phase pending after the setup")
                    g.nodes[0]["phase_storage"] = 1.5
                    g.phase_storing_setup()
                    vc.ensure(g.nodes[0]["phase_storage"] == 1.5, "a phase already pending stays")

    @ob(P, f"swap_nodes.{d}", [F + "swap_nodes", F + "swap_node_attributes", F + "update_list", F + "index", F + "deep_copy_func"], bound=f"every connected graph with {d} levels",
        case="swap", budget=200)
    def swap(vc, d=d):
        """a step from an arbitrary placement with arbitrary phases: any sequence of exchanges keeps the relabelling"""
        ph = [vc.angle(f"p{n}_") for n in range(d)]
        for edges in graphs(d):
            for mp in (list(itertools.permutations(range(d))) if d < 4 else [tuple(range(4)), (2, 0, 3, 1)]):
                for phased in (True, False):
                    for a, b in itertools.permutations(range(d), 2):
                        note(d=d, edges=[[x, y, 2 + i] for i, (x, y) in enumerate(edges)], map=list(mp), swaps=[[a, b]], start=[0])
                        g = build(d, edges, mp, ph if phased else None)
                        before = (couplings(g), level_phases(g, d), levels(g, d), g.log_phy_map, sorted(map(sorted, g.edges)))
                        h = g.swap_nodes(a, b)
                        want = list(mp)
                        want[a], want[b] = want[b], want[a]
                        vc.ensure(list(h.nodes) == list(range(d)), "the same logical levels")
                        vc.ensure(h.log_phy_map == want, "the two levels exchange their physical levels, the others stay")
                        vc.ensure(couplings(h) == before[0], "the same physical couplings with the same data")
                        lp = level_phases(h, d)
                        vc.ensure(all((lp[x] is None) == (not phased) and (not phased or Num.lift(lp[x]).key() == Num.lift(before[1][x]).key()) for x in lp), "the same phases on the physical levels")
                        vc.ensure(levels(h, d) == before[2], "the same physical levels reached at the start")
                        vc.ensure(h is not g and before[2:] == (levels(g, d), g.log_phy_map, sorted(map(sorted, g.edges))), "the graph itself is not modified")
                        h.nodes[a]["phase_storage"] = 99
                        h[h.nodes and next(iter(h.edges))[0]][next(iter(h.edges))[1]]["sensitivity"] = 77
                        vc.ensure(couplings(g) == before[0] and all(not isinstance(v, int) or v != 99 for v in level_phases(g, d).values()), "the two graphs share nothing")

    @ob(P, f"swap_node_attr_simple.{d}", [F + "swap_node_attr_simple"], bound=f"{d} levels, arbitrary phases", case="swap")
    def swap_simple(vc, d=d):
        ph = [vc.angle(f"p{n}_") for n in range(d)]
        for a, b in itertools.permutations(range(d), 2):
            g = build(d, [(i, i + 1) for i in range(d - 1)], range(d), ph)
            g.swap_node_attr_simple(a, b)
            for n in range(d):
                vc.ensure_eq(g.nodes[n]["phase_storage"], ph[b if n == a else a if n == b else n], "the phases of the two levels are exchanged, the others stay")
            vc.ensure(g.log_phy_map == list(range(d)), "the levels stay in place")

    @ob(P, f"get_vrz_gates.{d}", [F + "get_vrz_gates", F + "set_circuit", F + "set_qudits_index"], bound=f"{d} levels", case="swap")
    def vrz(vc, d=d):
        """one phase gate for every pending phase, on the physical level"""
        rg = regs()
        try:
            ph = [vc.angle(f"p{n}_") for n in range(d)]
            for p in ph:
                vc.assume(p > N.ONE / 10)
                vc.assume(p < 6)
            pend = [bool(vc.choose(f"pending{n}", 2)) for n in range(d)]
            mp = [(i + 1) % d for i in range(d)]
            g = build(d, [(i, i + 1) for i in range(d - 1)], mp, [p if x else 0 for p, x in zip(map(fl, ph), pend)])
            vc.ensure(g.get_vrz_gates() == [], "no circuit, no gates")
            c = FakeCircuit([2, d])
            g.set_circuit(c)
            g.set_qudits_index(1)
            gs = g.get_vrz_gates()
            want = [(mp[n], ph[n]) for n in range(d) if pend[n]]
            vc.ensure(len(gs) == len(want) and all(x.lev_a == w[0] and x.target_qudits == 1 and x.dimensions == d for x, w in zip(gs, want)), "a phase gate on every physical level with a phase")
            for x, w in zip(gs, want):
                vc.ensure_eq(x.phi, w[1], "with the pending phase")
        finally:
            restore(rg)


# ------------------------------------------------------------------ pulses and phases

def r_gate(d, a, b, t, p, q=0):
    return loader.load("quantum_circuit.gates").R(FakeCircuit([2] * q + [d]), "R", q, [a, b, t, p], d)


for d in (2, 3, 4):
    @ob(P, f"graph_rule_ongate.{d}", [RF + "graph_rule_ongate", RF + "find_logic_from_phys"], bound=f"{d} levels, arbitrary phases and angles", case="rule")
    def ongate(vc, d=d):
        """the rotation in the frame of the pending phases: V0^-1 R' V0 = R, where V0 is the diagonal of the phases"""
        rg = regs()
        try:
            ph = [angle(vc, f"p{n}_") for n in range(d)]
            t, p = angle(vc, "theta"), angle(vc, "phi")
            for mp in itertools.permutations(range(d)):
                for a, b in itertools.permutations(range(d), 2):
                    note(d=d, edges=[[i, i + 1, 2] for i in range(d - 1)], map=list(mp), phases=list(ph), gate=[a, b, t, p], rule="ongate")
                    g = build(d, [(i, i + 1) for i in range(d - 1)], mp, ph)
                    r = r_gate(d, a, b, t, p, 1)
                    x = mod().graph_rule_ongate(r, g)
                    vc.ensure(x.target_qudits == 1 and {x.lev_a, x.lev_b} == {a, b} and x.parent_circuit is r.parent_circuit, "on the same levels of the same qudit")
                    v = diag_phases(g, d)
                    same(vc, mul(matrix(x), v), mul(v, matrix(r)), "the pending phases are taken into account")
                    for n in range(d):
                        vc.ensure_eq(g.nodes[n]["phase_storage"], ph[n], "the graph is not modified")
            h = build(d, [(i, i + 1) for i in range(d - 1)], range(d))
            vc.ensure(mod().graph_rule_ongate(r, h) is r, "a graph without pending phases: the gate itself")
        finally:
            restore(rg)

    @ob(P, f"graph_rule_update.{d}", [RF + "graph_rule_update", RF + "find_logic_from_phys"], bound=f"{d} levels, arbitrary phases and phase of the pulse", case="rule")
    def update(vc, d=d):
        """given the pulse back, R(theta, -phi), of a pi pulse R(theta, phi): the pulse exchanges its levels up to phases, which are stored"""
        rg = regs()
        try:
            ph = [angle(vc, f"p{n}_") for n in range(d)]
            p = angle(vc, "phi")
            for mp in itertools.permutations(range(d)):
                for a, b in itertools.permutations(range(d), 2):
                    for sign in (1, -1):
                        note(d=d, edges=[[i, i + 1, 2] for i in range(d - 1)], map=list(mp), phases=list(ph), gate=[a, b, sign * float(np.pi), p], rule="update")
                        g = build(d, [(i, i + 1) for i in range(d - 1)], mp, ph)
                        v = diag_phases(g, d)
                        r = r_gate(d, a, b, fl(sign * N.PI), p)
                        mod().graph_rule_update(r_gate(d, a, b, fl(sign * N.PI), fl(-p)), g)
                        x = eye(d)
                        x[[a, b]] = x[[b, a]]
                        same(vc, mul(matrix(r), v), mul(diag_phases(g, d), x), "the phases of the pulse are stored")
                        vc.ensure(g.log_phy_map == list(mp), "the levels stay in place")
            h = build(d, [(i, i + 1) for i in range(d - 1)], range(d))
            mod().graph_rule_update(r, h)
            vc.ensure(all("phase_storage" not in h.nodes[n] for n in range(d)), "a graph without pending phases stays so")
        finally:
            restore(rg)


def diag_phases(g, d):
    """the pending phases on the physical levels"""
    v = eye(d)
    for n in range(d):
        x = g.nodes[n]["lpmap"]
        v[x, x] = N.num_exp(N.I * Num.lift(g.nodes[n]["phase_storage"]))
    return v


@ob(P, "graph_rule_update.other", [RF + "graph_rule_update"], bound="three levels", case="rule")
def update_other(vc):
    """a rotation that is not a pi pulse stores nothing"""
    rg = regs()
    try:
        t = angle(vc, "theta")
        vc.assume(abs(abs(Num.lift(t)) - N.PI) > N.ONE / 10)
        ph = [angle(vc, f"p{n}_") for n in range(3)]
        g = build(3, [(0, 1), (1, 2)], (1, 0, 2), ph)
        mod().graph_rule_update(r_gate(3, 0, 1, t, angle(vc, "phi")), g)
        for n in range(3):
            vc.ensure_eq(g.nodes[n]["phase_storage"], ph[n], "nothing is stored")
    finally:
        restore(rg)


# ------------------------------------------------------------------ routing

class Cost:
    """the cost function by its contract: a non-negative number (C10)"""

    def __init__(self, vc):
        self.vc, self.calls = vc, 0

    def __call__(self, gate, g):
        self.calls += 1
        return fl(self.vc.real(f"cost{self.calls}_"))


def routed(vc, d, edges, mp, phases, s, t, theta, phi):
    """cost_calculator and what its callers do with the result; returns pulses, rotation, placement before and after"""
    m = mod()
    old = m.rotation_cost_calc
    m.rotation_cost_calc = Cost(vc)
    try:
        g = build(d, edges, mp, phases)
        r = r_gate(d, s, t, theta, phi)
        cost, pulses, h, cost_pulses, gate_cost = m.cost_calculator(r, g, 3)
        vc.ensure_eq(cost, (Num.lift(cost_pulses) + gate_cost) * 3, "the cost is the sum of the costs times the number of entries")
        return r, g, pulses, h
    finally:
        m.rotation_cost_calc = old


for d, tier in ((2, "quick"), (3, "quick"), (4, "quick"), (5, "thorough")):
    @ob(P, f"cost_calculator.{d}", [RF + "cost_calculator", RF + "route_states2rotate_basic", RF + "gate_chain_condition"], tier=tier,
        bound=f"every labelled tree with {d} levels, {'every placement' if d < 4 else 'three placements'}, every pair of levels, arbitrary phases and angles", case="route", budget=300)
    def route(vc, d=d):
        """the pulses act on coupled levels and move the two levels to coupled physical levels; the placement returned is where they are"""
        rg = regs()
        try:
            ph = [angle(vc, f"p{n}_") for n in range(d)]
            theta, phi = angle(vc, "theta"), angle(vc, "phi")
            for edges in trees(d):
                for mp in maps(d):
                    for phases in (ph, None):
                        for s, t in itertools.permutations(range(d), 2):
                            note(d=d, edges=[[x, y, 2 + i] for i, (x, y) in enumerate(edges)], map=list(mp), phases=list(phases or []), gate=[s, t, theta, phi])
                            r, g, pulses, h = routed(vc, d, edges, mp, phases, s, t, theta, phi)
                            phys = {frozenset((mp[a], mp[b])) for a, b in edges}
                            for x in pulses:
                                vc.ensure(frozenset((x.lev_a, x.lev_b)) in phys, "a pulse acts on coupled levels")
                                vc.ensure(x.target_qudits == 0 and x.control_info["controls"] is None, "a pulse acts on the qudit of the gate")
                            hs, ht = h.nodes[s]["lpmap"], h.nodes[t]["lpmap"]
                            vc.ensure(frozenset((hs, ht)) in phys, "the two levels end on coupled physical levels")
                            vc.ensure(couplings(h) == couplings(g) and g.log_phy_map == list(mp), "the same physical couplings; the graph given is not modified")
                            a = mul(seq(pulses, d), placement(g, d))
                            w = np.array([[N.ONE if h.nodes[j]["lpmap"] == i else N.ZERO for j in range(d)] for i in range(d)], dtype=object)
                            for i in range(d):
                                for j in range(d):
                                    vc.ensure(a[i, j].is_zero() == w[i, j].is_zero(), "the pulses exchange levels as the placement returned says")
        finally:
            restore(rg)

    @ob(P, f"routing undone.{d}", [RF + "cost_calculator", RF + "gate_chain_condition", RF + "route_states2rotate_basic"], tier=tier,
        bound=f"every labelled tree with {d} levels, {'every placement' if d < 4 else 'three placements'}, every pair of levels, arbitrary angles", case="route", budget=300)
    def undone(vc, d=d):
        """pulses, the rotation on the coupled levels, the pulses undone: the rotation on the original levels"""
        rg = regs()
        try:
            theta, phi = angle(vc, "theta"), angle(vc, "phi")
            for edges in trees(d):
                for mp in maps(d):
                    for phases in ([0] * d, None):
                        for s, t in itertools.combinations(range(d), 2):
                            note(d=d, edges=[[x, y, 2 + i] for i, (x, y) in enumerate(edges)], map=list(mp), phases=list(phases or []), gate=[s, t, theta, phi])
                            r, g, pulses, h = routed(vc, d, edges, mp, phases, s, t, theta, phi)
                            x = physical(h, d, s, t, theta, phi, pulses)
                            back = [r_gate(d, y.lev_a, y.lev_b, y.theta, -y.phi) for y in reversed(pulses)]
                            v = placement(g, d)
                            same(vc, mul(seq([*pulses, x, *back], d), v), mul(v, matrix(r)), "the rotation on the original levels")
        finally:
            restore(rg)

    @ob(P, f"routing kept.{d}", [RF + "cost_calculator", RF + "gate_chain_condition", RF + "graph_rule_ongate", RF + "graph_rule_update", RF + "route_states2rotate_basic"], tier=tier,
        bound=f"every labelled tree with {d} levels, {'every placement' if d < 4 else 'three placements'}, every pair of levels, arbitrary phases and angles", case="route", budget=300)
    def kept(vc, d=d):
        """pulses and the rotation, the new placement with its phases: the rotation on the original levels followed by the placement"""
        rg = regs()
        m = mod()
        try:
            ph = [angle(vc, f"p{n}_") for n in range(d)]
            theta, phi = angle(vc, "theta"), angle(vc, "phi")
            for edges in trees(d):
                for mp in maps(d):
                    for s, t in itertools.combinations(range(d), 2):
                        note(d=d, edges=[[x, y, 2 + i] for i, (x, y) in enumerate(edges)], map=list(mp), phases=list(ph), gate=[s, t, theta, phi])
                        r, g, pulses, h = routed(vc, d, edges, mp, ph, s, t, theta, phi)
                        x = m.graph_rule_ongate(physical(h, d, s, t, theta, phi, pulses), h)
                        for y in pulses:
                            m.graph_rule_update(r_gate(d, y.lev_a, y.lev_b, y.theta, -y.phi), h)
                        same(vc, mul(seq([*pulses, x], d), placement(g, d)), mul(placement(h, d), matrix(r)), "the rotation followed by the new placement")
        finally:
            restore(rg)


def physical(h, d, s, t, theta, phi, pulses):
    """the rotation on the physical levels, as the callers build it"""
    a, b = h.nodes[s]["lpmap"], h.nodes[t]["lpmap"]
    return mod().gate_chain_condition(pulses, r_gate(d, a, b, theta, fl(-Num.lift(phi)) if a > b else phi))


def maps(d):
    if d < 4:
        return list(itertools.permutations(range(d)))
    return [tuple(range(d)), tuple(reversed(range(d))), tuple((2 * i + 1) % d if d % 2 else (i + 1) % d for i in range(d))]
