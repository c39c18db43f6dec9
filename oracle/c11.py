"""C11 at run time: random level graphs, exchanges, phases and routed rotations."""
from __future__ import annotations

import numpy as np

from .base import case, expect, gen
from .comp import graph, random_map, random_tree


def with_phases(d, map, edges, phases=None, start=(0,)):
    g = graph(d, map, edges, start)
    if phases:
        g.phase_storing_setup()
        for n in range(d):
            g.nodes[n]["phase_storage"] = float(phases[n])
    return g


def placement(g, d):
    v = np.zeros((d, d), dtype=complex)
    for n in range(d):
        v[g.nodes[n]["lpmap"], n] = np.exp(1j * g.nodes[n].get("phase_storage", 0))
    return v


def diag(g, d):
    return np.diag([np.exp(1j * p) for _, p in sorted((g.nodes[n]["lpmap"], g.nodes[n]["phase_storage"]) for n in range(d))])


def couplings(g):
    return sorted((sorted((g.nodes[a]["lpmap"], g.nodes[b]["lpmap"])), sorted(x.items())) for a, b, x in g.edges(data=True))


def physical(g, d):
    return sorted((g.nodes[n]["lpmap"], g.nodes[n].get("phase_storage"), g.nodes[n]["level"]) for n in range(d))


def r_gate(d, a, b, t, p):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.quantum_circuit.gates import R
    return R(QuantumCircuit(2, [2, d], 0), "R", 1, [a, b, float(t), float(p)], d)


def seq(gates, d):
    m = np.eye(d, dtype=complex)
    for g in gates:
        m = g.to_matrix(identities=0) @ m
    return m


@case("swap")
def swap(d, edges, map, swaps, start=(0,), phases=None, **_):
    g = with_phases(d, map, edges, phases, start)
    expect(g.log_phy_map == list(map) and [n for n in range(d) if g.is_inode(n)] == sorted(start), "the graph")
    expect(g.fst_inode == min(start) and (len(start) == d or g.fst_rnode == min(set(range(d)) - set(start))), "first levels")
    expect(all(g.get_node_sensitivity_cost(n) == sum(e[2] for e in edges if n in e[:2]) for n in range(d)), "sensitivities")
    want = list(map)
    c, p = couplings(g), physical(g, d)
    for a, b in swaps:
        before = list(want)
        h = g.swap_nodes(a, b)
        want[a], want[b] = want[b], want[a]
        expect(list(h.nodes) == list(range(d)) and h.log_phy_map == want, f"levels after exchanging {a} and {b}: {h.log_phy_map} instead of {want}")
        expect(couplings(h) == c, "the physical couplings change")
        expect(physical(h, d) == p, "the phases of the physical levels change")
        expect(g.log_phy_map == before and couplings(g) == c and physical(g, d) == p, "the graph itself changes")
        g = h
    if phases:
        from mqt.qudits.quantum_circuit import QuantumCircuit
        expect(g.get_vrz_gates() == [], "gates without a circuit")
        g.set_circuit(QuantumCircuit(2, [2, d], 0))
        g.set_qudits_index(1)
        got = seq(g.get_vrz_gates(), d)
        expect(np.allclose(got, diag(g, d).conj(), atol=2e-3), "the phase gates are not the pending phases")


@case("rule")
def rule(d, edges, map, phases, gate, rule, **_):
    from mqt.qudits.compiler.onedit.local_operation_swap.swap_routine import graph_rule_ongate, graph_rule_update
    g = with_phases(d, map, edges, phases)
    a, b, t, p = gate
    v = diag(g, d)
    if rule == "ongate":
        r = r_gate(d, a, b, t, p)
        x = graph_rule_ongate(r, g)
        expect(np.allclose(x.to_matrix(identities=0) @ v, v @ r.to_matrix(identities=0), atol=1e-7), "the pending phases are not taken into account")
        expect(np.allclose(diag(g, d), v), "the graph changes")
        return
    graph_rule_update(r_gate(d, a, b, t, -float(p)), g)
    expect(g.log_phy_map == list(map), "the levels move")
    if abs(abs(t) - np.pi) < 1e-9:
        x = np.eye(d)
        x[[a, b]] = x[[b, a]]
        expect(np.allclose(r_gate(d, a, b, t, p).to_matrix(identities=0) @ v, diag(g, d) @ x, atol=1e-7), "the phases of the pulse are not stored")
    else:
        expect(np.allclose(diag(g, d), v), "a rotation that is no pi pulse changes the phases")


@case("route")
def route(d, edges, map, gate, phases=None, **_):
    from mqt.qudits.compiler.onedit.local_operation_swap.swap_routine import cost_calculator, gate_chain_condition, graph_rule_ongate, graph_rule_update
    g = with_phases(d, map, edges, phases)
    s, t, theta, phi = gate
    r = r_gate(d, s, t, theta, phi)
    before = (couplings(g), physical(g, d))
    cost, pulses, h, cp, cg = cost_calculator(r, g, 2)
    expect(abs(cost - 2 * (cp + cg)) < 1e-9 and cp >= 0 and cg >= 0, "the cost")
    expect((couplings(g), physical(g, d)) == before and g.log_phy_map == list(map), "the graph given changes")
    phys = {frozenset((map[e[0]], map[e[1]])) for e in edges}
    a, b = h.nodes[s]["lpmap"], h.nodes[t]["lpmap"]
    expect(frozenset((a, b)) in phys and all(frozenset((x.lev_a, x.lev_b)) in phys for x in pulses), "a rotation on levels that are not coupled")
    if s > t:
        return
    x = gate_chain_condition(pulses, r_gate(d, a, b, theta, -phi if a > b else phi))
    v, m = placement(g, d), r.to_matrix(identities=0)
    if not phases or not any(phases):
        back = [r_gate(d, y.lev_a, y.lev_b, y.theta, -y.phi) for y in reversed(pulses)]
        expect(np.allclose(seq([*pulses, x, *back], d) @ v, v @ m, atol=1e-7), "the routed rotation is not the rotation on the original levels")
    if phases:
        x = graph_rule_ongate(x, h)
        for y in pulses:
            graph_rule_update(r_gate(d, y.lev_a, y.lev_b, y.theta, -y.phi), h)
        expect(couplings(h) == before[0], "the physical couplings change")
        expect(np.allclose(seq([*pulses, x], d) @ v, placement(h, d) @ m, atol=1e-7), "the placement after the routed rotation")


@gen("C11")
def g(r, budget):
    while True:
        d = r.randint(2, 7)
        edges = random_tree(r, d)
        if r.random() < 0.4 and d > 2:
            a, b = r.sample(range(d), 2)
            if not any({a, b} == set(e[:2]) for e in edges):
                edges = [*edges, [a, b, r.randint(1, 4)]]
        mp = random_map(r, d)
        ph = r.choice([None, [0.0] * d, [r.uniform(-7, 7) for _ in range(d)], [r.uniform(-7, 7) for _ in range(d)]])
        yield "swap", dict(d=d, edges=edges, map=mp, swaps=[r.sample(range(d), 2) for _ in range(r.randint(1, 5))], start=sorted(r.sample(range(d), r.choice([1, 1, min(2, d)]))), phases=ph)
        a, b = r.sample(range(d), 2)
        p = [r.uniform(-7, 7) for _ in range(d)]
        t = r.choice([np.pi, -np.pi, r.uniform(-7, 7)])
        if abs(abs(t) - np.pi) > 0.1 or abs(t) == np.pi:
            yield "rule", dict(d=d, edges=edges, map=mp, phases=p, gate=[a, b, t, r.uniform(-7, 7)], rule=r.choice(["ongate", "update"]))
        s = r.sample(range(d), 2)
        if r.random() < 0.8:
            s.sort()
        yield "route", dict(d=d, edges=edges, map=mp, phases=ph, gate=[*s, r.uniform(-7, 7), r.uniform(-7, 7)])
