"""C09: single-qudit compilation.  The QR passes run on an arbitrary matrix (ghost.py) with the real routing on small graphs; the adaptive passes by one step of the
search from an arbitrary node, the extraction of the phases from an arbitrary path, and the path by C20.  Cost functions, angle arithmetic and R by their contracts."""
from __future__ import annotations

import itertools
import types

import numpy as np

from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import FakeCircuit, ob
from pyvc.builtins_ import fl
from pyvc.num import Num

from .c11 import Cost, angle, build, dag, eye, maps, mod as routing, mul, note, placement, regs, restore, same, seq, trees
from .c15 import matrix
from .ghost import Ghost, NP, lazy

P = "C09"
LQ = "compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py:"
PQ = "compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py:"
LA = "compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py:"
PA = "compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py:"


def load(f):
    return loader.load(f.split(".py")[0].replace("/", "."))


class Setup:
    """the modules of a pass with R, the angle arithmetic, the cost function and numpy on the ghost matrix by their contracts"""

    def __init__(self, vc, mods, np_proxy):
        self.undo = []
        self.regs = regs()
        R = loader.load("quantum_circuit.gates").R
        self.put(R, "to_matrix", lambda s, identities=0: matrix(s))
        V = loader.load("quantum_circuit.gates").VirtRz
        self.put(V, "to_matrix", lambda s, identities=0: matrix(s))
        self.put(R, "cost", property(lambda s: fl(vc.real("rcost"))))
        self.put(routing(), "rotation_cost_calc", Cost(vc))
        for m in mods:
            self.put(m, "np", np_proxy)

    def put(self, o, n, v):
        self.undo.append((o, n, vars(o).get(n, self)))
        setattr(o, n, v)

    def close(self):
        for o, n, v in reversed(self.undo):
            if v is self:
                delattr(o, n)
            else:
                setattr(o, n, v)
        restore(self.regs)


class FakeGate:
    def __init__(self, u, d, q):
        self.u, self.dimensions, self.target_qudits = u, d, q
        self.parent_circuit = FakeCircuit([2] * q + [d])
        GT = loader.load("quantum_circuit.components.extensions.gate_types").GateTypes
        self.gate_type = GT.SINGLE

    def to_matrix(self, identities=0):
        return self.u


def final_phases(vc, d, pattern):
    """the phases left on the diagonal; pattern: the sign of the phase of each level, or 0"""
    out = []
    for i in range(d):
        a = vc.real(f"delta{i}_") if pattern[i] else N.ZERO
        if pattern[i]:
            vc.assume(a > N.ONE / 100)
            a = a if pattern[i] > 0 else -a
        out.append(a)
    return out


def diagonal(d, phases):
    m = eye(d)
    for i in range(d):
        m[i, i] = N.num_exp(N.I * Num.lift(phases[i]))
    return m


def perm(mp):
    d = len(mp)
    return np.array([[N.ONE if mp[j] == i else N.ZERO for j in range(d)] for i in range(d)], dtype=object)


def inverse(np_proxy, phases, d):
    """the inverse of the matrix, as the product of what was multiplied from the left and the inverse of the diagonal"""
    return mul(dag(diagonal(d, phases)), *reversed(np_proxy.final.history), eye(d))


def qr(vc, which, d, edges, mp, pending, pattern, as_pass):
    f = PQ if which == "phy" else LQ
    m = load(f)
    u = lazy(vc, d, d > 3)
    delta = final_phases(vc, d, pattern)
    proxy = NP(m.np, vc, u, delta)
    st = Setup(vc, [m], proxy)
    try:
        ph = [vc.real(f"p{n}_") if pending else N.ZERO for n in range(d)]
        for p in ph:
            if pending:
                vc.assume(p > N.ONE / 100)
                vc.assume(p < 6)
        g = build(d, edges, mp, [fl(p) for p in ph] if pending is not None else None)
        st.put(m, "new_mod", lambda a, *r: a)           # C10: an angle in the range stays
        q = 1
        gate = FakeGate(u, d, q)
        note(d=d, edges=[[a, b, 2 + i] for i, (a, b) in enumerate(edges)], map=list(mp), phases=list(ph) if pending is not None else None, which=which + "qr")
        nodes = {n: dict(x) for n, x in g.nodes(data=True)}
        v = perm(mp) if which == "phy" else eye(d)
        if as_pass:
            b = types.SimpleNamespace(energy_level_graphs=[None, g])
            p = (m.PhyLocQRPass if which == "phy" else m.LogLocQRPass)(b)
            got = p.transpile_gate(gate)
            vc.ensure(b.energy_level_graphs[1] is g, "the placement stays")
            want = mul(v, dag(inverse(proxy, delta, d)), dag(v))
        else:
            p = (m.PhyQrDecomp if which == "phy" else m.QrDecomp)(gate, g)
            got, cost, total = p.execute()
            z = eye(d)
            for n in range(d):
                x = mp[n] if which == "phy" else n
                z[x, x] = N.num_exp(-N.I * Num.lift(ph[n]))
            want = mul(v, inverse(proxy, delta, d), dag(v), z)
        for x in got:
            vc.ensure(x.target_qudits == q and x.dimensions == d and x.control_info["controls"] is None, "gates on the qudit, without controls")
            if which == "phy" and type(x).__name__ == "R":
                vc.ensure(frozenset((x.lev_a, x.lev_b)) in {frozenset((mp[a], mp[b])) for a, b in edges}, "rotations act on coupled levels")
        same(vc, seq(got, d), want, "the sequence is the unitary in the placement" if as_pass else "the sequence inverts the unitary")
        for n in range(d):
            vc.ensure(g.nodes[n]["lpmap"] == mp[n] and set(g.nodes[n]) == set(nodes[n]), "the graph keeps its placement")
            if pending is not None:
                vc.ensure((N.num_exp(N.I * Num.lift(g.nodes[n]["phase_storage"])) - N.num_exp(N.I * Num.lift(ph[n]))).is_zero(), "the graph keeps its pending phases")
    finally:
        st.close()


for which in ("phy", "log"):
    cls = (PQ + "PhyQrDecomp.", PQ + "PhyLocQRPass.") if which == "phy" else (LQ + "QrDecomp.", LQ + "LogLocQRPass.")
    for d in (2, 3, 4):
        for k, edges in enumerate(trees(d) if which == "phy" else trees(d)[:1]):
            for mp in ((itertools.permutations(range(d)) if d < 4 else maps(d)[1:]) if which == "phy" else [list(reversed(range(d)))]):
                tier = "quick" if d < 4 or k in (0, 6, 11) else "thorough"
                b = f"{d} levels, this coupling tree and placement; arbitrary matrix ({'every pattern of zeros met' if d < 4 else 'at most one zero met'}), phases and angles"

                @ob(P, f"{which} QR pass.{d}.{k}.{list(mp)}", [cls[0] + "__init__", cls[0] + "execute", cls[1] + "transpile_gate"], bound=b, case="single", tier=tier, budget=400)
                def qr_pass(vc, which=which, d=d, edges=edges, mp=tuple(mp)):
                    s = 1 - 2 * vc.choose("sign", 2)
                    qr(vc, which, d, edges, mp, None, [s if i % 2 else -s for i in range(d)], True)

                @ob(P, f"{which} QR.{d}.{k}.{list(mp)}", [cls[0] + "__init__", cls[0] + "execute"], bound=b, case="single", tier="quick" if d < 4 else "thorough", budget=400)
                def qr_exec(vc, which=which, d=d, edges=edges, mp=tuple(mp)):
                    n = vc.choose("pattern", d + 2)
                    qr(vc, which, d, edges, mp, n == d + 1, [0 if i == n else 1 - 2 * ((i + n) % 2) for i in range(d)], False)


# ------------------------------------------------------------------ adaptive search: one step from an arbitrary node

class Node:
    """a node of the search tree by its contract (C20): add appends a child"""

    def __init__(self, u, graph, costs, key=0):
        self.u_of_level, self.graph, self.key = u, graph, key
        self.current_cost, self.current_decomp_cost, self.max_cost = costs
        self.finished, self.children, self.rotation, self.PI_PULSES = False, [], None, []

    def add(self, new_key, rotation, u_of_level, graph_current, current_cost, current_decomp_cost, max_cost, pi_pulses):
        n = Node(u_of_level, graph_current, (current_cost, current_decomp_cost, max_cost), new_key)
        n.rotation, n.PI_PULSES = rotation, pi_pulses
        self.children.append(n)


def dense(vc, d, zeros):
    """a matrix with the given zeros, all other entries arbitrary and not zero"""
    g = lazy(vc, d)
    g.reads = [0, -1]
    for i, j in zeros:
        g.cells[i][j].zero = True
        g.cells[i][j].value = N.ZERO
    for row in g.cells:
        for c in row:
            c.read(g)
    g.diagonal = False
    return g


def adaptive(vc, which, u, graph, d, cost_limit):
    f = PA if which == "phy" else LA
    m = load(f)
    gate = FakeGate(u, d, 1)
    cls = m.PhyAdaptiveDecomposition if which == "phy" else m.LogAdaptiveDecomposition
    return m, cls, cls(gate, graph, cost_limit, d)


def step(vc, which, d, edges, mp, zeros, within):
    u = dense(vc, d, zeros)
    m = load(PA if which == "phy" else LA)
    proxy = NP(m.np, vc, u, None, "adaptive")
    st = Setup(vc, [m], proxy)
    try:
        ph = [fl(vc.angle(f"p{n}_")) for n in range(d)]
        g = build(d, edges, mp, ph)
        note(d=d, edges=[[a, b, 2 + i] for i, (a, b) in enumerate(edges)], map=list(mp), phases=list(ph), which=which + "ada")
        _, cls, ada = adaptive(vc, which, u, g, d, (0, 0))
        limit = vc.real("limit")
        vc.assume(limit >= 0)
        m2 = routing()

        def cost(gate, placement_):
            x = vc.real(C.ctx().fresh("cost"))
            vc.assume(x >= 0)
            vc.assume(x * 99 + 1 < limit if within else x > limit + 1)
            return fl(x)
        st.put(m2, "rotation_cost_calc", cost)
        R = loader.load("quantum_circuit.gates").R
        st.put(R, "cost", property(lambda s: cost(s, None)))
        root = Node(u, g, (fl(N.ZERO), fl(N.ZERO), (fl(limit), fl(limit))), 5)
        below = []
        ada.dfs = lambda n, level=0: below.append(n)
        ada.TREE.global_id_counter = 7
        cls.dfs(ada, root, 3)
        vc.ensure(not root.finished, "a node that is not diagonal is not a solution")
        vc.ensure(len(below) == len(root.children) and all(a is b for a, b in zip(sorted(below, key=id), sorted(root.children, key=id))), "the search goes on at every child once")
        keys = [n.key for n in root.children]
        vc.ensure(len(set(keys)) == len(keys) and all(k > 7 for k in keys), "new keys")
        if not within:
            vc.ensure(not root.children, "no child above the cost limit")
        else:
            todo = [(r, c) for c in range(d) for r in reversed(range(c + 1, d)) if (r, c) not in zeros]
            if todo:
                r, c = todo[0]
                vc.ensure(any(n.u_of_level.cells[r][c].zero is True and all(n.u_of_level.cells[i][j] is u.cells[i][j] or (n.u_of_level.cells[i][j].zero and u.cells[i][j].zero) for i in range(d) if i not in (r - 1, r) for j in range(d))
                              for n in root.children), "the next step of the QR decomposition is among the children")
        for n in root.children:
            h = n.u_of_level.history
            vc.ensure(len(h) == 1 and h[0].shape == (d, d), "the matrix of the child is a rotation times the matrix of the node")
            vc.ensure(not n.finished and n.max_cost is root.max_cost, "a child is not finished and has the limits of its parent")
            if which == "phy":
                same(vc, mul(seq([*n.PI_PULSES, n.rotation], d), placement(g, d)), mul(placement(n.graph, d), h[0]), "pulses and rotation are the rotation followed by the placement of the child")
                phys = {frozenset((mp[a], mp[b])) for a, b in edges}
                for x in [*n.PI_PULSES, n.rotation]:
                    vc.ensure(frozenset((x.lev_a, x.lev_b)) in phys, "rotations act on coupled levels")
            else:
                same(vc, seq([*n.PI_PULSES, n.rotation], d), h[0], "the rotation of the child")
            for x in [*n.PI_PULSES, n.rotation]:
                vc.ensure(x.target_qudits == 1 and x.dimensions == d and x.control_info["controls"] is None, "gates on the qudit, without controls")
        for n in range(d):
            vc.ensure(g.nodes[n]["lpmap"] == mp[n], "the placement of the node stays")
            vc.ensure_eq(g.nodes[n]["phase_storage"], ph[n], "the phases of the node stay")
    finally:
        st.close()


for which in ("phy", "log"):
    F = PA + "PhyAdaptiveDecomposition." if which == "phy" else LA + "LogAdaptiveDecomposition."
    for d in (2, 3, 4):
        for k, edges in enumerate(trees(d) if which == "phy" else trees(d)[:1]):
            tier = "quick" if d < 4 or k in (0, 6, 11) else "thorough"

            @ob(P, f"{which} dfs.step.{d}.{k}", [F + "__init__", F + "dfs"], case="single", tier=tier, budget=300,
                bound=f"{d} levels, this coupling tree, every placement up to three levels (three for four); arbitrary entries with at most one zero below the diagonal, arbitrary phases")
            def dfs_step(vc, which=which, d=d, edges=edges):
                ms = list(maps(d)) if which == "phy" else [tuple(reversed(range(d)))]
                mp = ms[vc.choose("map", len(ms))]
                low = [(i, j) for i in range(d) for j in range(i + 1)]
                z = vc.choose("zero", len(low) + 1)
                step(vc, which, d, edges, mp, [low[z]] if z < len(low) else [], True)

        @ob(P, f"{which} dfs.limit.{d}", [F + "dfs"], case="single", bound=f"{d} levels, arbitrary costs above the limit", budget=100)
        def dfs_limit(vc, which=which, d=d):
            step(vc, which, d, trees(d)[0], tuple(range(d)), [], False)

        @ob(P, f"{which} dfs.finished.{d}", [F + "dfs"], case="single", bound=f"{d} levels")
        def dfs_finished(vc, which=which, d=d):
            """a diagonal matrix ends the search at this node"""
            u = dense(vc, d, [(i, j) for i in range(d) for j in range(d) if i != j])
            u.diagonal = True
            m = load(PA if which == "phy" else LA)
            st = Setup(vc, [m], NP(m.np, vc, u, None, "adaptive"))
            try:
                _, cls, ada = adaptive(vc, which, u, build(d, trees(d)[0], range(d)), d, (0, 0))
                root = Node(u, ada.graph, (0, 0, (1, 1)), 5)
                ada.dfs = lambda n, level=0: vc.fail("the search ends", "it goes on below a solution")
                try:
                    cls.dfs(ada, root)
                    vc.fail("the search ends at a solution")
                except loader.load("exceptions").SequenceFoundError:
                    pass
                vc.ensure(root.finished and not root.children, "the node is the solution")
            finally:
                st.close()

        @ob(P, f"{which} z_extraction.{d}", [F + "z_extraction"], case="single", bound=f"{d} levels, paths of one to three nodes; arbitrary rotations, phases", budget=200)
        def zext(vc, which=which, d=d):
            """the gates of the path, then the phases that are left: the path's product is D^-1 after the placement without phases"""
            n = vc.choose("pattern", d + 1)
            delta = final_phases(vc, d, [0 if i == n else 1 - 2 * ((i + n) % 2) for i in range(d)])
            u = dense(vc, d, [(i, j) for i in range(d) for j in range(d) if i != j])
            u.diagonal = True
            m = load(PA if which == "phy" else LA)
            st = Setup(vc, [m], NP(m.np, vc, u, delta, "adaptive"))
            try:
                st.put(m, "new_mod", lambda a, *r: a)
                ph = [vc.real(f"p{i}_") for i in range(d)]
                for p in ph:
                    vc.assume(p > N.ONE / 100)
                if vc.choose("no phase", 2):
                    ph[0] = N.ZERO
                mp = [(i + 1) % d for i in range(d)]
                g = build(d, trees(d)[0], mp, [fl(p) for p in ph])
                c = FakeCircuit([2, d])
                R = loader.load("quantum_circuit.gates").R
                k = vc.choose("nodes", 3)
                path = [types.SimpleNamespace(PI_PULSES=[], rotation="root", u_of_level=u)]
                for i in range(k):
                    gs = [R(c, "R", 1, [0, d - 1, fl(vc.angle(f"t{i}{j}_")), fl(vc.angle(f"f{i}{j}_"))], d) for j in range(1 + i)]
                    path.append(types.SimpleNamespace(PI_PULSES=gs[:-1], rotation=gs[-1], u_of_level=u))
                moves = [x for p in path[1:] for x in [*p.PI_PULSES, p.rotation]]
                _, cls, ada = adaptive(vc, which, u, g, d, (0, 0))
                prop = which == "phy" and bool(vc.choose("propagate", 2))
                got, h = ada.z_extraction(path, g, prop) if which == "phy" else ada.z_extraction(path, g)
                vc.ensure(h is g and g.log_phy_map == mp, "the placement")
                vc.ensure(len(got) >= len(moves) and all(a is b for a, b in zip(got, moves)), "the pulses and rotations of the path in order")
                z = eye(d)
                for i in range(d):
                    if which == "log":
                        z[i, i] = N.num_exp(-N.I * delta[i])
                    elif not prop:
                        z[mp[i], mp[i]] = N.num_exp(-N.I * (Num.lift(delta[i]) + ph[i]))
                same(vc, seq(got[len(moves):], d), z, "the phases left are undone on the physical levels")
                for i in range(d):
                    left = Num.lift(ph[i]) + delta[i] if prop else N.ZERO if which == "phy" else ph[i]
                    vc.ensure((N.num_exp(N.I * Num.lift(g.nodes[i]["phase_storage"])) - N.num_exp(N.I * Num.lift(left))).is_zero(), "the phases that stay pending")
                for x in got:
                    vc.ensure(x.target_qudits == 1 and x.dimensions == d, "gates on the qudit")
            finally:
                st.close()

    @ob(P, f"{which} z_extraction.not diagonal", [F + "z_extraction"], case="single", bound="three levels")
    def zext_bad(vc, which=which):
        """a path that does not end in a diagonal matrix is an error"""
        u = dense(vc, 3, [])
        m = load(PA if which == "phy" else LA)
        st = Setup(vc, [m], NP(m.np, vc, u, None, "adaptive"))
        try:
            g = build(3, trees(3)[0], range(3))
            _, cls, ada = adaptive(vc, which, u, g, 3, (0, 0))
            path = [types.SimpleNamespace(PI_PULSES=[], rotation="root", u_of_level=u)]
            vc.ensure_raises(RuntimeError, lambda: ada.z_extraction(path, g, False) if which == "phy" else ada.z_extraction(path, g), "an error")
        finally:
            st.close()

    @ob(P, f"{which} adaptive.execute", [F + "execute", F + "__init__"], case="single", bound="search trees of one to three nodes below the root")
    def execute(vc, which=which):
        """the search starts at the matrix and the graph given; the path to the solution is extracted in the placement of the solution"""
        d = 3
        u = dense(vc, d, [])
        m = load(PA if which == "phy" else LA)
        st = Setup(vc, [m], NP(m.np, vc, u, None, "adaptive"))
        try:
            g = build(d, trees(d)[1], (2, 0, 1))
            _, cls, ada = adaptive(vc, which, u, g, d, (3, 4))
            vc.ensure(all(g.nodes[n]["phase_storage"] == 0 for n in range(d)), "phases are stored from now on")
            k = vc.choose("nodes", 4)
            st.put(m, "gates", types.SimpleNamespace(CustomOne=lambda c, n, q, mat, dim: ("identity", q, mat, dim), R=None, VirtRz=None))
            seen = {}

            def dfs(node, level=0):
                seen["root"] = node
                for i in range(k):
                    node.add(10 + i, f"r{i}", f"u{i}", f"g{i}", 3 - i, 3 - i, (3, 4), [f"p{i}"])
                    node = node.children[0]
                node.finished = True
                raise loader.load("exceptions").SequenceFoundError(node.key)

            def extract(path, graph, *a):
                seen.update(path=path, graph=graph, extra=a)
                return ["gates"], "final graph"
            ada.dfs, ada.z_extraction = dfs, extract
            ada.TREE.print_tree = lambda *a: None
            out, cost, h = ada.execute()
            r = seen["root"]
            vc.ensure(r.u_of_level is u and r.graph is g and r.max_cost == (3, 4) and r.current_cost == 0 and r.current_decomp_cost == 0 and r.PI_PULSES == [], "the root of the search")
            vc.ensure([n.rotation for n in seen["path"][1:]] == [f"r{i}" for i in range(k)] and seen["path"][0] is r, "the path from the root to the solution")
            vc.ensure(seen["graph"] == (f"g{k - 1}" if k else g) and out == ["gates"] and h == "final graph", "the gates and placement of the solution")
            vc.ensure(cost == ((3 - (k - 1), 3 - (k - 1)) if k else (0, 0)), "the cost of the solution")
            if which == "phy":
                vc.ensure(seen["extra"] == (False,), "phases are not propagated unless asked for")
        finally:
            st.close()


# ------------------------------------------------------------------ the passes

@ob(P, "phy adaptive pass.transpile_gate", [PA + "PhyLocAdaPass.transpile_gate"], case="single", bound="three levels, arbitrary matrix and phases")
def ada_gate(vc):
    """the inverse is decomposed, from the current placement; the placement found is the new one; without a sequence within
    the cost limit the one of the first decomposition is used, which restores the placement and applies the phases"""
    from pyvc.api import fake_matrix
    m = load(PA)
    d = 3
    u = fake_matrix("m", d)
    gate = FakeGate(u, d, 1)
    seen = {}
    old = m.PhyQrDecomp, m.PhyAdaptiveDecomposition, m.gates, m.np
    inf = float("inf")

    class Custom:
        def __init__(self, circuit, name, qudit, mat, dim):
            self.parent_circuit, self.target_qudits, self.m, self.dimensions = circuit, qudit, mat, dim

        def to_matrix(self, identities=0):
            return self.m

    class Qr:
        def __init__(self, gate, graph, **k):
            vc.ensure(not k, "the graph is restored after the first decomposition")
            seen["qr"] = (gate, graph)

        def execute(self):
            return ["qr gates"], 1.5, 2.5

    class Ada:
        def __init__(self, gate, graph, limit, dim, z_prop=False):
            seen["ada"] = (gate, graph, limit, dim, z_prop)
            seen["phases"] = [graph.nodes[n]["phase_storage"] for n in range(d)]

        def execute(self):
            if seen["found"]:
                return ["gates"] if seen["found"] > 1 else [], (0.1, 0.1), seen["new"]
            return [], (inf, inf), seen["ada"][1]
    try:
        m.PhyQrDecomp, m.PhyAdaptiveDecomposition, m.gates = Qr, Ada, types.SimpleNamespace(CustomOne=Custom)
        for vrz, found in itertools.product((False, True), (0, 1, 2)):
            seen.update(found=found, new=build(d, trees(d)[0], [1, 0, 2]))
            graph = build(d, trees(d)[0], [2, 0, 1])
            for n in range(d):
                graph.nodes[n]["phase_storage"] = angle(vc, f"s{n}_{vrz}{found}")
            phases = [graph.nodes[n]["phase_storage"] for n in range(d)]
            b = types.SimpleNamespace(energy_level_graphs=["other", graph, "third"])
            out = m.PhyLocAdaPass(b, vrz).transpile_gate(gate)
            vc.ensure(b.energy_level_graphs[0] == "other" and b.energy_level_graphs[2] == "third", "the other qudits keep their placements")
            new = b.energy_level_graphs[1]
            if found:
                vc.ensure(out == (["gates"] if found > 1 else []) and new is seen["new"], "the gates found; the placement of the qudit is the one found")
            else:
                vc.ensure(out == ["qr gates"] and new.log_phy_map == [2, 0, 1], "the gates of the first decomposition, in the same placement")
                for n in range(d):
                    vc.ensure(new.nodes[n]["phase_storage"] == 0, "no pending phase is left")
            g, gr, limit, dim, z = seen["ada"]
            vc.ensure(gr is graph and limit == (1.5, 2.5) and dim == d and z is vrz, "from the current placement, within the cost of the first decomposition")
            vc.ensure(all(x is y for x, y in zip(seen["phases"], phases)), "with its phases")
            vc.ensure(seen["qr"][1] is graph, "the cost of the current placement")
            for x in (g, seen["qr"][0]):
                vc.ensure(x.target_qudits == 1 and x.dimensions == d and x.parent_circuit is gate.parent_circuit, "on the same qudit")
                mat = np.asarray(x.to_matrix(identities=0), dtype=object)
                same(vc, mat, dag(np.asarray(u, dtype=object)), "the inverse is decomposed")
    finally:
        m.PhyQrDecomp, m.PhyAdaptiveDecomposition, m.gates, m.np = old


@ob(P, "log adaptive pass.transpile_gate", [LA + "LogLocAdaPass.transpile_gate"], case="single", bound="three levels, arbitrary rotations and phases in the sequence found")
def log_ada_gate(vc):
    """the sequence found inverts the gate; the pass returns its inverse"""
    m = load(LA)
    d = 3
    old = m.QrDecomp, m.LogAdaptiveDecomposition
    st = Setup(vc, [], None)
    try:
        G = loader.load("quantum_circuit.gates")
        gate = FakeGate(None, d, 1)
        c = gate.parent_circuit
        found = [G.R(c, "R", 1, [0, 1, angle(vc, "t0"), angle(vc, "f0")], d), G.R(c, "R", 1, [1, 2, angle(vc, "t1"), angle(vc, "f1")], d), G.VirtRz(c, "V", 1, [2, angle(vc, "v")], d)]
        seen = {}
        graph = build(d, trees(d)[0], range(d))

        class Qr:
            def __init__(self, g, gr, **k):
                vc.ensure(g is gate and gr is graph, "the gate in the current graph")

            def execute(self):
                return ["qr gates"], 1.5, 2.5

        class Ada:
            def __init__(self, g, gr, limit, dim, z_prop=False):
                vc.ensure(g is gate and gr is graph and limit == (1.5, 2.5) and dim == d, "the gate in the current graph, within the cost of the first decomposition")

            def execute(self):
                seen["m"] = seq(found, d)
                return list(found), 0.1, None
        m.QrDecomp, m.LogAdaptiveDecomposition = Qr, Ada
        b = types.SimpleNamespace(energy_level_graphs=[None, graph])
        got = m.LogLocAdaPass(b).transpile_gate(gate)
        same(vc, seq(got, d), dag(seen["m"]), "the inverse of the sequence found")
        vc.ensure(b.energy_level_graphs[1] is graph, "the graph stays")
    finally:
        m.QrDecomp, m.LogAdaptiveDecomposition = old
        st.close()


for which, f, cls in (("log QR", LQ, "LogLocQRPass"), ("phy QR", PQ, "PhyLocQRPass"), ("log adaptive", LA, "LogLocAdaPass"), ("phy adaptive", PA, "PhyLocAdaPass")):
    @ob(P, f"{which} pass.transpile", [f + cls + ".transpile"], case="single", bound="circuits of at most four gates on three lines")
    def transpile(vc, f=f, cls=cls):
        """every local gate is replaced by its sequence at its place, every other gate stays, the circuit is not modified"""
        from .c14 import gates_of, same_seq, words
        m = load(f)
        if "gc" in vars(m):
            m.gc = types.SimpleNamespace(collect=lambda: 0)
        qc = loader.load("quantum_circuit.circuit").QuantumCircuit
        for w in words(4, [(0,), (1,), (0, 1), (2, 0), (0, 1, 2)]):
            for shared in (False, True):
                gs = gates_of(w, shared)
                c = qc(3, [2, 3, 2], 0)
                c.set_instructions(gs)
                p = getattr(m, cls)(types.SimpleNamespace(energy_level_graphs=[1, 2, 3]))
                calls = []

                def gate(g):
                    calls.append(g)
                    return [(g, k) for k in range(len(calls) % 3)]
                p.transpile_gate = gate
                t = p.transpile(c)
                want = []
                n = 0
                for g in gs:
                    if len(g.lines) > 1:
                        want.append(g)
                    else:
                        n += 1
                        want += [(g, k) for k in range(n % 3)]
                vc.ensure(t is not c and same_seq(c.instructions, gs) and c.number_gates == len(gs), "the circuit is not modified")
                vc.ensure(len(t.instructions) == len(want) and all(a == b if isinstance(a, tuple) else a is b for a, b in zip(t.instructions, want)), "every local gate is replaced at its place")
                vc.ensure(t.number_gates == len(want), "the gate count")
