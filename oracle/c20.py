"""C20 at run time: random search trees against a list model."""
from __future__ import annotations

import math

from .base import case, expect, gen


@case("tree")
def tree(nodes=None, seed=1, limit=(1, 2), **kw):
    from mqt.qudits.core import NAryTree
    from mqt.qudits.exceptions import NodeNotFoundError
    if nodes is None:
        import random
        for s in range(40):
            for limit in ((1, 2), (0, 0), (0, 5), (5, 0)):
                tree(random_tree(random.Random(s)), limit=limit)
        return
    t = NAryTree()
    expect(t.is_empty(), "a new tree is not empty")
    par, kids, cost, fin = {}, {}, {}, {}
    for i, (p, c, f) in enumerate(nodes):
        key = i * 3 + 1
        pk = None if p is None else p * 3 + 1
        if i % 3 == 1:
            try:
                t.add(99999, "r", None, "g", 0, 0, (0, 0), [], 77777)
                expect(False, "a parent that does not exist is accepted")
            except NodeNotFoundError:
                pass
        t.add(key, f"r{i}", f"u{i}", f"g{i}", c, c / 2 - i if i % 2 else -c, tuple(limit), [i], pk)
        par[i], kids[i], cost[i] = p, [], c
        if p is not None:
            kids[p].append(i)
        expect(t.size == i + 1 and not t.is_empty(), f"size {t.size} after {i + 1} nodes")
        if i % 2:
            expect(t.total_size == i + 1 and t.size == i + 1, f"total size {t.total_size} after {i + 1} nodes")

    def depth(i):
        return 0 if not kids[i] else 1 + max(depth(j) for j in kids[i])

    def below(i):
        return sum(1 + below(j) for j in kids[i])
    for i in range(len(nodes)):
        n = t.find_node(t.root, i * 3 + 1)
        expect(n is not None and n.key == i * 3 + 1 and n.rotation == f"r{i}" and n.graph == f"g{i}" and n.u_of_level == f"u{i}" and n.PI_PULSES == [i], f"node {i} not found")
        expect(n.parent_key == (None if par[i] is None else par[i] * 3 + 1), "parent of a node")
        expect([c.key for c in n.children] == [j * 3 + 1 for j in kids[i]] and n.size == len(kids[i]), "children of a node")
        expect(t.depth(i * 3 + 1) == depth(i) and t.max_depth(n) == depth(i), f"depth {t.depth(i * 3 + 1)} instead of {depth(i)}")
        expect(t.size_refresh(n) == below(i), "number of nodes below a node")
    expect(t.find_node(t.root, 2) is None, "a key that does not exist is found")
    try:
        t.depth(2)
        expect(False, "depth of a key that does not exist")
    except NodeNotFoundError:
        pass
    leaves = []
    for i, (p, c, f) in enumerate(nodes):
        if f and not kids[i]:
            t.find_node(t.root, i * 3 + 1).finished = True
            leaves.append(i)
    for start in range(len(nodes)):
        def inside(i):
            while i is not None:
                if i == start:
                    return True
                i = par[i]
            return False
        mine = [i for i in leaves if inside(i)]
        node = t.find_node(t.root, start * 3 + 1)
        path, best, graph = t.retrieve_decomposition(node)
        if not mine:
            expect(path == [] and best == (math.inf, math.inf) and graph is node.graph and not node.finished, "a path without a finished leaf")
            continue
        m = min(cost[i] for i in mine)
        expect(len(path) > 0 and path[0] is node, "the path does not start at the root")
        for a, b in zip(path, path[1:]):
            expect(any(b is c for c in a.children), "the path is not a path")
        end = (path[-1].key - 1) // 3
        expect(end in mine, "the path does not end at a finished leaf")
        expect(cost[end] == m and best == (path[-1].current_cost, path[-1].current_decomp_cost) and graph is path[-1].graph, f"cost {best} instead of {m}")


@case("tree_add")
def tree_add(**_):
    tree()


def random_tree(r):
    n = r.randint(1, 14)
    w = r.choice([1, 2, 5])
    return [(None if i == 0 else max(0, i - r.randint(1, w)) if r.random() < 0.7 else r.randrange(i), r.choice([r.uniform(0, 10), r.uniform(-5, 5), float(r.randint(0, 2))]), r.random() < 0.6) for i in range(n)]


@gen("C20")
def g(r, budget):
    while True:
        yield "tree", dict(nodes=random_tree(r), limit=r.choice([[1, 2], [0, 0], [0, 7], [30.5, 10.0], [float("inf"), 1]]))
