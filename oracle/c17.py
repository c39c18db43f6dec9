"""C17 at run time: decision trees of random state vectors."""
from __future__ import annotations

import copy
import itertools
import math
import random

import numpy as np

from .base import case, expect, gen


def close(a, b, eps=1e-9):
    return abs(complex(a) - complex(b)) < eps


def cx(v):
    return [complex(*x) if isinstance(x, (list, tuple)) else complex(x) for x in v]


@case("normalize")
def normalize(weights=None, factor=1, **_):
    from mqt.qudits.core.micro_dd import normalize as f
    for w, fac in [(cx(weights), cx([factor])[0])] if weights is not None else [([3, 4j], 2j), ([0, 0], 1), ([1e-3, -2, 1j], -1)]:
        out, new = f(fac, list(w))
        n = math.sqrt(sum(abs(x) ** 2 for x in w))
        expect(close(out, fac * n), f"factor {out}")
        for x, y in zip(w, new):
            expect(close(out * y, fac * x), "weight times factor")
        expect(len(new) == len(w) and (n == 0 or close(sum(abs(x) ** 2 for x in new), 1)), "norm")


def amp(root, path, reduced=False):
    a, node = complex(root.weight), root
    for k in path:
        if node.terminal:
            return 0
        a *= node.children[k].weight
        node = node.children[node.children_index[k] if reduced else k]
    return a


def walk(node, depth=0):
    yield node, depth
    for c in node.children:
        if c.value not in ("zero", "one"):
            yield from walk(c, depth + 1)


def vec(dims, v, seed=0):
    if v is not None:
        v = cx(v)
        if any(abs(x) > 1e-12 for x in v) and len(v) == math.prod(dims):
            return v
    r = random.Random(seed)
    return rand_vec(r, dims)


def rand_vec(r, dims):
    n = math.prod(dims)
    k = r.random()
    if k < .3:
        v = [complex(r.gauss(0, 1), r.gauss(0, 1)) * (r.random() < .6) for _ in range(n)]
    elif k < .6:
        v = [complex(r.choice([0, 0, 1, 1, -1, 1j, 2])) for _ in range(n)]
    else:
        v = [1]
        for d in dims:
            w = [complex(r.choice([0, 1, 1, -1, 1j, r.gauss(0, 1)])) for _ in range(d)]
            v = [x * y for x in v for y in w]
    if all(abs(x) < 1e-12 for x in v):
        v[r.randrange(n)] = 1j
    if r.random() < .7:
        s = math.sqrt(sum(abs(x) ** 2 for x in v))
        v = [x / s for x in v]
    return v


def paths(dims):
    return itertools.product(*[range(d) for d in dims])


@case("tree")
def tree(dims=None, v=None, seed=0, tolerance=0.05, **_):
    from mqt.qudits.core import micro_dd as m
    if not dims or len(dims) > 5 or math.prod(dims) > 200:
        dims = [2, 3]
    if v is None:
        for s in range(25):
            tree([[2, 2], [2, 3], [3, 2, 2], [4, 2], dims][s % 5], rand_vec(random.Random(s), [[2, 2], [2, 3], [3, 2, 2], [4, 2], dims][s % 5]), s)
        return
    dims = [int(d) for d in dims]
    v = vec(dims, v, seed)
    data = np.array(v) if seed % 2 else list(v)
    labels = list(range(len(dims)))
    root, number = m.create_decision_tree(labels, list(dims), data)
    full = 1
    for d in reversed(dims):
        full = 1 + d * full
    expect(number == [full], f"{number} nodes instead of {full}")

    def check_amps(r, reduced, what, u=v, eps=1e-9):
        for p, x in zip(paths(dims), u):
            expect(close(amp(r, p, reduced), x, eps), f"{what}: amplitude {p} is {amp(r, p, reduced)} instead of {x}")
    check_amps(root, False, "tree")
    index = {}

    def check_nodes(r, what):
        for node, depth in walk(r):
            if depth == len(dims):
                expect(node.terminal, f"{what}: a leaf is not terminal")
                continue
            if node.terminal:
                expect(abs(node.weight) < 1e-12 or all(c.value == "zero" for c in node.children), f"{what}: terminal node")
                continue
            expect(len(node.children) == dims[depth] and all(c.value == labels[depth] for c in node.children), f"{what}: children of a node at depth {depth}")
            expect(close(sum(abs(c.weight) ** 2 for c in node.children), 1), f"{what}: children not normalised")
    check_nodes(root, "tree")

    # contributions
    q = m.get_node_contributions(root, labels)
    expect(len(q) == len(dims), "contributions: number of lines")
    prob = {}

    def down(node, p, depth):
        if depth == len(dims):
            return
        for c in node.children:
            if c.value in ("zero", "one") or c.weight == 0:
                continue
            prob[id(c)] = (p * abs(c.weight) ** 2, depth)
            if not c.terminal:
                down(c, p * abs(c.weight) ** 2, depth + 1)
    down(root, abs(root.weight) ** 2, 0)
    expect(sum(len(x) for x in q) == len(prob), "contributions: number of nodes")
    for line, row in enumerate(q):
        for (a, p), (_, p2) in zip(row, row[1:]):
            expect(p <= p2, "contributions: not ascending")
        for node, p in row:
            expect(id(node) in prob and prob[id(node)][1] == line and close(p, prob[id(node)][0]), "contributions: wrong probability")
        want = sum(p for p, lv in prob.values() if lv == line)
        expect(close(sum(p for _, p in row), want), "contributions: sum")

    # reduction on its own tree
    red, _ = m.create_decision_tree(labels, list(dims), data)
    expect(m.dd_reduction(red, list(dims)) is red, "reduction returns the tree")
    check_amps(red, True, "reduced tree")
    check_amps(red, False, "reduced tree, without sharing")
    done = set()

    def flags(node, depth):
        if depth == len(dims) or id(node) in done:
            return
        done.add(id(node))
        if node.terminal:
            expect(node.reduced is True, "terminal node not marked")
            return
        expect(len(node.children_index) == len(node.children), "one index per child")
        live = [i for i, c in enumerate(node.children) if c.weight != 0]
        expect(node.reduced is (len(live) > 1 and len({node.children_index[i] for i in live}) == 1), f"reduced flag {node.reduced} at depth {depth}")
        for i in node.children_index:
            flags(node.children[i], depth + 1)
    flags(red, 0)

    def size(node):
        if node.terminal:
            return 1
        if node.reduced:
            return 1 + size(next(node.children[node.children_index[i]] for i, c in enumerate(node.children) if c.weight != 0))
        return 1 + sum(size(node.children[i]) for i in node.children_index)
    cnt = [0]
    m.count_nodes_after(red, cnt, list(dims))
    expect(cnt == [size(red)] and cnt[0] <= full, f"count {cnt} instead of {size(red)}")

    # approximation of the normalised vector
    s = math.sqrt(sum(abs(x) ** 2 for x in v))
    u = [x / s for x in v]
    for tol in (0.0, float(tolerance) + 1.37e-6, 0.2003137):
        app, _ = m.create_decision_tree(labels, list(dims), u)
        before = m.get_node_contributions(app, labels)
        old = {id(n): n.weight for row in before for n, _ in row}
        m.cut_branches(before, tol)
        lost = sum(p for row in before for n, p in row if n.weight == 0 and old[id(n)] != 0)
        expect(lost < tol + 1e-9, f"{lost} cut with tolerance {tol}")
        m.normalize_all(app, list(dims))
        w = [amp(app, p) for p in paths(dims)]
        f = abs(sum(complex(a).conjugate() * b for a, b in zip(w, u))) ** 2
        nw = sum(abs(a) ** 2 for a in w)
        if tol < 1:
            expect(nw > 0, "everything was cut")
            expect(f / nw >= 1 - tol - 1e-9, f"fidelity {f / nw} with tolerance {tol}")
            for a, b in zip(w, u):
                expect(abs(a) < 1e-12 or abs(a / b * abs(b) / abs(a) - 1) < 1e-9, "phase of a kept amplitude")
            kept = [abs(a) / abs(b) for a, b in zip(w, u) if abs(a) > 1e-9]
            expect(max(kept) - min(kept) < 1e-6, "ratio of kept amplitudes")
            check_nodes(app, "approximated tree")
        loc, _ = m.create_decision_tree(labels, list(dims), u)
        ref, _ = m.create_decision_tree(labels, list(dims), u)
        m.dd_approximation(loc, list(dims), tol)

        def local(node, depth):
            """which amplitudes survive: no branch on the way is below the tolerance (the weights above are not rescaled before the cut)"""
            if node.terminal:
                return
            for c in node.children:
                if abs(c.weight) ** 2 < tol:
                    c.weight = 0
                local(c, depth + 1)
        local(ref, 0)
        for p, x in zip(paths(dims), u):
            expect((abs(amp(ref, p)) > 1e-12) or abs(amp(loc, p)) < 1e-12, "local approximation keeps a branch below the tolerance")
            if abs(amp(ref, p)) > 1e-12:
                expect(abs(amp(loc, p)) > 1e-12, "local approximation cuts a branch above the tolerance")


@case("contributions")
def contributions(dims=None, v=None, **kw):
    tree(dims, v, **kw)


@case("cut")
def cut(shape=None, probs=None, tolerance=0.1, available=None, **_):
    from mqt.qudits.core import micro_dd as m
    if probs is None or not shape:
        for s in range(20):
            r = random.Random(s)
            sh = [r.randint(1, 4) for _ in range(r.randint(1, 3))]
            pr = [sorted(r.random() * .2 for _ in range(n)) for n in sh]
            cut(sh, pr, r.random() * .5, [r.random() < .8 for _ in range(sum(sh))])
        return
    levels, nodes = [], []
    tolerance = float(tolerance)
    for lv, n in enumerate(shape):
        row = []
        for i in range(int(n)):
            x = m.MicroDDNode(lv)
            x.weight = 0.5
            x.available = bool(available[len(nodes)]) if available and lv == 0 else True
            x.children = [m.MicroDDNode(lv + 1)]
            x.children[0].children = [m.MicroDDNode(lv + 2)]
            row.append((x, float(probs[lv][i])))
            nodes.append((x, float(probs[lv][i]), x.available))
        levels.append(row)
    m.cut_branches(levels, tolerance)
    lost = 0
    for x, p, av in nodes:
        expect(x.weight in (0, 0.5), "weight")
        if x.weight == 0:
            lost += p
            expect(av and not x.children[0].available and not x.children[0].children[0].available, "marks below a cut branch")
        else:
            expect(x.children[0].available, "marks below a kept branch")
    expect(lost == 0 or lost < tolerance, f"{lost} cut with tolerance {tolerance}")
    for row in levels:
        for (a, _), (b, _) in zip(row, row[1:]):
            expect(not (b.weight == 0 and a.weight != 0), "a smaller branch is kept")


@gen("C17")
def g(r, budget):
    while True:
        dims = [r.randint(2, 5) for _ in range(r.randint(1, 4))]
        if math.prod(dims) <= 120:
            yield "tree", dict(dims=dims, v=[[x.real, x.imag] for x in map(complex, rand_vec(r, dims))], seed=r.randrange(10), tolerance=round(r.random() * .3, 3))
        if r.random() < .1:
            sh = [r.randint(1, 4) for _ in range(r.randint(1, 3))]
            yield "cut", dict(shape=sh, probs=[sorted(r.random() * .2 for _ in range(n)) for n in sh], tolerance=r.random() * .5, available=[r.random() < .8 for _ in range(sum(sh))])
