"""C17: the decision diagram of a state vector.  Recursive functions are proved by induction on the height: the recursive call on a child is
replaced by the contract (a child stands for an arbitrary subtree with an arbitrary weight)."""
from __future__ import annotations

import itertools

from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import ob
from pyvc.num import Num, Unsupported

P = "C17"
F = "core/micro_dd.py:"
DIMS = (2, 3, 4, 5, 6)


def mod():
    return loader.load("core.micro_dd")


def polar(vc, name):
    """an arbitrary complex number that is not zero"""
    r = vc.real(name + "_abs")
    vc.assume(r > 0)
    return r * N.num_exp(N.I * vc.angle(name + "_arg"))


def maybe(vc, name):
    return polar(vc, name) if vc.choose("nonzero", 2) else N.ZERO


def sq(z):
    z = Num.lift(z)
    return z * z.conjugate()


def vector(vc, n):
    return [maybe(vc, f"v{i}") for i in range(n)]


def note(**kw):
    C.ctx().inputs.update(kw)


for d in range(1, 7):
    @ob(P, f"normalize.{d} weights", [F + "normalize"], bound=f"lists of {d} weights of arbitrary value", case="normalize")
    def normalize(vc, d=d):
        w = [maybe(vc, f"w{i}") for i in range(d)]
        f = polar(vc, "factor")
        note(weights=list(w), factor=f)
        out, new = mod().normalize(f, list(w))
        vc.ensure(len(new) == d, "one weight per child")
        zero = all(Num.lift(x).is_zero() for x in w)
        if zero:
            vc.ensure_eq(out, 0, "the weight of a zero vector is zero")
            for x in new:
                vc.ensure_eq(x, 0, "a zero vector stays zero")
            return
        s = N.ZERO
        for x, y in zip(w, new):
            vc.ensure_eq(Num.lift(out) * y, f * x, "the factor times the normalised weight is the old factor times the old weight")
            s = s + sq(y)
        vc.ensure_eq(s, 1, "the normalised weights have norm one")
        vc.ensure_eq(Num.lift(out) * Num.lift(f).conjugate(), sq(f) * N.num_sqrt(sum((sq(x) for x in w), N.ZERO)), "the factor grows by the norm")


class Slice:
    """an arbitrary vector of symbolic length; slices are slices"""
    def __init__(self, n, lo=N.ZERO):
        self.n, self.lo = n, lo

    def vc_len(self):
        return self.n

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None:
            lo = Num.lift(0 if k.start is None else k.start)
            hi = Num.lift(self.n if k.stop is None else k.stop)
            return Slice(hi - lo, self.lo + lo)
        raise Unsupported("entry of an arbitrary vector")


for d in DIMS:
    @ob(P, f"build_decision_tree.node with {d} children", [F + "build_decision_tree", F + "normalize"], bound=f"{d} children; arbitrary length of the vector and depth below", case="tree", budget=100)
    def build(vc, d=d):
        m = mod()
        k = vc.int("len", 1)                       # the vector has d*k entries
        data = Slice(k * d)
        node = m.MicroDDNode("r")
        ws = []
        real, calls, depths = m.build_decision_tree, [], []

        def stub(labels, child, card, part, number, depth=0):
            if child is node:
                return real(labels, child, card, part, number, depth)
            calls.append((child, part, depth, labels, card))
            w = maybe(vc, f"w{len(ws)}")
            ws.append(w)
            child.weight = w
            number[0] = number[0] + vc_nodes[len(calls) - 1]
            if Num.lift(w).is_zero():
                child.terminal = True
                child.children = [m.zero]
            return None
        vc_nodes = [vc.int(f"nodes{i}", 0) for i in range(d)]
        labels, card = [7, 8, 9], [d, 4, 5]
        n = [1]
        m.build_decision_tree = stub
        try:
            note(dims=[d], v=None)
            real(labels, node, card, data, n)
        finally:
            m.build_decision_tree = real
        vc.ensure(len(calls) == d, "one recursive call per level")
        for i, (child, part, depth, la, ca) in enumerate(calls):
            vc.ensure(isinstance(part, Slice), "a child gets a part of the vector")
            vc.ensure_eq(part.lo, k * i, "child i starts at its part of the vector")
            vc.ensure_eq(part.n, k, "all parts have the same length")
            vc.ensure(depth == 1 and la is labels and ca is card and child.value == 7, "the children are one level below")
        tot = N.ZERO
        zero = all(Num.lift(w).is_zero() for w in ws)
        if zero:
            vc.ensure_eq(node.weight, 0, "a zero vector has weight zero")
            vc.ensure(node.terminal and node.children == [m.zero], "and no children")
        else:
            vc.ensure(node.children == [c[0] for c in calls] and not node.terminal, "the children in order")
            for c, w in zip(node.children, ws):
                vc.ensure_eq(Num.lift(node.weight) * c.weight, w, "weight of the node times weight of the child is the weight the child was built with")
                vc.ensure((Num.lift(c.weight).is_zero()) == Num.lift(w).is_zero(), "zero branches have weight zero")
                tot = tot + sq(c.weight)
            vc.ensure_eq(tot, 1, "the children are normalised")
        vc.ensure_eq(n[0], 1 + d + sum(vc_nodes, N.ZERO), "number of nodes")


@ob(P, "build_decision_tree.leaf", [F + "build_decision_tree"], case="tree")
def leaf(vc):
    m = mod()
    a = maybe(vc, "a")
    node = m.MicroDDNode(0)
    m.build_decision_tree([0], node, [3], [a], [1], 1)
    vc.ensure_eq(node.weight, a, "the weight of a leaf is the amplitude")
    vc.ensure(node.terminal and node.children == [m.zero if Num.lift(a).is_zero() else m.one], "a leaf is terminal")
    vc.ensure(m.zero.terminal and m.one.terminal and m.zero.dd_hash != m.one.dd_hash, "the terminals differ")


def amplitude(m, root, path, reduced=False):
    a, node = Num.lift(root.weight), root
    for k in path:
        if node.terminal:
            return N.ZERO
        a = a * node.children[k].weight
        node = node.children[node.children_index[k] if reduced else k]
    return a


def tree(vc, dims):
    m = mod()
    n = 1
    for d in dims:
        n *= d
    v = vector(vc, n)
    note(dims=list(dims), v=list(v))
    root, number = m.create_decision_tree(list(range(len(dims))), list(dims), list(v))
    return m, v, root, number


def paths(dims):
    return list(itertools.product(*[range(d) for d in dims]))


SMALL = [(2,), (3,), (4,), (5,), (2, 2), (2, 3), (3, 2), (2, 2, 2)]
for dims in SMALL:
    @ob(P, f"amplitudes.{dims}", [F + x for x in ("create_decision_tree", "build_decision_tree", "normalize", "dd_reduction", "dd_reduction_hashing", "dd_reduction_aggregation")],
        bound=f"dimensions {dims}, every pattern of zero entries, arbitrary values elsewhere", case="tree", budget=120)
    def amplitudes(vc, dims=dims):
        n = len(paths(dims))
        m, v, root, number = tree(vc, dims)
        zero = all(Num.lift(x).is_zero() for x in v)
        for p, x in zip(paths(dims), v):
            vc.ensure_eq(amplitude(m, root, p), x, "the product of the weights along the path is the amplitude")
        if zero:
            return
        full = 1
        for d in reversed(dims):
            full = 1 + d * full
        vc.ensure_eq(number[0], full, "number of nodes")


for dims in [(2,), (3,), (2, 2), (2, 3)]:
    @ob(P, f"dd_reduction.{dims}", [F + x for x in ("dd_reduction", "dd_reduction_hashing", "dd_reduction_aggregation", "count_nodes_after")],
        bound=f"dimensions {dims}, entries out of three values (two for six entries)", case="tree", budget=120)
    def reduction(vc, dims=dims):
        m = mod()
        n = len(paths(dims))
        v = [[0, N.I, 2][vc.choose("v", 3 if n < 6 else 2)] for _ in range(n)]
        if all(Num.lift(x).is_zero() for x in v):
            return
        note(dims=list(dims), v=list(v))
        root, _ = m.create_decision_tree(list(range(len(dims))), list(dims), list(v))
        old = m.__dict__.get("hash")
        m.__dict__["hash"] = injective(m)
        try:
            vc.ensure(m.dd_reduction(root, list(dims)) is root, "the reduction works on the tree")
        finally:
            m.__dict__.pop("hash") if old is None else m.__dict__.__setitem__("hash", old)
        for p, x in zip(paths(dims), v):
            vc.ensure_eq(amplitude(m, root, p, True), x, "the reduction changes no amplitude")
        if len(dims) == 2:
            rows = [tuple(v[k * dims[1]:(k + 1) * dims[1]]) for k in range(dims[0])]
            cnt = [0]
            m.count_nodes_after(root, cnt, list(dims))
            # contract: a node with one different live subtree counts it once, any other node counts every branch
            def size(node):
                if node.terminal:
                    return 1
                live = [i for i, c in enumerate(node.children) if not Num.lift(c.weight).is_zero()]
                tgt = [node.children[node.children_index[i]] for i in range(len(node.children))]
                if len(live) > 1 and len({node.children_index[i] for i in live}) == 1:
                    tgt = [node.children[node.children_index[live[0]]]]
                return 1 + sum(size(t) for t in tgt)
            vc.ensure(cnt[0] == size(root), "the count of the reduced diagram")
            for i, r in enumerate(rows):
                for k, s in enumerate(rows[:i]):
                    prop = same_ray(r, s)
                    vc.ensure((root.children_index[i] == root.children_index[k]) == prop, "branches are merged exactly if their states agree")


def same_ray(r, s):
    """the normalised rows agree (a positive factor is a weight, a phase stays in the entries)"""
    if all(Num.lift(x).is_zero() for x in r) or all(Num.lift(x).is_zero() for x in s):
        return all(Num.lift(x).is_zero() for x in r) and all(Num.lift(x).is_zero() for x in s)
    nr, ns = (sum((sq(x) for x in y), N.ZERO) for y in (r, s))
    return all((Num.lift(x) * N.num_sqrt(ns) - Num.lift(y) * N.num_sqrt(nr)).is_zero() for x, y in zip(r, s))


for d in DIMS[:4]:
    @ob(P, f"normalize_all.node with {d} children", [F + "normalize_all", F + "dd_approximation"], bound=f"{d} children, arbitrary subtrees below them", case="tree")
    def renorm(vc, d=d):
        """induction: below the children the factor is pulled into the weight of the child, possibly zero"""
        m = mod()
        which = ["normalize_all", "dd_approximation"][vc.choose("function", 2)]
        node = m.MicroDDNode("r")
        node.weight = polar(vc, "node")
        kids, ws, after = [], [], []
        tol = vc.real("tolerance")
        vc.assume(tol > 0)
        for i in range(d):
            c = m.MicroDDNode(0)
            c.weight = maybe(vc, f"w{i}")
            kids.append(c)
            ws.append(c.weight)
        node.children = list(kids)
        real = getattr(m, which)
        calls = []
        note(dims=[d], v=None)

        def stub(child, card, *a):
            if child is node:
                return real(child, card, *a)
            calls.append((child, a[-1], child.weight))
            f = vc.real(f"f{len(calls)}")          # what is left below the child, at most one
            vc.assume(f > 0)
            child.weight = child.weight * f
            return None
        setattr(m, which, stub)
        w0 = node.weight
        try:
            real(node, [d, 2], *([tol] if which == "dd_approximation" else []))
        finally:
            setattr(m, which, real)
        vc.ensure([c[0] for c in calls] == kids and all(c[1] == 1 for c in calls), "every child is treated, one level below")
        fs = []
        for i, (c, dep, w) in enumerate(calls):
            if which == "normalize_all":
                vc.ensure_eq(w, ws[i], "the weight of a child is not changed before")
            elif Num.lift(w).is_zero() and not Num.lift(ws[i]).is_zero():
                vc.ensure(sq(ws[i]).real < tol, "a branch is cut only below the tolerance")
            else:
                vc.ensure_eq(w, ws[i], "a branch that is kept keeps its weight")
                if not Num.lift(w).is_zero():
                    vc.ensure(tol <= sq(ws[i]).real, "a branch below the tolerance is cut")
        kept = [w * Num.var(f"f{i + 1}", "real") for i, (c, dep, w) in enumerate(calls)]
        if all(Num.lift(x).is_zero() for x in kept):
            vc.ensure_eq(node.weight, 0, "nothing left")
            vc.ensure(node.terminal and node.children == [m.zero], "no children left")
            return
        vc.ensure(node.children == kids, "the children stay")
        tot = N.ZERO
        for c, x in zip(kids, kept):
            vc.ensure_eq(Num.lift(node.weight) * c.weight, w0 * x, "the amplitudes below do not change")
            tot = tot + sq(c.weight)
        vc.ensure_eq(tot, 1, "the children are normalised")


def plain(m, weights, terminal=False):
    n = m.MicroDDNode(0)
    n.weight = weights
    n.terminal = terminal
    return n


for dims in [(2,), (3,), (2, 2), (3, 2)]:
    @ob(P, f"get_node_contributions.{dims}", [F + "get_node_contributions"], bound=f"trees of dimensions {dims}, arbitrary weights; sorting up to three nodes per level", case="contributions", budget=200, tier="quick" if len(dims) < 2 else "thorough")
    def contributions(vc, dims=dims):
        m, v, root, number = tree(vc, dims)
        if all(Num.lift(x).is_zero() for x in v):
            return
        if len(dims) == 2 and sum(not Num.lift(x).is_zero() for x in v) > 3:
            return
        check_contributions(vc, m, root, dims)


def check_contributions(vc, m, root, dims):
    if True:
        got = m.get_node_contributions(root, list(range(len(dims))))
        vc.ensure(len(got) == len(dims), "one list per line")
        want = [[] for _ in dims]

        def walk(node, prob, depth):
            for c in node.children:
                if Num.lift(c.weight).is_zero():
                    continue
                if depth < len(dims):
                    want[depth].append((c, prob * sq(c.weight)))
                    if not c.terminal:
                        walk(c, prob * sq(c.weight), depth + 1)
        walk(root, sq(root.weight), 0)
        for a, b in zip(got, want):
            vc.ensure(sorted(id(x) for x, _ in a) == sorted(id(x) for x, _ in b), "every node that is not zero once, on its line")
            w = {id(x): p for x, p in b}
            for x, p in a:
                vc.ensure_eq(p, w[id(x)], "the contribution is the squared product of the weights down to the node")
            for (_, p), (_, q) in zip(a, a[1:]):
                vc.ensure(Num.lift(p) <= Num.lift(q), "ascending")


@ob(P, "get_node_contributions.two levels", [F + "get_node_contributions"], bound="two children of two children with weights out of three values and a symbolic phase of the root", case="contributions", budget=100)
def contributions2(vc):
    m = mod()
    root = m.MicroDDNode("r")
    root.weight = N.num_exp(N.I * vc.angle("root"))
    pairs = [(0, 1), (1, 0), (N.Num.lift(3) / 5, N.Num.lift(4) / 5), (N.I * N.Num.lift(4) / 5, N.Num.lift(3) / 5)]
    note(dims=[2, 2], v=None)
    for w in pairs[vc.choose("top", 4)]:
        c = m.MicroDDNode(0)
        c.weight = w
        root.children.append(c)
        if Num.lift(w).is_zero():
            c.terminal, c.children = True, [m.zero]
            continue
        for x in pairs[vc.choose("below", 4)]:
            g = m.MicroDDNode(1)
            g.weight, g.terminal = x, True
            g.children = [m.zero if Num.lift(x).is_zero() else m.one]
            c.children.append(g)
    check_contributions(vc, m, root, (2, 2))


for shape in [(1,), (2,), (3,), (1, 1), (1, 2), (2, 2), (2, 3)]:
    @ob(P, f"cut_branches.{shape}", [F + "cut_branches", F + "remove_children"], bound=f"levels of {shape} nodes, arbitrary contributions and tolerance", case="cut", budget=200)
    def cut(vc, shape=shape):
        m = mod()
        tol = vc.real("tolerance")
        levels, nodes = [], []
        for lv, n in enumerate(shape):
            row = []
            for i in range(n):
                p = vc.real(f"p{lv}_{i}")
                vc.assume(p > 0)
                if row:
                    vc.assume(row[-1][1] <= p)
                node = m.MicroDDNode(lv)
                node.weight = Num.var(f"w{lv}_{i}", "real")
                node.available = bool(vc.choose("available", 2)) if lv == 0 else True
                node.children = [m.MicroDDNode(lv + 1)]
                node.children[0].children = [m.MicroDDNode(lv + 2)]
                row.append((node, p))
                nodes.append((node, p, node.weight, node.available))
            levels.append(row)
        note(shape=list(shape), probs=[[p for _, p in r] for r in levels], tolerance=tol, available=[n.available for n, _, _, _ in nodes])
        m.cut_branches(levels, tol)
        lost = N.ZERO
        for node, p, w, av in nodes:
            if node.weight is w:
                vc.ensure(node.children[0].available, "the branches of a kept node stay")
                continue
            vc.ensure_eq(node.weight, 0, "a cut branch has weight zero")
            vc.ensure(av, "a branch below a cut node is not cut again")
            vc.ensure(not node.children[0].available and not node.children[0].children[0].available, "everything below a cut node is marked")
            lost = lost + p
        if not lost.is_zero():
            vc.ensure(lost < tol, "less than the tolerance is lost")
        for row in levels:
            for (a, _), (b, _) in zip(row, row[1:]):
                ia = [x for x in nodes if x[0] is a][0]
                if b.weight is not [x for x in nodes if x[0] is b][0][2] and a.weight is ia[2]:
                    vc.fail("smallest first", "a branch is cut although a smaller one of the same line is kept")


@ob(P, "remove_children", [F + "remove_children"], bound="three children", case=None)
def remove(vc):
    m = mod()
    k = vc.choose("children", 4)
    node = m.MicroDDNode(0)
    node.children = [m.MicroDDNode(1) for _ in range(k)]
    real, calls = m.remove_children, []
    m.remove_children = lambda c: calls.append(c) if c is not node else real(c)
    try:
        real(node)
    finally:
        m.remove_children = real
    vc.ensure(calls == node.children and all(not c.available for c in node.children) and node.available, "exactly the nodes below are marked")


def injective(m, generic=False):
    """contract of hash(): equal for equal values, different for different ones.  generic: weights that are not equal for all values are different"""
    seen = []

    def h(t):
        for k, (x, v) in enumerate(seen):
            if same(x, t, generic):
                return v
        seen.append((t, 1000 + len(seen)))
        return seen[-1][1]
    return h


def same(a, b, generic=False):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y, generic) for x, y in zip(a, b))
    if isinstance(b, tuple):
        return False
    if generic:
        return (Num.lift(a) - Num.lift(b)).is_zero()
    return bool(Num.lift(a) == Num.lift(b))


for d in (2, 3):
    @ob(P, f"dd_reduction_hashing.{d} children", [F + "dd_reduction_hashing"], bound=f"{d} children, arbitrary subtrees; Python's hash by its contract without collisions", case="tree", budget=120)
    def hashing(vc, d=d):
        """two nodes get the same hash exactly if the hashes and the weights of their children agree"""
        m = mod()
        kinds = [[(vc.choose("h", 2), [Num.lift(1), N.I][vc.choose("w", 2) if i + d < 4 else 0]) for i in range(d)] for _ in range(2)]
        nodes = []
        for ks in kinds:
            n = m.MicroDDNode(0)
            for h, w in ks:
                c = m.MicroDDNode(1)
                c.weight, c.mark = w, h
                n.children.append(c)
            nodes.append(n)
        real = m.dd_reduction_hashing
        old = m.__dict__.get("hash")

        def stub(c, card, depth=0):
            if c in nodes:
                return real(c, card, depth)
            vc.ensure(depth == 1, "one level below")
            c.dd_hash = 10 + c.mark
            return c.dd_hash
        m.dd_reduction_hashing = stub
        m.__dict__["hash"] = injective(m)
        try:
            hs = [real(n, [d, 2]) for n in nodes]
        finally:
            m.dd_reduction_hashing = real
            m.__dict__.pop("hash") if old is None else m.__dict__.__setitem__("hash", old)
        vc.ensure([n.dd_hash for n in nodes] == hs, "the hash is kept in the node")
        vc.ensure((hs[0] == hs[1]) == same(tuple(map(tuple, kinds[0])), tuple(map(tuple, kinds[1]))), "equal hashes exactly for equal subtrees")


@ob(P, "dd_reduction_hashing.terminal", [F + "dd_reduction_hashing"], case="tree")
def hashing_leaf(vc):
    m = mod()
    hs = []
    for end in (m.zero, m.one):
        for depth in (1, 2):
            n = m.MicroDDNode(0)
            n.terminal, n.children = True, [end]
            hs.append(m.dd_reduction_hashing(n, [2, 2], depth))
    vc.ensure(hs[0] == hs[1] and hs[2] == hs[3] and hs[0] != hs[2], "a zero branch and a leaf differ")


for d in DIMS[:4]:
    @ob(P, f"dd_reduction_aggregation.{d} children", [F + "dd_reduction_aggregation", F + "reduced_child"], bound=f"{d} children, arbitrary subtrees, every pattern of equal and zero branches", case="tree", budget=120, tier="quick" if d < 5 else "thorough")
    def aggregation(vc, d=d):
        m = mod()
        node = m.MicroDDNode("r")
        kids = []
        for i in range(d):
            c = m.MicroDDNode(0)
            used = 1 + max([k.dd_hash for k in kids], default=-1)
            c.dd_hash = vc.choose("class", used + 1)
            c.weight = polar(vc, f"w{i}") if vc.choose("nonzero", 2) else N.ZERO
            kids.append(c)
        live = [i for i, c in enumerate(kids) if not Num.lift(c.weight).is_zero()]
        if not live:
            return
        node.children = list(kids)
        real, calls = m.dd_reduction_aggregation, []

        def stub(c, card, depth=0):
            if c is node:
                return real(c, card, depth)
            calls.append((c, depth))
            return None
        m.dd_reduction_aggregation = stub
        try:
            real(node, [d, 2, 2])
        finally:
            m.dd_reduction_aggregation = real
        first = [min(j for j in range(d) if kids[j].dd_hash == c.dd_hash) for c in kids]
        vc.ensure(node.children_index == first, "every branch points to the first branch with the same subtree")
        vc.ensure(node.children == kids, "no child is removed")
        vc.ensure([c for c, _ in calls] == [kids[i] for i in sorted(set(first))] and all(x == 1 for _, x in calls), "every different subtree is treated once, one level below")
        vc.ensure(node.reduced is (len(live) > 1 and len({first[i] for i in live}) == 1), "a node is reduced exactly if its branches that are not zero, two or more, all have the same subtree")
        if node.reduced:
            vc.ensure(m.reduced_child(node) is kids[first[live[0]]], "the shared child")


@ob(P, "dd_reduction_aggregation.terminal", [F + "dd_reduction_aggregation"], case="tree")
def aggregation_leaf(vc):
    m = mod()
    n = m.MicroDDNode(0)
    n.terminal, n.children = True, [m.zero]
    m.dd_reduction_aggregation(n, [2, 2], 1)
    vc.ensure(n.reduced is True, "a zero branch needs no further work")
    leaf = m.MicroDDNode(0)
    leaf.terminal, leaf.children = True, [m.one]
    m.dd_reduction_aggregation(leaf, [2, 2], 2)
    vc.ensure(leaf.reduced is None and leaf.children_index == [], "nothing is done below the last line")


for d in (2, 3, 4):
    @ob(P, f"count_nodes_after.{d} children", [F + "count_nodes_after"], bound=f"{d} children, arbitrary subtrees", case="tree")
    def count(vc, d=d):
        m = mod()
        node = m.MicroDDNode("r")
        node.reduced = bool(vc.choose("reduced", 2))
        node.terminal = bool(vc.choose("terminal", 2))
        kids = [m.MicroDDNode(0) for _ in range(d)]
        zero = vc.choose("zero", d)
        for i, c in enumerate(kids):
            c.weight = N.ZERO if i == zero and i != d - 1 else polar(vc, f"w{i}")
        node.children = list(kids)
        node.children_index = [0 if node.reduced and not Num.lift(kids[0].weight).is_zero() else i for i in range(d)]
        if not node.reduced and vc.choose("shared", 2):
            node.children_index[-1] = 0
        sizes = {id(c): vc.int(f"n{i}", 0) for i, c in enumerate(kids)}
        real, calls = m.count_nodes_after, []

        def stub(c, counter, card, depth=0):
            if c is node:
                return real(c, counter, card, depth)
            calls.append(c)
            counter[0] = counter[0] + sizes[id(c)]
            return None
        k = vc.int("k", 0)
        counter = [k]
        m.count_nodes_after = stub
        try:
            real(node, counter, [d, 2])
        finally:
            m.count_nodes_after = real
        if node.terminal:
            want = []
        elif node.reduced:
            live = next(i for i, c in enumerate(kids) if not Num.lift(c.weight).is_zero())
            want = [kids[node.children_index[live]]]
        else:
            want = [kids[i] for i in node.children_index]
        vc.ensure(calls == want, "a reduced node has one child, the others one per level")
        vc.ensure_eq(counter[0], k + 1 + sum((sizes[id(c)] for c in want), N.ZERO), "one more than the nodes below")


@ob(P, "unique_weights", [F + "unique_weights"], bound="dimensions (2, 2)", case=None)
def unique(vc):
    m = mod()
    v = [[0, 0.6, 0.8, -1][vc.choose("v", 4)] for _ in range(2)]
    root = m.MicroDDNode("r")
    root.weight = 2
    for w in v:
        c = m.MicroDDNode(0)
        c.weight = w
        root.children.append(c)
    vc.ensure(m.unique_weights(root) == {2, *v}, "the set of the weights in the tree")
