"""C20: the search tree.  The recursive functions are proved by induction on the height of the tree: the recursive call on a child is
replaced by the function's own contract (a child stands for an arbitrary subtree)."""
from __future__ import annotations

from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import ob
from pyvc.num import Num, Unsupported

P = "C20"
F = "core/dfs_tree.py:"
KIDS = 4
B = f"at most {KIDS} children of a node, arbitrary subtrees below them"


def mod():
    return loader.load("core.dfs_tree")


class Child:
    """the root of an arbitrary subtree: nothing but its key and its flag can be looked at"""
    def __init__(self, i, key, finished=False):
        self.i, self.key, self.finished = i, key, finished

    def __getattr__(self, n):
        raise Unsupported("inside of an arbitrary subtree: " + n)


def tree(vc, k, name, contract, finished=False, keys=None):
    """a tree whose root has k children; name is stubbed by its contract on the children"""
    m = mod()

    class T(m.NAryTree):
        pass
    t = T()
    t.add(0, "rot", "u", "g", Num.var("c0", "real"), Num.var("dc0", "real"), (1.0, 1.0), [])
    t.root.finished = finished
    t.root.key = vc.int("rootkey") if keys else 0
    kids = [Child(i, 100 + i) for i in range(k)]
    t.root.children = list(kids)
    t.root.size = k
    real = getattr(m.NAryTree, name)
    calls = []

    def stub(self, node, *a):
        if isinstance(node, Child):
            calls.append(node.i)
            return contract(node, *a)
        return real(self, node, *a)
    setattr(T, name, stub)
    return t, kids, calls


for k in range(KIDS + 1):
    @ob(P, f"max_depth.{k} children", [F + "NAryTree.max_depth", F + "NAryTree.depth"], bound=B, case="tree")
    def max_depth(vc, k=k):
        hs = [vc.int(f"h{i}", 0) for i in range(k)]
        t, kids, calls = tree(vc, k, "max_depth", lambda c: hs[c.i])
        for got in (t.max_depth(t.root), t.depth(0)):
            if k == 0:
                vc.ensure_eq(got, 0, "a leaf has depth 0")
                continue
            vc.ensure(any_eq(got - 1, hs), "one more than the depth of a child")
            for h in hs:
                vc.ensure(Num.lift(got) >= h + 1, "at least one more than the depth of every child")
        vc.ensure(t.root.children == kids, "children unchanged")

    @ob(P, f"size_refresh.{k} children", [F + "NAryTree.size_refresh", F + "NAryTree.total_size", F + "NAryTree.is_empty"], bound=B, case="tree")
    def size_refresh(vc, k=k):
        ns = [vc.int(f"n{i}", 0) for i in range(k)]
        t, kids, calls = tree(vc, k, "size_refresh", lambda c: ns[c.i])
        want = sum(ns, N.ZERO) + k
        vc.ensure_eq(t.size_refresh(t.root), want, "number of nodes below the node")
        vc.ensure_eq(t.total_size, want + 1, "number of nodes")
        vc.ensure_eq(t.size, want + 1, "the size stays the number of nodes")
        vc.ensure(not t.is_empty(), "a tree with a root is not empty")
        vc.ensure(t.root.children == kids, "children unchanged")

    @ob(P, f"found_checker.{k} children", [F + "NAryTree.found_checker"], bound=B, case="tree")
    def found_checker(vc, k=k):
        leaf = bool(vc.choose("leaf", 2))
        fs = [bool(vc.choose(f"f{i}", 2)) for i in range(k)]

        def contract(c):
            c.finished = fs[c.i]
            return fs[c.i]
        t, kids, calls = tree(vc, k, "found_checker", contract, finished=leaf if k == 0 else False)
        got = t.found_checker(t.root)
        want = leaf if k == 0 else any(fs)
        vc.ensure(got is want and t.root.finished is want, "a node is finished exactly if there is a finished leaf below it")
        vc.ensure([c.finished for c in kids] == fs, "every child is marked")
        vc.ensure(t.root.children == kids, "children unchanged")

    @ob(P, f"find_node.{k} children", [F + "NAryTree.find_node"], bound=B, case="tree")
    def find_node(vc, k=k):
        where = vc.choose("where", k + 2)        # 0: the node itself, 1..k: child, k+1: absent
        key = vc.int("key")
        itself = bool(where in range(1, k + 1) and vc.choose("itself", 2))     # the child, or a node below it
        t, kids, calls = tree(vc, k, "find_node", lambda c, q: hit if where == c.i + 1 else None, keys=True)
        hit = kids[where - 1] if itself else object()
        vc.assume(t.root.key == key if where == 0 else ~(Num.lift(t.root.key) == key))
        for c in kids:
            c.key = vc.int(f"key{c.i}")
            vc.assume(c.key == key if itself and c is hit else ~(Num.lift(c.key) == key))
        got = t.find_node(t.root, key)
        want = t.root if where == 0 else hit if where <= k else None
        vc.ensure(got is want, "the node with the key, or None")

    if k:
        @ob(P, f"min_cost_decomp.{k} children", [F + "NAryTree.min_cost_decomp"], bound=B, case="tree")
        def min_cost(vc, k=k):
            fs = [bool(vc.choose(f"f{i}", 2)) for i in range(k)]
            if not any(fs):
                return
            cs = [vc.real(f"cost{i}") for i in range(k)]
            ds = [vc.real(f"dcost{i}") for i in range(k)]

            limit = (vc.real("limit0"), vc.real("limit1"))
            Node = mod().Node
            # a path below each child: its last node is the leaf, whose costs and graph are those of the path
            paths = [[Node(200 + i, "r", "u", "g", vc.real(f"m{i}"), vc.real(f"dm{i}"), limit, [], 0), Node(300 + i, "r", "u", ("graph", i), cs[i], ds[i], limit, [], 200 + i)] for i in range(k)]
            for _, leaf in paths:
                leaf.finished = True

            def contract(c):
                if not c.finished:
                    vc.fail("call of min_cost_decomp", "called on a subtree without a finished leaf")
                return list(paths[c.i]), (cs[c.i], ds[c.i]), ("graph", c.i)
            t, kids, calls = tree(vc, k, "min_cost_decomp", contract, finished=True)
            for c, f in zip(kids, fs):
                c.finished = f
            path, cost, graph = t.min_cost_decomp(t.root)
            vc.ensure(len(path) == 3 and path[0] is t.root, "the path starts at the node")
            i = path[1].key - 200
            vc.ensure(path[1] is paths[i][0] and path[2] is paths[i][1] and graph == ("graph", i) and fs[i], "path, graph and cost of one finished child")
            vc.ensure_eq(cost[0], cs[i], "cost of the path")
            vc.ensure_eq(cost[1], ds[i], "decomposition cost of the path")
            for j in range(k):
                if fs[j]:
                    vc.ensure(Num.lift(cost[0]) <= cs[j], "no finished leaf is cheaper")

    @ob(P, f"add.{k} children", [F + "NAryTree.add", F + "Node.add", F + "Node.__init__"], bound=B, case="tree_add")
    def add(vc, k=k):
        m = mod()
        t, kids, calls = tree(vc, k, "find_node", lambda c, q: None)
        n = vc.int("n", 1)
        t.size = n
        par = vc.choose("parent", 3)
        if par == 0:
            t.add(7, "r", "u", "g", Num.var("c", "real"), Num.var("dc", "real"), (2.0, 3.0), ["p"], 0)
            node = t.root.children[-1]
            vc.ensure(t.root.children[:-1] == kids and len(t.root.children) == k + 1 and t.root.size == k + 1, "one more child, at the end")
        elif par == 1:
            T = type(t)
            sub = m.Node(100, "r", "u", "g", 0, 0, (0, 0), [], 0)
            T.find_node = lambda self, nd, key: sub if key == 100 else t.root if key == 0 else None
            t.add(7, "r", "u", "g", Num.var("c", "real"), Num.var("dc", "real"), (2.0, 3.0), ["p"], 100)
            node = sub.children[-1]
            vc.ensure(t.root.children == kids and len(sub.children) == 1 and sub.size == 1, "the child goes below the parent that was named")
        else:
            vc.ensure_raises(Exception, lambda: t.add(7, "r", "u", "g", 0, 0, (0, 0), [], 55), "a parent that does not exist is an error")
            vc.ensure_eq(t.size, n, "size unchanged")
            vc.ensure(t.root.children == kids, "tree unchanged")
            return
        vc.ensure_eq(t.size, n + 1, "one more node")
        vc.ensure((node.key, node.rotation, node.u_of_level, node.graph, node.max_cost, node.PI_PULSES) == (7, "r", "u", "g", (2.0, 3.0), ["p"]), "fields of the node")
        vc.ensure_eq(node.current_cost, Num.var("c", "real"), "cost of the node")
        vc.ensure_eq(node.current_decomp_cost, Num.var("dc", "real"), "decomposition cost of the node")
        vc.ensure(node.children == [] and node.finished is False and node.size == 0 and node.parent_key == (0 if par == 0 else 100), "a new node is an unfinished leaf below its parent")


@ob(P, "min_cost_decomp of a leaf", [F + "NAryTree.min_cost_decomp"], case="tree")
def leaf(vc):
    t, kids, calls = tree(vc, 0, "min_cost_decomp", None, finished=True)
    path, cost, graph = t.min_cost_decomp(t.root)
    vc.ensure(path == [t.root] and graph == "g", "the leaf itself")
    vc.ensure_eq(cost[0], Num.var("c0", "real"), "its cost")
    vc.ensure_eq(cost[1], Num.var("dc0", "real"), "its decomposition cost")


@ob(P, "retrieve_decomposition", [F + "NAryTree.retrieve_decomposition"], case="tree")
def retrieve(vc):
    m = mod()
    fin = bool(vc.choose("finished", 2))

    class T(m.NAryTree):
        def found_checker(self, node):
            node.finished = fin
            return fin

        def min_cost_decomp(self, node):
            if not node.finished:
                vc.fail("call of min_cost_decomp", "called without a finished leaf")
            return ["path", node], (Num.var("cost", "real"), Num.var("dcost", "real")), "graph"
    t = T()
    t.add(0, "rot", "u", "g", 0, 0, (1.0, 1.0), [])
    path, cost, graph = t.retrieve_decomposition(t.root)
    if fin:
        vc.ensure(path == ["path", t.root] and graph == "graph", "the path of least cost")
        vc.ensure_eq(cost[0], Num.var("cost", "real"), "its cost")
    else:
        vc.ensure(path == [] and graph == "g", "no path without a finished leaf")
        vc.ensure(all(c == float("inf") for c in cost), "infinite cost without a finished leaf")


@ob(P, "empty tree and first node", [F + "NAryTree.__init__", F + "NAryTree.add"], case="tree_add")
def empty(vc):
    t = mod().NAryTree()
    vc.ensure(t.is_empty() and t.size == 0 and t.global_id_counter == 0, "a new tree is empty")
    t.add(3, "r", "u", "g", 1, 2, (0, 0), [])
    vc.ensure(t.size == 1 and not t.is_empty() and t.root.key == 3 and t.root.parent_key is None and t.root.children == [], "the first node is the root")


def any_eq(x, ys):
    from pyvc.core import SBool, to_bool
    import z3
    return SBool(z3.Or(*[to_bool(Num.lift(x) == y) for y in ys]))
