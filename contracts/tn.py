"""Contract of the tensornetwork dependency (Node, connect, NodeCollection, contractors.auto): the sum over the connected legs."""
from __future__ import annotations

import string  # noqa: F401
import types

import numpy as np

from pyvc import loader
from pyvc import num as N
from pyvc.num import Num, Unsupported

STACK = []


class Edge:
    def __init__(self, node, axis):
        self.ends = [(node, axis)]

    @property
    def dimension(self):
        n, a = self.ends[0]
        return n.tensor.shape[a]

    def is_dangling(self):
        return len(self.ends) == 1


class Node:
    def __init__(self, tensor, name=None, axis_names=None):
        if isinstance(tensor, Node):
            tensor = tensor.tensor
        self.tensor = np.asarray(tensor, dtype=object) if not isinstance(tensor, np.ndarray) else tensor
        self.edges = [Edge(self, i) for i in range(self.tensor.ndim)]
        if STACK:
            STACK[-1].append(self)

    def __getitem__(self, i):
        return self.edges[i]

    @property
    def shape(self):
        return self.tensor.shape


class NodeCollection:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        STACK.append(self.c)

    def __exit__(self, *a):
        STACK.pop()


def connect(a, b, name=None):
    if a is b or not a.is_dangling() or not b.is_dangling():
        raise ValueError("edge is not dangling")
    if a.dimension != b.dimension:
        raise ValueError(f"Cannot connect edges of unequal dimension. Dimension of edge1: {a.dimension}, Dimension of edge2: {b.dimension}.")
    ends = a.ends + b.ends
    e = Edge.__new__(Edge)
    e.ends = ends
    for n, ax in ends:
        n.edges[ax] = e
    return e


def auto(nodes, output_edge_order=None, memory_limit=None, ignore_edge_order=False):
    """contract all nodes; the axes of the result are the dangling edges in the given order"""
    nodes = list(nodes)
    ids = {}

    def lab(e):
        return ids.setdefault(id(e), len(ids))
    cur, cl = None, []
    for n in nodes:
        ls = [lab(e) for e in n.edges]
        if len(set(ls)) != len(ls):
            raise Unsupported("trace edge")
        if cur is None:
            cur, cl = n.tensor, ls
            continue
        common = [x for x in cl if x in ls]
        cur = dot(cur, n.tensor, [cl.index(x) for x in common], [ls.index(x) for x in common])
        cl = [x for x in cl if x not in common] + [x for x in ls if x not in common]
    dangling = [lab(e) for n in nodes for e in n.edges if e.is_dangling()]
    if output_edge_order is None:
        if len(dangling) > 1:
            raise ValueError("output edge order needed")
        order = dangling
    else:
        order = [lab(e) for e in output_edge_order]
        if sorted(order) != sorted(dangling):
            raise ValueError("output edges are not equal to the remaining non-contracted edges of the final node.")
    r = Node.__new__(Node)
    r.tensor = np.transpose(cur, [cl.index(x) for x in order])
    r.edges = []
    return r


def dot(a, b, ia, ib):
    ra, rb = [i for i in range(a.ndim) if i not in ia], [i for i in range(b.ndim) if i not in ib]
    sa, sb = [a.shape[i] for i in ra], [b.shape[i] for i in rb]
    k = 1
    for i in ia:
        k *= a.shape[i]
    A = np.transpose(a, ra + ia).reshape(-1, k)
    B = np.transpose(b, ib + rb).reshape(k, -1)
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            s = N.ZERO
            for x, y in zip(A[i], B[:, j]):
                x, y = Num.lift(x), Num.lift(y)
                if x.t and y.t:
                    s = s + x * y
            out[i, j] = s
    return out.reshape(sa + sb)


def install():
    m = loader.standin("tensornetwork")
    m.Node, m.NodeCollection, m.connect, m.Edge = Node, NodeCollection, connect, Edge
    m.contractors = types.SimpleNamespace(auto=auto, greedy=auto, optimal=auto, branch=auto)
    m.network_components = types.SimpleNamespace(AbstractNode=Node)
    return m
