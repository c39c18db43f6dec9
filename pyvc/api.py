"""Registry of contracts (obligations) and helpers shared by the contract files."""
from __future__ import annotations

from . import arr as A
from . import core as C
from . import num as N
from .num import Num

OBS: dict[str, list] = {}


class Ob:
    def __init__(self, prop, name, fn, functions, bound, case, budget, fixed, tier):
        self.prop, self.name, self.fn, self.functions = prop, name, fn, functions
        self.bound, self.case, self.budget, self.fixed, self.tier = bound, case, budget, fixed or {}, tier


def ob(prop, name, functions=(), bound=None, case=None, budget=60, fixed=None, tier="quick"):
    """register an obligation.  bound: None for a proof over the whole precondition, else the text of the bound."""
    def deco(fn):
        OBS.setdefault(prop, []).append(Ob(prop, name, fn, list(functions), bound, case, budget, fixed, tier))
        return fn
    return deco


class FakeCircuit:
    """the part of a circuit the gate code reads: dimensions and number of qudits (ghost caller)"""
    def __init__(self, dims):
        self.dimensions = list(dims)
        self._dimensions = self.dimensions
        self.num_qudits = len(dims)
        self.path_save = None
        self.number_gates = 0
        self.instructions = []
        self.mappings = None
        self.inverse_sitemap = {i: ("q", i) for i in range(len(dims))}
        self.sitemap = {("q", i): (i, d) for i, d in enumerate(dims)}


def cos(x):
    return N.num_cos(x)


def sin(x):
    return N.num_sin(x)


def expi(x):
    """exp(i x)"""
    return N.num_exp(N.I * Num.lift(x))


def index(vc, name, n):
    i = Num.var(C.ctx().fresh(name), "int")
    vc.assume(i >= 0)
    vc.assume(i < n)
    return i


def entries(M):
    return M if isinstance(M, A.SArr) else A.to_sarr(M)


def ensure_matrix(vc, M, spec, shape, label):
    """M has the shape and M[i,j] == spec(i,j) at an arbitrary index"""
    if not hasattr(M, "shape") or len(M.shape) != len(shape):
        vc.fail(label, f"not a matrix of rank {len(shape)}: {type(M).__name__}")
    for x, y in zip(M.shape, shape):
        vc.ensure(Num.lift(x) == Num.lift(y), label + ": shape")
    S = entries(M)
    if all(Num.lift(x).as_int() is not None for x in shape):
        import itertools
        for idx in itertools.product(*[range(int(Num.lift(x).as_int())) for x in shape]):
            vc.ensure_eq(S.at(*idx), spec(*idx), label)
        return
    idx = [index(vc, f"ix{k}_", n) for k, n in enumerate(shape)]
    vc.ensure_eq(S.at(*idx), spec(*idx), label)


def delta(i, j):
    return N.ONE if A.eqi(i, j) else N.ZERO


def fake_matrix(name, n, m=None):
    """an arbitrary (opaque) complex matrix of concrete shape"""
    import numpy as np
    m = n if m is None else m
    a = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            a[i, j] = N.cplx(f"{name}[{i},{j}]")
    return a
