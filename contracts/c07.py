"""C07: the tensor-network backend applies the ordered product of the embedded gate matrices.

The state after any prefix of a circuit is an arbitrary vector; a gate over all lines with an arbitrary (opaque) matrix produces one,
so 'arbitrary state, then a gate of any shape' is the inductive step of the circuit's length."""
from __future__ import annotations

import itertools

from contracts import tn
from contracts.c03 import digits, prod, spec
from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import fake_matrix, ob
from pyvc.num import Num

P = "C07"
TF = "simulation/backends/tnsim.py:TNSim."
FUNCS = [TF + "execute", TF + "__contract_circuit", TF + "__apply_gate", "quantum_circuit/gate.py:Gate.to_matrix", "quantum_circuit/gate.py:Gate.reference_lines",
         "quantum_circuit/components/extensions/matrix_factory.py:MatrixFactory.generate_matrix"]
tn.install()


def circuit(dims):
    return loader.load("quantum_circuit.circuit").QuantumCircuit(len(dims), list(dims), 0)


def backend():
    return loader.load("simulation.qudit_provider").MQTQuditProvider().get_backend("tnsim")


def add(c, targets, M, ctl=None, dag=False):
    t = list(targets)
    CD = loader.load("quantum_circuit.components.extensions.controls").ControlData
    if len(t) == 1:
        g = c.cu_one(t[0], M, CD(list(ctl[0]), list(ctl[1])) if ctl else None)
    else:
        g = c.cu_two(t, M) if len(t) == 2 else c.cu_multi(t, M)
        if ctl:
            g.control(list(ctl[0]), list(ctl[1]))
    return g.dag() if dag else g


def apply(M, targets, dims, psi, ctl=None, dag=False):
    f = spec(M, list(targets), list(dims), list(range(len(dims))), ctl, dag)
    n = prod(dims)
    out = []
    for r in range(n):
        s = N.ZERO
        for k in range(n):
            x = Num.lift(f(r, k))
            if x.t and psi[k].t:
                s = s + x * psi[k]
        out.append(s)
    return out


def start(c, dims):
    """an arbitrary state of the lines (product of arbitrary one-line states if there are more than two lines is not enough: one opaque gate over all)"""
    n = len(dims)
    U = fake_matrix("s", prod(dims))
    add(c, range(n), U)
    return [Num.lift(x) for x in U[:, 0]]


def compare(vc, got, want, label):
    n = len(want)
    vc.ensure(tuple(got.shape) == (1, n), label + ": shape")
    for i in range(n):
        if not (Num.lift(got[0, i]) - want[i]).is_zero():
            vc.ensure_eq(got[0, i], want[i], f"{label}: amplitude {i}")
    vc.ok(label)


def run(vc, dims, targets, ctl=None, dag=False):
    C.ctx().inputs.update(dims=list(dims), targets=list(targets), ctl=[list(ctl[0]), list(ctl[1])] if ctl else None, dag=dag)
    c = circuit(dims)
    psi = start(c, dims)
    M = fake_matrix("u", prod(dims[t] for t in targets))
    add(c, targets, M, ctl, dag)
    before = list(c.instructions)
    got = backend().execute(c)
    compare(vc, got, apply(M, targets, dims, psi, ctl, dag), f"dims {list(dims)} targets {list(targets)} controls {ctl}{' dag' if dag else ''}")
    vc.ensure(c.instructions == before and c.dimensions == list(dims) and all(a is b for a, b in zip(c.instructions, before)), "the circuit is not changed")


DIMS = {1: [(2,), (3,), (5,)], 2: [(2, 3), (3, 2), (2, 2)], 3: [(2, 3, 2), (3, 2, 2), (2, 2, 3)], 4: [(2, 3, 2, 2), (2, 2, 2, 2)]}
for n in (1, 2, 3, 4):
    for k in range(1, n + 1):
        for ds in DIMS[n]:
            if n == 4 and k >= 3 and ds != (2, 2, 2, 2):
                continue
            @ob(P, f"step.{k} of {n}.{'x'.join(map(str, ds))}", FUNCS, bound=f"{n} lines of dimensions {ds}, every ordered choice of {k} targets, arbitrary matrix, arbitrary earlier circuit", case="tn_step", budget=150)
            def step(vc, n=n, k=k, ds=ds):
                for T in itertools.permutations(range(n), k):
                    run(vc, ds, T)
                run(vc, ds, list(range(k))[::-1], dag=True)

for n in (2, 3, 4):
    for ds in DIMS[n][:2 if n < 4 else 1]:
        @ob(P, f"controlled.{n}.{'x'.join(map(str, ds))}", FUNCS + ["quantum_circuit/gate.py:Gate.control"], bound=f"{n} lines of dimensions {ds}, every target and control set, arbitrary matrix, arbitrary earlier circuit", case="tn_step", budget=150)
        def controlled(vc, n=n, ds=ds):
            for t in range(n):
                others = [q for q in range(n) if q != t]
                for k in range(1, n):
                    for cs in itertools.permutations(others, k):
                        if n == 4 and list(cs) != sorted(cs):
                            continue
                        run(vc, ds, [t], (list(cs), [(ds[q] - 1 - i) % ds[q] for i, q in enumerate(cs)]))
            run(vc, ds, [n - 1], ([0], [1]), dag=True)


@ob(P, "empty circuit", FUNCS, bound="up to three lines", case="tn_step")
def empty(vc):
    for ds in ((2,), (3, 2), (2, 3, 2)):
        got = backend().execute(circuit(ds))
        compare(vc, got, [N.ONE] + [N.ZERO] * (prod(ds) - 1), "all-zero state")


@ob(P, "three gates in order", FUNCS + [TF + "run"], bound="three lines, three opaque gates in every order of two long-range and one local gate", case="tn_step")
def order(vc):
    ds = (2, 3, 2)
    shapes = [([0, 2], None), ([1], None), ([2], ([0], [1]))]
    for perm in itertools.permutations(range(3)):
        c = circuit(ds)
        psi = start(c, ds)
        for j, p in enumerate(perm):
            T, ctl = shapes[p]
            M = fake_matrix(f"m{j}", prod(ds[t] for t in T))
            add(c, T, M, ctl)
            psi = apply(M, T, ds, psi, ctl)
        r = backend().run(c).result()
        compare(vc, r.get_state_vector(), psi, f"order {perm}")
        vc.ensure(list(r.get_counts()) == [], "no shots without noise")
