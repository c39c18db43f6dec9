"""C02: dag() gives the conjugate transpose, and the dag of a dag is the gate again, for every gate of the gate set."""
from __future__ import annotations

from pyvc import api
from pyvc import arr as A
from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import FakeCircuit, index, ob
from pyvc.num import Num

from . import c01

P = "C02"


def lift_obligations():
    for o in list(api.OBS["C01"]):
        if not (o.name.endswith(".matrix") or ".matrix." in o.name or o.name.startswith("GellMann")):
            continue
        for mode, tag in (("dag", "dagger"), ("dag dag", "dagger twice")):
            if tag == "dagger twice" and o.name.split(".")[0] in ("CEx", "MS", "LS", "CSum", "Rz", "Rh"):
                continue        # the gate-independent contract below covers the toggle
            def fn(vc, o=o, mode=mode):
                c01.MODE = mode
                try:
                    o.fn(vc)
                finally:
                    c01.MODE = "plain"
            case = {"gate_matrix": "dag1", "gate2_matrix": "dag2"}.get(o.case)
            ob(P, f"{tag}: {o.name}", [*o.functions, "quantum_circuit/gate.py:Gate.dag", "quantum_circuit/gate.py:Gate.to_matrix",
               "quantum_circuit/components/extensions/matrix_factory.py:MatrixFactory.generate_matrix"], case=case, fixed={**o.fixed, "times": 1 if mode == "dag" else 2}, budget=o.budget)(fn)


lift_obligations()


@ob(P, "toggle", ["quantum_circuit/gate.py:Gate.dag", "quantum_circuit/gate.py:Gate.to_matrix",
                  "quantum_circuit/components/extensions/matrix_factory.py:MatrixFactory.generate_matrix"], case="toggle")
def toggle(vc):
    """for an arbitrary gate (any dimension, any matrix), in either state of the toggle: dag() moves to the other state, the matrix is
    the adjoint exactly in the daggered state.  By induction, n applications depend on the parity of n only."""
    d = vc.int("d", 2)
    gate_mod = loader.load("quantum_circuit.gate")
    types_ = loader.load("quantum_circuit.components.extensions.gate_types")
    i, j = index(vc, "i", d), index(vc, "j", d)
    v, w = N.cplx("mij"), N.cplx("mji")
    calls = []

    class Any(gate_mod.Gate):
        def __array__(self):
            calls.append(1)
            return A.SArr((d, d), lambda p, q: v if A.eqi(p, i) and A.eqi(q, j) else w if A.eqi(p, j) and A.eqi(q, i) else N.ZERO)
    g = Any(FakeCircuit([d]), "any", types_.GateTypes.SINGLE, 0, d)
    vc.ensure(g.dagger is False, "a new gate is not daggered")
    g.dagger = bool(vc.choose("state", 2))
    before = g.dagger
    vc.ensure(g.dag() is g, "returns itself")
    vc.ensure(g.dagger == (not before), "toggles")
    M = g.to_matrix(0)
    if g.dagger:
        vc.ensure_eq(M.at(j, i), v.conjugate(), "adjoint entry")
    else:
        vc.ensure_eq(M.at(i, j), v, "entry")
    M2 = g.to_matrix(0)
    vc.ensure_eq(M2.at(j, i), M.at(j, i), "repeated evaluation")
