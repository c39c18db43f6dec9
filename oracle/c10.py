"""C10 at run time."""
from __future__ import annotations

import math

from .base import case, expect, gen

TOL = 1e-6


def mt():
    from mqt.qudits.compiler.compilation_minitools import local_compilation_minitools as m
    return m


def same(a, b, period, what):
    k = (a - b) / period
    expect(abs(k - round(k)) < TOL, f"{what}: {a} is not {b} modulo {period}")


@case("regulate")
def regulate(theta, **_):
    r = mt().regulate_theta(theta)
    same(r, theta, 4 * math.pi, "regulate_theta")
    expect(-4 - TOL < r / math.pi < 4.2 + TOL and abs(r / math.pi) >= 0.2 - TOL, f"regulate_theta({theta}) = {r} out of range")


@case("new_mod")
def new_mod(theta, **_):
    r = mt().new_mod(theta)
    same(r, theta, 2 * math.pi, "new_mod")
    expect(abs(r) < 2 * math.pi + TOL and (r >= -TOL if theta >= 0 else r <= TOL), f"new_mod({theta}) = {r} out of range")


@case("new_mod_b")
def new_mod_b(a, b, **_):
    r = mt().new_mod(a, b)
    same(r, a, b, "new_mod")
    expect(abs(r) < b + TOL, f"new_mod({a}, {b}) = {r}")


@case("pi_mod")
def pi_mod(theta, **_):
    r = mt().pi_mod(theta)
    same(r, theta, 2 * math.pi, "pi_mod")
    expect(abs(r) <= math.pi + TOL, f"pi_mod({theta}) = {r} out of range")


@case("costs")
def costs(theta, **_):
    u = abs(theta) / math.pi
    expect(abs(mt().phi_cost(theta) - u * 1e-4) < 1e-12, "phi_cost")
    c = mt().theta_cost(theta)
    expect(4 * u * 1e-4 - 1e-12 <= c <= (4 * u + 0.25) * 1e-4 + 1e-12, f"theta_cost({theta}) = {c}")
    expect(abs(c - mt().theta_cost(-theta)) < 1e-12, "theta_cost is even")
    expect(abs(c * 1e4 - 4 * u - abs(2 * u - round(2 * u)) / 2) < 1e-7, f"theta_cost({theta}) = {c}: the surcharge is not the distance to the nearest half turn")


@case("rotation_cost")
def rotation_cost(theta, cost=1e-3, da=1, db=2, ir_a=0, ir_b=1, **_):
    class Thing:
        pass
    p, g = Thing(), Thing()
    p.fst_inode, p.is_irnode, p.distance_nodes = "first", lambda x: bool([ir_a, ir_b][x]), lambda a, b: int([da, db][b]) if a == "first" else None
    g.original_lev_a, g.original_lev_b, g.theta, g.cost = 0, 1, theta, cost
    got, want = mt().rotation_cost_calc(g, p), (min(int(da), int(db)) + 1) * mt().theta_cost(theta) if ir_a or ir_b else cost
    expect(abs(got - want) < 1e-12, f"rotation_cost_calc is {got} instead of {want} at distances {da}, {db}")


@case("swap")
def swap(e0=0, e1=1, e2=2, e3=3, **_):
    for i in range(4):
        for j in range(4):
            l0 = [e0, e1, e2, e3]
            l = list(l0)
            out = mt().swap_elements(l, i, j)
            l0[i], l0[j] = l0[j], l0[i]
            expect(out is l and l == l0, "swap_elements")


@case("gate_angles")
def gate_angles(theta, phi, d=3, **_):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    c = QuantumCircuit(1, [min(int(d), 20)], 0)
    r = c.r(0, [0, 1, theta, phi])
    same(r.theta, theta, 4 * math.pi, "R.theta")
    expect(r.phi == phi, "R.phi")
    same(c.rz(0, [0, 1, phi]).phi, phi, 4 * math.pi, "Rz.phi")
    same(c.virtrz(0, [0, phi]).phi, phi, 2 * math.pi, "VirtRz.phi")


@gen("C10")
def g(r, budget):
    import time
    t0 = time.time()
    yield "swap", {}
    while time.time() - t0 < min(budget, 12):
        k = r.randrange(3)
        t = r.uniform(-20, 20) if k == 0 else r.randint(-50, 50) * math.pi / r.choice([1, 2, 4, 5, 10]) if k == 1 else r.uniform(-1, 1)
        for c in ("regulate", "new_mod", "pi_mod", "costs"):
            yield c, dict(theta=t)
        yield "rotation_cost", dict(theta=t, cost=r.random(), da=r.randint(0, 6), db=r.randint(0, 6), ir_a=r.randrange(2), ir_b=r.randrange(2))
        yield "new_mod_b", dict(a=t, b=r.uniform(0.1, 9))
        yield "gate_angles", dict(theta=t, phi=r.uniform(-20, 20), d=r.randint(2, 5))
