"""C10: angle arithmetic: the normalisations keep the rotation, their ranges and signs, and the cost functions are what they document."""
from __future__ import annotations

from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import ob
from pyvc.builtins_ import _floor
from pyvc.num import Num

P = "C10"
L = "compiler/compilation_minitools/local_compilation_minitools.py:"


def mt():
    return loader.load("compiler.compilation_minitools.local_compilation_minitools")


def same(vc, a, b, period, label):
    """a - b is a multiple of the period: the exponentials with that period agree"""
    vc.ensure_eq(N.num_exp(2 * N.PI * N.I * Num.lift(a) / period), N.num_exp(2 * N.PI * N.I * Num.lift(b) / period), label)


@ob(P, "regulate_theta", [L + "regulate_theta"], case="regulate")
def regulate(vc):
    t = vc.angle("theta")
    r = mt().regulate_theta(t)
    same(vc, r, t, 4 * N.PI, "same angle modulo 4 pi")
    u = Num.lift(r) / N.PI
    vc.ensure(u > -4, "range from below")
    vc.ensure(u * 5 < 21, "range from above")
    vc.ensure(abs(u) * 5 >= 1, "never a rotation shorter than pi/5")


@ob(P, "new_mod", [L + "new_mod"], case="new_mod")
def new_mod(vc):
    t = vc.angle("theta")
    r = Num.lift(mt().new_mod(t))
    same(vc, r, t, 2 * N.PI, "same angle modulo 2 pi")
    u = r / N.PI
    if bool(t >= 0):
        vc.ensure((u >= 0) & (u < 2), "remainder of a non-negative angle is in [0, 2 pi)")
    else:
        vc.ensure((u > -2) & (u <= 0), "remainder of a negative angle is in (-2 pi, 0]")


@ob(P, "new_mod.modulus", [L + "new_mod"], case="new_mod_b")
def new_mod_b(vc):
    t, b = vc.real("a"), vc.real("b", "pos")
    r = Num.lift(mt().new_mod(t, b))
    q = (r - t) / b
    vc.ensure_eq(N.num_exp(2 * N.PI * N.I * q), N.ONE, "differs by a multiple of the modulus")
    vc.ensure(abs(r) < b, "smaller than the modulus")


@ob(P, "pi_mod", [L + "pi_mod", L + "new_mod"], case="pi_mod")
def pi_mod(vc):
    t = vc.angle("theta")
    r = Num.lift(mt().pi_mod(t))
    same(vc, r, t, 2 * N.PI, "same angle modulo 2 pi")
    u = r / N.PI
    vc.ensure((u >= -1) & (u <= 1), "range [-pi, pi]")


@ob(P, "phi_cost", [L + "phi_cost"], case="costs")
def phi_cost(vc):
    t = vc.angle("theta")
    r = Num.lift(mt().phi_cost(t))
    vc.ensure(r >= 0, "non-negative")
    vc.ensure_eq(r, abs(t) / N.PI / 10000, "proportional to the angle")


@ob(P, "theta_cost", [L + "theta_cost"], case="costs")
def theta_cost(vc):
    t = vc.angle("theta")
    r = Num.lift(mt().theta_cost(t))
    u = abs(t) / N.PI
    vc.ensure(r >= 0, "non-negative")
    vc.ensure(r * 10000 - 4 * u >= 0, "at least the rotation's length")
    vc.ensure((r * 10000 - 4 * u) * 4 <= 1, "at most the length and a quarter")
    vc.ensure_eq(Num.lift(mt().theta_cost(-t)), r, "even")
    s = r * 10000 - 4 * u
    k, m = 2 * (u - s), 2 * (u + s)
    vc.ensure((k == _floor(k)) | (m == _floor(m)), "the surcharge is the distance to the nearest half turn")


class Placement:
    """a level graph by its contract: distances of at least zero, any levels behind the first ancilla"""

    def __init__(self, vc, ir):
        self.vc, self.ir, self.fst_inode = vc, ir, "first"
        self.d = [vc.int("da", 0), vc.int("db", 0)]

    def is_irnode(self, x):
        return self.ir[x]

    def distance_nodes(self, a, b):
        self.vc.ensure(a == "first", "distance from the first ancilla")
        return self.d[b]


@ob(P, "rotation_cost_calc", [L + "rotation_cost_calc", L + "theta_cost"], case="rotation_cost")
def rotation_cost(vc):
    ir = [bool(vc.choose("ir_a", 2)), bool(vc.choose("ir_b", 2))]
    p = Placement(vc, ir)
    g = type("Rotation", (), {})()
    g.original_lev_a, g.original_lev_b, g.theta, g.cost = 0, 1, vc.angle("theta"), vc.real("cost")
    r = Num.lift(mt().rotation_cost_calc(g, p))
    if not any(ir):
        vc.ensure_eq(r, g.cost, "the cost of the rotation")
    else:
        near = p.d[0] if bool(p.d[0] <= p.d[1]) else p.d[1]
        vc.ensure_eq(r, (near + 1) * mt().theta_cost(g.theta), "the rotation and one more per level of distance from the first ancilla")


@ob(P, "swap_elements", [L + "swap_elements"], case="swap", bound="lists of up to 4 symbolic elements, all positions")
def swap(vc):
    n = vc.choose("n", 4) + 1
    items = [vc.int(f"e{k}") for k in range(n)]
    i, j = vc.choose("i", n), vc.choose("j", n)
    lst = list(items)
    out = mt().swap_elements(lst, i, j)
    vc.ensure(out is lst, "in place")
    for k in range(n):
        want = items[j] if k == i else items[i] if k == j else items[k]
        vc.ensure_eq(out[k], want, "element")


@ob(P, "gate angles", ["quantum_circuit/gates/r.py:R.__init__", "quantum_circuit/gates/rz.py:Rz.__init__", "quantum_circuit/gates/virt_rz.py:VirtRz.__init__"], case="gate_angles")
def gate_angles(vc):
    """the angle a gate stores is the angle it was given, modulo the period of its matrix"""
    from pyvc.api import FakeCircuit
    g = loader.load("quantum_circuit.gates")
    d = vc.int("d", 2)
    c = FakeCircuit([d])
    t, p = vc.angle("theta"), vc.angle("phi")
    r = g.R(c, "R", 0, [0, 1, t, p], d)
    same(vc, r.theta, t, 4 * N.PI, "R.theta")
    vc.ensure_eq(r.phi, p, "R.phi")
    same(vc, g.Rz(c, "Rz", 0, [0, 1, p], d).phi, p, 4 * N.PI, "Rz.phi")
    same(vc, g.VirtRz(c, "v", 0, [0, p], d).phi, p, 2 * N.PI, "VirtRz.phi")
