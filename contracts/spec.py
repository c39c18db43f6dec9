"""Specification functions: the defining formulas of the gates, as functions from index to number."""
from __future__ import annotations

from pyvc import arr as A
from pyvc import num as N
from pyvc.api import cos, delta, expi, sin
from pyvc.num import Num


def order(a, b):
    return (a, b) if bool(Num.lift(a) < b) else (b, a)


def two_level(d, a, b, m):
    """identity except the 2x2 block m on levels a (first) and b (second), a != b"""
    def f(i, j):
        ia, ib = A.eqi(i, a), A.eqi(i, b)
        ja, jb = A.eqi(j, a), A.eqi(j, b)
        if (ia or ib) and (ja or jb):
            return m[0 if ia else 1][0 if ja else 1]
        if ia or ib or ja or jb:
            return N.ZERO
        return delta(i, j)
    return f


def two_level_support(a, b):
    return lambda i: [a, b] if A.eqi(i, a) or A.eqi(i, b) else [i]


def r(d, a, b, theta, phi):
    lo, hi = order(a, b)
    c, s = cos(theta / 2), sin(theta / 2)
    return two_level(d, lo, hi, [[c, -N.I * s * expi(-phi)], [-N.I * s * expi(phi), c]])


def rz(d, a, b, phi):
    lo, hi = order(a, b)
    return two_level(d, lo, hi, [[expi(-phi / 2), N.ZERO], [N.ZERO, expi(phi / 2)]])


def rh(d, a, b):
    lo, hi = order(a, b)
    h = N.I / N.num_sqrt(Num.const(2))
    return two_level(d, lo, hi, [[h, h], [h, -h]])


def virtrz(d, a, phi):
    return lambda i, j: (expi(-phi) if A.eqi(i, a) else N.ONE) if A.eqi(i, j) else N.ZERO


def noisex(d, a, b):
    return two_level(d, a, b, [[N.ZERO, N.ONE], [N.ONE, N.ZERO]])


def noisey(d, a, b):
    lo, hi = order(a, b)
    return two_level(d, lo, hi, [[N.ZERO, -N.I], [N.I, N.ZERO]])


def x(d):
    def f(i, j):
        if A.eqi(j, d - 1):
            return N.ONE if A.eqi(i, 0) else N.ZERO
        return N.ONE if A.eqi(i, j + 1) else N.ZERO
    return f


def x_pow(d, n):
    """n-fold shift, n >= 0"""
    def f(i, j):
        return N.ONE if A.eqi(i, N.num_mod(Num.lift(j) + n, d)) else N.ZERO
    return f


def z(d):
    return lambda i, j: expi(2 * N.PI * i / d) if A.eqi(i, j) else N.ZERO


def h(d):
    return lambda i, j: expi(2 * N.PI * Num.lift(i) * j / d) / N.num_sqrt(Num.lift(d))


def s(d):
    def f(i, j):
        if not A.eqi(i, j):
            return N.ZERO
        if A.eqi(d, 2):
            return N.I if A.eqi(i, 1) else N.ONE
        i = Num.lift(i)
        return expi(2 * N.PI / d * (i * (i + 1) / 2))
    return f


def gell(d, a, b, t):
    def f(i, j):
        if t == "s":
            return N.ONE if (A.eqi(i, a) and A.eqi(j, b)) or (A.eqi(i, b) and A.eqi(j, a)) else N.ZERO
        if t == "a":
            if A.eqi(i, a) and A.eqi(j, b):
                return -N.I
            return N.I if A.eqi(i, b) and A.eqi(j, a) else N.ZERO
        if not A.eqi(i, j):
            return N.ZERO
        c = N.num_sqrt(Num.const(2) / (Num.lift(b) * (b + 1)))
        if bool(Num.lift(i) < b):
            return c
        return -c * b if A.eqi(i, b) else N.ZERO
    return f


def perm(p):
    return lambda i, j: N.ONE if A.eqi(i, p(j)) else N.ZERO
