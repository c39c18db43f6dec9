"""An arbitrary matrix under elimination.  An entry is zero or an arbitrary complex number (forked when it is read); a product with a known matrix keeps the zeros that
follow from the products, and turns an entry that is exactly cancelled into a zero.  Everything else about the matrix is forgotten, so what is proved holds for every matrix."""
from __future__ import annotations

import numpy as np

from pyvc import core as C
from pyvc import num as N
from pyvc.api import ob  # noqa: F401
from pyvc.builtins_ import fl
from pyvc.num import Num, Unsupported


class Cell:
    def __init__(self, zero=None):
        self.zero, self.mag, self.arg, self.value = zero, None, None, (N.ZERO if zero else None)

    def read(self, u):
        if self.value is None:
            vc = u.vc
            if self.zero is None:
                self.zero = u.fork()
            if self.zero:
                self.value = N.ZERO
            else:
                k = C.ctx().fresh("u")
                self.mag, self.arg = vc.real(k + "_abs"), vc.real(k + "_arg")
                vc.assume(self.mag > N.ONE / 100)
                self.value = self.mag * N.num_exp(N.I * self.arg)
        return self.value


class Entry:
    """an entry that was read"""

    def __init__(self, u, cell):
        self.u, self.cell = u, cell
        cell.read(u)

    def __abs__(self):
        return fl(self.cell.mag) if self.cell.mag is not None else 0.0

    def round(self, n):
        return self             # FLOAT: rounding is exact


class Ghost:
    """matrix of cells; history: the matrices it was multiplied with, first one first"""
    __array_ufunc__ = None

    def __init__(self, vc, cells, history=(), unitary=True, subs=None):
        self.vc, self.cells, self.history = vc, cells, list(history)
        self.shape = (len(cells), len(cells[0]))
        self.subs = subs if subs is not None else []      # angles and the magnitudes they were taken of
        self.diagonal = None
        self.reads = None           # [reads so far, which one is zero] if only one entry read may be zero

    def fork(self):
        if self.reads is None:
            return not self.vc.choose("nonzero", 2)
        self.reads[0] += 1
        return self.reads[0] == self.reads[1]

    def copy(self):
        g = Ghost(self.vc, self.cells, self.history, subs=self.subs)
        g.diagonal = self.diagonal
        g.origin = self
        return g

    def __getitem__(self, k):
        r, c = k
        return Entry(self, self.cells[int(r)][int(c)])

    def __rmatmul__(self, m):
        m = np.asarray(m, dtype=object)
        n = self.shape[0]
        out = []
        angles = set().union(*[Num.lift(x).atoms() for x in m.reshape(-1)])
        for i in range(n):
            row = []
            terms = [(Num.lift(m[i, k]), k) for k in range(n) if not Num.lift(m[i, k]).is_zero()]
            for j in range(self.shape[1]):
                cs = [(a, self.cells[k][j]) for a, k in terms if self.cells[k][j].zero is not True]
                if not cs:
                    row.append(Cell(True))
                elif len(cs) == 1 and (cs[0][0] - 1).is_zero():
                    row.append(cs[0][1])
                elif all(x.value is not None for _, x in cs):
                    s = sum((a * self.known(x.value, angles) for a, x in cs), N.ZERO)
                    row.append(Cell(True if C.fold(s).is_zero() else None))
                else:
                    row.append(Cell(None))
            out.append(row)
        g = Ghost(self.vc, out, [*self.history, m], subs=self.subs)
        g.reads = self.reads
        return g

    def __matmul__(self, m):
        """multiplied from the right: nothing is known of the entries, and the history is no longer that of an elimination from the left"""
        g = Ghost(self.vc, [[Cell(None) for _ in row] for row in self.cells], [*self.history, Right(m)], subs=self.subs)
        g.reads = self.reads
        return g

    def known(self, v, angles):
        for t, pairs in self.subs:
            if t in angles:
                for atom, val in pairs:
                    v = N.subst(v, atom, val)
        return v

    def __abs__(self):
        return Mags(self)

    def round(self, n):
        return self

    def lower_is_zero(self):
        return all(self.cells[i][j].zero is True for i in range(self.shape[0]) for j in range(min(i, self.shape[1])))


class Right:
    shape = None

    def __init__(self, m):
        self.m = m


class Mags:
    """magnitudes of the entries, only compared with a threshold"""

    def __init__(self, u, diag=False):
        self.u, self.diag = u, diag

    def __gt__(self, o):
        return Mask(self.u, self.diag)

    __ge__ = __gt__

    def __lt__(self, o):
        return Mask(self.u, self.diag, neg=True)

    __le__ = __lt__

    def __getitem__(self, k):
        if self.diag:
            return 1.0
        return abs(self.u[k])

    def copy(self):
        return self


class Mask:
    """which entries are large (neg: small), on the whole matrix, on its diagonal or off it"""

    def __init__(self, u, diag, off=False, neg=False):
        self.u, self.diag, self.off, self.neg = u, diag, off, neg

    def __iter__(self):
        if not self.diag:
            raise Unsupported("rows of the mask")
        return iter([not self.neg] * self.u.shape[0])

    def large(self):
        """is any entry large?"""
        if self.diag:
            return True
        if not self.off:
            return True         # a unitary has a large entry
        return not is_diagonal(self.u)

    def any(self):
        if self.neg:
            if self.diag:
                return False    # FLOAT: no entry of the diagonal is noise
            raise Unsupported("any small entry of the matrix")
        return self.large()

    def all(self):
        if not self.neg:
            if self.diag:
                return True
            raise Unsupported("every entry of the matrix is large")
        return not self.large()

    def __invert__(self):
        return Mask(self.u, self.diag, self.off, not self.neg)

    def copy(self):
        return Mask(self.u, self.diag, self.off, self.neg)

    def __and__(self, o):
        """restricted to the entries off the diagonal"""
        o = np.asarray(o, dtype=bool)
        if self.diag or self.neg or o.shape != self.u.shape or (o != ~np.eye(o.shape[0], dtype=bool)).any():
            raise Unsupported("part of the mask")
        return Mask(self.u, False, True)

    __rand__ = __and__

    def __getitem__(self, o):
        if isinstance(o, np.ndarray) and o.dtype == bool:
            return self & o
        raise Unsupported("an entry of the mask")


def is_diagonal(u):
    while getattr(u, "origin", None) is not None:
        u = u.origin
    return bool(u.diagonal)


class Diag:
    """the diagonal of the matrix: entries of modulus one once the matrix is triangular, as a unitary triangular matrix is diagonal"""

    def __init__(self, u, phases):
        self.u, self.phases = u, phases

    def __getitem__(self, i):
        if self.phases is None:
            raise Unsupported("diagonal entries of a matrix that is not diagonal")
        return self.phases[i]

    def __len__(self):
        return self.u.shape[0]

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def copy(self):
        return self

    def __abs__(self):
        return Mags(self.u, True)


class Phase:
    """e^{i arg}"""

    def __init__(self, arg):
        self.arg = arg


class NP:
    """numpy of the module under contract, with the contracts of the calls on the ghost matrix"""

    def __init__(self, real, vc, u, phases=None, when="triangular"):
        self.__dict__.update(real=real, vc=vc, u=u, phases=phases, when=when)

    def __getattr__(self, n):
        return getattr(self.real, n)

    def arctan2(self, y, x):
        y, x = Num.lift(y), Num.lift(x)
        if x.is_zero():
            return N.PI / 2
        ay, ax = self.atom(y), self.atom(x)
        if ay is None or ax is None:
            return self.real.arctan2(y, x)
        h, t = self.vc.real(C.ctx().fresh("h")), self.vc.real(C.ctx().fresh("t"))
        # y = h sin t, x = h cos t
        self.u.subs.append((self.atom(t), [(ay, h * N.num_sin(t)), (ax, h * N.num_cos(t))]))
        return t

    @staticmethod
    def atom(x):
        a = list(x.atoms())
        return a[0] if len(a) == 1 and x.t == {(((a[0], N.F1),), ()): N.F1} else None

    def angle(self, z):
        if isinstance(z, Entry):
            return fl(z.cell.arg if z.cell.arg is not None else N.ZERO)
        if isinstance(z, Phase):
            return fl(z.arg)
        if isinstance(z, Diag):
            return self.real.array([self.angle(x) for x in z], dtype=object)
        return self.real.angle(z)

    def abs(self, z):
        return abs(z) if isinstance(z, (Ghost, Diag, Entry)) else self.real.abs(z)

    absolute = abs

    def matmul(self, a, b):
        return b.__rmatmul__(a) if isinstance(b, Ghost) else self.real.matmul(a, b)

    dot = matmul

    def array(self, z, *a, **k):
        return z.copy() if isinstance(z, (Ghost, Diag, Mask)) else self.real.array(z, *a, **k)

    copy = array

    def asarray(self, z, *a, **k):
        return z if isinstance(z, (Ghost, Diag, Mask)) else self.real.asarray(z, *a, **k)

    def any(self, z, *a, **k):
        return z.any() if isinstance(z, Mask) else self.real.any(z, *a, **k)

    def all(self, z, *a, **k):
        return z.all() if isinstance(z, Mask) else self.real.all(z, *a, **k)

    def diagonal(self, u, *a):
        return self.diag(u) if not a else self.real.diagonal(u, *a)

    def diag(self, u):
        if isinstance(u, (Mask, Mags)):
            return type(u)(u.u, True, neg=u.neg) if isinstance(u, Mask) else Mags(u.u, True)
        if not isinstance(u, Ghost):
            return self.real.diag(u)
        if self.when == "triangular":
            self.vc.ensure(u.lower_is_zero(), "the matrix is reduced to triangular form")
            self.__dict__["final"] = u
            return Diag(u, [Phase(p) for p in self.phases])
        return Diag(u, [Phase(p) for p in self.phases] if self.phases is not None else None)

    def count_nonzero(self, m):
        if isinstance(m, Mask):
            return self.vc.int(C.ctx().fresh("count"), 1)
        return self.real.count_nonzero(m)

    def fill_diagonal(self, m, v):
        if isinstance(m, Mask):
            m.off = True
            return None
        return self.real.fill_diagonal(m, v)


def lazy(vc, d, one_zero=False):
    """one_zero: at most one of the entries read is zero"""
    g = Ghost(vc, [[Cell() for _ in range(d)] for _ in range(d)])
    if one_zero:
        g.reads = [0, vc.choose("zero", d * (d - 1) + 1)]
    return g
