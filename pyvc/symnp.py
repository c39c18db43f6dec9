"""The stand-in for numpy (and numpy.linalg): the trusted contracts of the numpy functions the code uses."""
from __future__ import annotations

import types
import typing
from fractions import Fraction

import numpy as _np

from . import arr as A
from . import core as C
from . import num as N
from .num import Num, Unsupported


class SymDtype:
    pass


def _conc_shape(shape):
    if isinstance(shape, (tuple, list)):
        sh = [A.as_index(s) for s in shape]
    else:
        sh = [A.as_index(shape)]
    return sh, all(isinstance(s, int) for s in sh)


def _is_bool_dtype(dtype):
    return dtype in (bool, "bool", _np.bool_)


def zeros(shape, dtype=None):
    sh, conc = _conc_shape(shape)
    if conc:
        a = _np.empty(sh, dtype=object)
        a.fill(N.ZERO)
        return A_tag(a, dtype)
    for s in sh:
        if isinstance(s, Num) and not bool(s >= 0):
            raise ValueError("negative dimensions are not allowed")
    return A.SArr(sh, lambda *i: N.ZERO, rows=lambda i: [], cols=lambda j: [])


def A_tag(a, dtype):
    return a


def ones(shape, dtype=None):
    sh, conc = _conc_shape(shape)
    if conc:
        a = _np.empty(sh, dtype=object)
        a.fill(N.ONE)
        return a
    return A.SArr(sh, lambda *i: N.ONE)


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def eye(n, M=None, k=0, dtype=None):
    if k != 0 or M is not None:
        raise Unsupported("np.eye with an offset")
    n = A.as_index(n)
    if isinstance(n, int):
        a = zeros((n, n))
        for i in range(n):
            a[i, i] = N.ONE
        return a
    return A.SArr((n, n), lambda i, j: N.ONE if A.eqi(i, j) else N.ZERO, rows=lambda i: [i], cols=lambda j: [j])


def zeros_like(a, dtype=None):
    return zeros(a.shape)


def array(x, dtype=None, copy=True, ndmin=0):
    if isinstance(x, A.SArr):
        return x.copy()
    if hasattr(x, "__array__") and not isinstance(x, (_np.ndarray, Num, _np.generic)):
        return x.__array__()
    if hasattr(x, "vc_array"):
        return x.vc_array()
    if isinstance(x, (list, tuple)) and x and any(isinstance(y, A.SArr) for y in x):
        raise Unsupported("array of symbolic arrays")
    a = _np.array(x, dtype=object)
    if dtype is _np.int_:
        flat = [A.as_index(v) for v in a.reshape(-1)]
        if all(isinstance(v, (int, _np.integer)) for v in flat):
            return _np.array([int(v) for v in flat], dtype=_np.int64).reshape(a.shape)
    if dtype in ("complex", complex, _np.complex128, float, "float", int) or dtype is None:
        flat = a.reshape(-1)
        for i, v in enumerate(flat):
            if isinstance(v, (int, float, complex, _np.generic)) and not isinstance(v, (bool, _np.bool_)):
                w = Num.lift(v)
                if w is not None and (dtype is not None or isinstance(v, (float, complex))):
                    flat[i] = w
        if a.ndim > 0:
            a = flat.reshape(a.shape)
    return a


def asarray(x, dtype=None):
    if isinstance(x, (_np.ndarray, A.SArr)):
        return x
    return array(x, dtype)


def copy_(x):
    return x.copy()


def outer(a, b):
    return A.outer(asarray(a), asarray(b))


def kron(a, b):
    return A.kron(asarray(a), asarray(b))


def matmul(a, b):
    return A.matmul(asarray(a), asarray(b))


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if isinstance(a, _np.ndarray) and isinstance(b, _np.ndarray):
        return _np.dot(a, b)
    return A.matmul(a, b)


def trace_(a):
    if isinstance(a, _np.ndarray):
        return _np.trace(a)
    return A.ssum(a.shape[0], lambda k: a.at(k, k))


def _map(f):
    def g(x, *rest, **kw):
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, _np.ndarray):
            o = _np.empty(x.shape, dtype=object)
            for i in _np.ndindex(*x.shape):
                o[i] = f(x[i], *rest)
            return o
        if isinstance(x, A.SArr):
            fn = x.fn
            return A.SArr(x.shape, lambda *i: f(Num.lift(fn(*i)), *rest))
        return f(x, *rest)
    return g


def mod(a, b):
    if isinstance(a, (_np.ndarray, A.SArr)):
        return _map(lambda x: N.num_mod(x, b))(a)
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    return N.num_mod(a, b)


absolute = _map(lambda x: abs(Num.lift(x)))
cos = _map(lambda x: N.num_cos(x))
sin = _map(lambda x: N.num_sin(x))
exp = _map(lambda x: N.num_exp(x))
sqrt = _map(lambda x: N.num_sqrt(x))
conj = _map(lambda x: Num.lift(x).conjugate())
real = _map(lambda x: Num.lift(x).real)
imag = _map(lambda x: Num.lift(x).imag)


def power(a, b):
    return Num.lift(a) ** b


def transpose(a, axes=None):
    a = asarray(a)
    if isinstance(a, _np.ndarray):
        return _np.transpose(a, axes)
    return a.transpose(*axes) if axes is not None else a.T


def reshape(a, shape):
    return asarray(a).reshape(*shape) if isinstance(shape, (tuple, list)) else asarray(a).reshape(shape)


def arctan2(y, x):
    y, x = C.fold(Num.lift(y)), C.fold(Num.lift(x))
    vy, vx = C.numeric_const(y), C.numeric_const(x)
    if y.is_zero() and vx is not None:
        return N.ZERO if vx.real >= 0 else N.PI
    if x.is_zero() and vy is not None:
        return N.PI / 2 if vy.real > 0 else -N.PI / 2
    # a known polar pair: y = R sin(t), x = R cos(t)
    for R, t in C.ctx().polar:
        if (y - R * N.num_sin(t)).is_zero() and (x - R * N.num_cos(t)).is_zero():
            return t
    # zero (or not) is decided here, so that the radius of the angle atom is not zero
    if y.is_zero() and x.is_zero():
        return N.ZERO
    if y.is_zero() or x.is_zero():
        s = x if y.is_zero() else y
        pos = bool(s >= 0)
        if y.is_zero():
            return N.ZERO if pos else N.PI
        return N.PI / 2 if pos else -N.PI / 2
    t = N.Num.opaque("arctan2", y, x)
    C.ctx().define(C.z3.And(C.zreal(t) < C.z3.RealVal("3.1415926536"), C.zreal(t) > C.z3.RealVal("-3.1415926536")))
    return t


def angle(z):
    z = C.fold(Num.lift(z))
    if not z.t:
        return N.ZERO
    if len(z.t) == 1:
        ((m, p), c), = z.t.items()
        if all(C.positive_atom(a) for a, _ in m):
            E = Num({(mm, ()): cc for mm, cc in p})
            if c < 0:
                E = E + 1
            if not p:
                return N.PI * E
            # principal value: E + 2k in (-1, 1]
            f = E.as_fraction()
            if f is not None:
                while f > 1:
                    f -= 2
                while f <= -1:
                    f += 2
                return N.PI * f
            k = Num.var(C.ctx().fresh("turn"), "int")
            v = E + 2 * k
            if v.is_real_form():
                zz = C.zreal(v)
                C.ctx().add(C.z3.And(zz > -1, zz <= 1))
            return N.PI * v
    u = C.positive_sum(z)
    if u is not None:
        return angle(u)
    raise Unsupported(f"np.angle of a sum: {z!r}")


def arccos(x):
    return N.Num.opaque("arccos", Num.lift(x))


def arcsin(x):
    return N.Num.opaque("arcsin", Num.lift(x))


def sign(x):
    x = Num.lift(x)
    if bool(x > 0):
        return N.ONE
    if bool(x < 0):
        return -N.ONE
    return N.ZERO


def round_(x, n=0):
    raise Unsupported("np.round")


def issubdtype(a, b):
    if a == _np.dtype(object) or a is object:
        return b in (_np.number, _np.complexfloating, _np.inexact)
    return _np.issubdtype(a, b)


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all(bool(Num.lift(x) == Num.lift(y)) for x, y in zip(a.reshape(-1), b.reshape(-1)))


def sum_(a, axis=None):
    a = asarray(a)
    if isinstance(a, A.SArr):
        if axis is not None:
            raise Unsupported("np.sum along an axis of symbolic length")

        def go(i):
            return A.ssum(a.shape[len(i)], lambda k: go([*i, k])) if len(i) < len(a.shape) else a.at(*i)
        return go([])
    return _np.sum(a, axis=axis)


def prod(a, axis=None):
    r = 1
    for x in a:
        r = r * x
    return r


def arange(*a):
    v = [A.as_index(x) for x in a]
    if all(isinstance(x, int) for x in v):
        return _np.arange(*v).astype(object)
    raise Unsupported("np.arange symbolic")


def argsort(x):
    from .builtins_ import vc_sorted
    x = list(x)
    return _np.array(vc_sorted(range(len(x)), key=lambda i: x[i]), dtype=object)


def count_nonzero(a):
    n = 0
    for x in asarray(a).reshape(-1):
        if bool(Num.lift(x) != 0):
            n += 1
    return n


def where(c, a, b):
    raise Unsupported("np.where")


def diag(a):
    a = asarray(a)
    if a.ndim == 1:
        m = zeros((len(a), len(a)))
        for i, x in enumerate(a):
            m[i, i] = x
        return m
    return _np.diag(a)


def vdot(a, b):
    if isinstance(a, A.SArr) or isinstance(b, A.SArr):
        a, b = A.to_sarr(a), A.to_sarr(b)
        if not A.eqi(a.size, b.size):
            raise ValueError("cannot reshape array")
        if len(a.shape) != len(b.shape):
            raise Unsupported("np.vdot of arrays of different ranks")

        def go(i):
            return A.ssum(a.shape[len(i)], lambda k: go([*i, k])) if len(i) < len(a.shape) else Num.lift(a.at(*i)).conjugate() * b.at(*i)
        return go([])
    a, b = asarray(a).reshape(-1), asarray(b).reshape(-1)
    r = N.ZERO
    for x, y in zip(a, b):
        r = r + Num.lift(x).conjugate() * y
    return r


def allclose(a, b, **k):
    raise Unsupported("np.allclose")


def einsum(*ops, optimize=False, **k):
    """einsum(array, labels): labels that occur twice are summed, the others give the axes in ascending order"""
    if len(ops) != 2 or isinstance(ops[0], str) or k:
        raise Unsupported("np.einsum in this form")
    a, lab = asarray(ops[0]), [int(A.as_index(x)) for x in ops[1]]
    if len(lab) != a.ndim:
        raise ValueError("einsum: wrong number of labels")
    size = {}
    for x, d in zip(lab, a.shape):
        if size.setdefault(x, d) != d:
            raise ValueError("einsum: dimensions of a repeated label differ")
    free = sorted(x for x in size if lab.count(x) == 1)
    bound = sorted(x for x in size if lab.count(x) > 1)
    if isinstance(a, A.SArr):
        def fn(*i):
            def go(v, rest):
                return A.ssum(size[rest[0]], lambda k: go({**v, rest[0]: k}, rest[1:])) if rest else a.at(*[v[x] for x in lab])
            return go(dict(zip(free, i)), bound)
        return A.SArr([size[x] for x in free], fn)
    out = _np.empty([size[x] for x in free], dtype=object)
    for i in _np.ndindex(*out.shape):
        t = N.ZERO
        for j in _np.ndindex(*[size[x] for x in bound]):
            v = dict(zip(free, i)) | dict(zip(bound, j))
            t = t + a[tuple(v[x] for x in lab)]
        out[i] = t
    return out


def tile(a, n):
    return _np.tile(asarray(a), n)


def squeeze(a, axis=None):
    return _np.squeeze(asarray(a), axis)


SPECTRA = ((0, 1), (0, Fraction(1, 4), 1), (-1, 0, 1), (-1, 1), (0, 1, 4), (0, 2), (0, Fraction(1, 2)), (-Fraction(1, 2), 0, Fraction(1, 2)),
           (0, Fraction(1, 2), 2), (0, Fraction(1, 4)))


def expm(a):
    """scipy.linalg.expm: a diagonal -> the exponentials of the diagonal; a = c Q with distinct rational l_i and prod(Q - l_i) = 0
    (checked entry by entry) -> sum_i exp(c l_i) prod_{j != i} (Q - l_j)/(l_i - l_j)"""
    a = asarray(a)
    n = a.shape[0]
    conc = isinstance(a, _np.ndarray)
    c = C.ctx()
    c.ncalls = getattr(c, "ncalls", 0) + 1
    key = c.prefix(("expm", c.ncalls))
    hit = c.persist.get(key)
    if hit is None:
        hit = _expm_form(a, n, conc)
        c.persist[key] = hit
    if hit[0] == "zero":
        return eye(n)
    if hit[0] == "diag":
        f = a.fn
        return A.SArr(a.shape, lambda i, j: N.num_exp(Num.lift(f(i, i))) if A.eqi(i, j) else N.ZERO, rows=lambda i: [i], cols=lambda j: [j])
    cc, lam = C.unpack(hit[1]), hit[2]
    Q = a * (N.ONE / cc)
    I_ = eye(n)
    tot = None
    for i, li in enumerate(lam):
        t = None
        for j, lj in enumerate(lam):
            if j != i:
                f = (Q - I_ * lj) * Num.const(Fraction(1) / (Fraction(li) - lj))
                t = f if t is None else A.matmul(t, f)
        t = t * N.num_exp(cc * li)
        tot = t if tot is None else tot + t
    return tot


def _expm_form(a, n, conc):
    if not conc and _diagonal(a):
        return ("diag",)
    if conc:
        seen = [Num.lift(x) for x in a.reshape(-1)]
    else:
        c = C.ctx()
        sizes = a.fac[0] if a.fac and a.fac[0] else [n]
        p, q = (tuple(Num.var(c.fresh(s), "int") for _ in sizes) for s in "pq")

        def run():
            for x in (p, q):
                for at, sz in zip(x, sizes):
                    c.add(C.zreal(at) >= 0)
                    c.add(C.zreal(at) < C.zreal(Num.lift(sz)))
            return a.at(_join(p, [sizes]), _join(q, [sizes]))
        seen = C.sub_explore(run)
    nz = [x for x in seen if not x.is_zero()]
    if not nz:
        return ("zero",)
    ((m, ph), co) = next(iter(nz[0].t.items()))
    cc = Num({(m, ph): Fraction(1)})
    if any((x / cc).as_fraction() is None for x in nz):
        raise Unsupported("expm: not a multiple of a rational matrix")
    if co < 0:
        cc = -cc
    Q = a * (N.ONE / cc)
    I_ = eye(n)
    for lam in SPECTRA:
        pr = Q - I_ * lam[0]
        for l in lam[1:]:
            pr = A.matmul(pr, Q - I_ * l)
        if _zero_matrix(pr, a.fac if not conc else None):
            return ("spec", C.pack(cc), lam)
    raise Unsupported("expm: spectrum not found")


def _diagonal(M):
    c = C.ctx()
    p, q = (Num.var(c.fresh(s), "int") for s in ("dp", "dq"))

    def run():
        for at in (p, q):
            c.add(C.zreal(at) >= 0)
            c.add(C.zreal(at) < C.zreal(Num.lift(M.shape[0])))
        if bool(p == q):
            raise C.PathEnd
        return c.norm(M.at(p, q)).is_zero()
    return all(C.sub_explore(run))


def _join(p, fac):
    if not isinstance(p, tuple):
        return p
    r = None
    for at, sz in zip(p, fac[0]):
        r = at if r is None else r * sz + at
    return r


def _zero_matrix(M, fac):
    if isinstance(M, _np.ndarray):
        return all(Num.lift(x).is_zero() for x in M.reshape(-1))
    c = C.ctx()
    sizes = fac[0] if fac and fac[0] else [M.shape[0]]
    p = tuple(Num.var(c.fresh("zp"), "int") for _ in sizes)
    q = tuple(Num.var(c.fresh("zq"), "int") for _ in sizes)

    def run():
        for x in (p, q):
            for at, sz in zip(x, sizes):
                c.add(C.zreal(at) >= 0)
                c.add(C.zreal(at) < C.zreal(Num.lift(sz)))
        if c.check() == C.z3.unsat:
            raise C.PathEnd
        return c.norm(M.at(_join(p, [sizes]), _join(q, [sizes]))).is_zero()
    return all(C.sub_explore(run))


# linalg
def matrix_power(a, n):
    n = A.as_index(n)
    if isinstance(a, A.SArr) or isinstance(n, Num):
        if hasattr(a, "vc_power"):
            return a.vc_power(n)
        raise Unsupported("matrix_power of a symbolic matrix")
    if n < 0:
        raise Unsupported("negative matrix power")
    r = eye(a.shape[0])
    for _ in range(n):
        r = r @ a
    return r


def _rational(a):
    """the entries as fractions, or None"""
    out = []
    for row in a:
        out.append([Num.lift(x).as_fraction() for x in row])
        if any(x is None for x in out[-1]):
            return None
    return out


def _eliminate(m, rhs):
    """Gauss: the determinant of a rational matrix; rhs (one column of numbers) is transformed to the solution"""
    n, d = len(m), Fraction(1)
    m = [list(map(Fraction, r)) for r in m]
    for c in range(n):
        k = next((r for r in range(c, n) if m[r][c] != 0), None)
        if k is None:
            return Fraction(0)
        if k != c:
            m[c], m[k], rhs[c], rhs[k] = m[k], m[c], rhs[k], rhs[c]
            d = -d
        d *= m[c][c]
        for r in range(n):
            if r != c and m[r][c] != 0:
                f = m[r][c] / m[c][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
                rhs[r] = rhs[r] - rhs[c] * Num.const(f)
    for c in range(n):
        rhs[c] = rhs[c] * Num.const(1 / m[c][c])
    return d


def solve(a, b):
    """the solution of a linear system with a rational matrix"""
    a, b = asarray(a), asarray(b)
    m = _rational(a)
    if m is None or b.ndim != 1:
        raise Unsupported("numpy.linalg.solve")
    rhs = [Num.lift(x) for x in b]
    if _eliminate(m, rhs) == 0:
        raise _np.linalg.LinAlgError("Singular matrix")
    return asarray(rhs)


def det(a):
    a = asarray(a)
    n = a.shape[0]
    m = _rational(a)
    if m is not None:
        return Num.const(_eliminate(m, [N.ZERO] * n))
    if n == 1:
        return a[0, 0]
    r = N.ZERO
    for j in range(n):
        minor = _np.delete(_np.delete(a, 0, 0), j, 1)
        t = Num.lift(a[0, j]) * det(minor)
        r = r + (t if j % 2 == 0 else -t)
    return r


def inv(a):
    a = asarray(a)
    n = a.shape[0]
    d = Num.lift(det(a))
    if d.is_zero():
        raise _np.linalg.LinAlgError("Singular matrix")
    o = zeros((n, n))
    for i in range(n):
        for j in range(n):
            minor = _np.delete(_np.delete(a, j, 0), i, 1)
            m = det(minor) if n > 1 else N.ONE
            o[i, j] = (m if (i + j) % 2 == 0 else -m) / d
    return o


class _Linalg(types.ModuleType):
    def __getattr__(self, n):
        if n == "LinAlgError":
            return _np.linalg.LinAlgError
        if n == "norm":
            return norm
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(f"numpy.linalg.{n}")


def norm(a, *r, **k):
    a = asarray(a)
    t = N.ZERO
    for x in a.reshape(-1):
        x = Num.lift(x)
        t = t + x * x.conjugate()
    return N.num_sqrt(t)


linalg = _Linalg("numpy.linalg")
linalg.matrix_power, linalg.det, linalg.inv, linalg.solve = matrix_power, det, inv, solve


class RngRequired(Exception):
    pass


class _Random(types.ModuleType):
    handler = None

    def __getattr__(self, n):
        if self.handler is not None and hasattr(self.handler, n):
            return getattr(self.handler, n)
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(f"numpy.random.{n}")


random = _Random("numpy.random")


class SymNumpy(types.ModuleType):
    ndarray_types = (_np.ndarray, A.SArr)

    def __getattr__(self, n):
        if n == "pi":
            from .builtins_ import fl
            return fl(N.PI)
        if n == "e":
            return Num({(N.EXP_MONO, ()): N.F1})
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(f"numpy.{n}")


class Missing:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        raise Unsupported(self.name)

    def __getattr__(self, n):
        raise Unsupported(f"{self.name}.{n}")

    def __or__(self, o):
        return object

    __ror__ = __or__


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_np.ndarray, A.SArr)) or getattr(x, "vc_ndarray", False)

    def __call__(cls, shape=(), dtype=None):
        return zeros(tuple(shape) if isinstance(shape, (list, tuple)) else shape)


class ndarray(metaclass=_NdMeta):
    def __class_getitem__(cls, item):
        return cls


STRUCTURAL = ("concatenate stack hstack vstack roll flip fliplr flipud rot90 diagonal moveaxis swapaxes expand_dims ravel unravel_index ravel_multi_index atleast_1d atleast_2d "
              "broadcast_to repeat split array_split block ix_ cumsum cumprod delete insert append meshgrid triu tril fill_diagonal full full_like empty ones_like flatnonzero nonzero").split()


def _structural(name):
    f = getattr(_np, name)

    def go(x):
        if isinstance(x, A.SArr):
            raise Unsupported(f"numpy.{name} of an array of symbolic shape")
        if isinstance(x, Num) and x.as_int() is not None and name not in ("full", "full_like", "fill_diagonal", "append", "insert"):
            return A.as_index(x)
        if isinstance(x, (tuple, list)):
            return type(x)(go(y) for y in x)
        return x

    def g(*a, **k):
        a, k = [go(x) for x in a], {n: go(x) for n, x in k.items()}
        if name in ("empty", "full", "ones_like", "full_like"):
            k["dtype"] = object
        r = f(*a, **k)
        if name in ("empty", "ones_like"):
            r.fill(N.ZERO if name == "empty" else N.ONE)
        return r
    g.__name__ = name
    return g


def _special(name):
    f = getattr(_np, name)

    def g(x):
        if isinstance(x, (int, float, complex)):
            return bool(f(x))
        if isinstance(x, Num):         # exact numbers are finite
            return name == "isfinite"
        raise Unsupported(f"numpy.{name} of an array")
    g.__name__ = name
    return g


def fl_(x):
    from .builtins_ import fl
    return fl(x)


def _floor_of(x, f=_np.floor):
    if isinstance(x, Num):
        from .builtins_ import _floor
        return fl_(_floor(x))
    if isinstance(x, (int, float)):
        return f(x)
    raise Unsupported("numpy.floor of an array")


def make():
    m = SymNumpy("numpy")
    for n in STRUCTURAL:
        setattr(m, n, _structural(n))
    for n in ("isinf", "isnan", "isfinite", "isposinf", "isneginf"):
        setattr(m, n, _special(n))
    m.nan = float("nan")
    m.floor, m.ceil = _floor_of, lambda x: -_floor_of(-x) if isinstance(x, Num) else _floor_of(x, _np.ceil)
    g = globals()
    for n in ("zeros ones identity eye zeros_like array asarray outer kron matmul dot mod absolute cos sin exp sqrt conj real imag power "
              "transpose reshape arctan2 angle arccos arcsin sign issubdtype array_equal prod arange argsort count_nonzero diag vdot "
              "ndarray linalg random where allclose einsum tile squeeze").split():
        setattr(m, n, g[n])
    m.remainder = mod
    m.abs = absolute
    m.conjugate = conj
    m.sum = sum_
    m.round = round_
    m.around = round_
    m.trace = trace_
    m.copy = copy_
    m.complex128 = complex
    m.complex64 = complex
    m.float64 = float
    m.int64 = int
    m.int_ = _np.int_
    m.integer = _np.integer
    m.number = _np.number
    m.floating = _np.floating
    m.complexfloating = _np.complexfloating
    m.newaxis = None
    m.seterr = lambda **k: {}
    m.set_printoptions = lambda *a, **k: None
    m.bool_ = bool
    m.inf = float("inf")
    m.ndindex = _np.ndindex
    t = types.ModuleType("numpy.typing")
    t.NDArray = typing.Any
    t.ArrayLike = typing.Any
    m.typing = t
    m.linalg.__dict__.setdefault("__path__", [])
    return m
