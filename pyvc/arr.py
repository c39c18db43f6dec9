"""Arrays.  Concrete shape: real numpy object arrays of Nums.  Symbolic shape: SArr, a function from index to Num."""
from __future__ import annotations

import itertools

import numpy as np

from . import core as C
from . import num as N
from .num import Num, Unsupported


def is_conc(x):
    return isinstance(x, (int, np.integer)) or (isinstance(x, Num) and x.as_int() is not None)


def as_index(x):
    if isinstance(x, Num):
        v = x.as_int()
        return v if v is not None else x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if hasattr(x, "__index__"):
        return x.__index__()
    raise IndexError(f"index {x!r}")


def eqi(a, b):
    """index equality, branching"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return bool(Num.lift(a) == Num.lift(b))


class SArr:
    """ndarray with at least one symbolic dimension"""
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, shape, fn, dtype=None, fac=None, rows=None, cols=None):
        self.shape = tuple(shape)
        self.fn = fn
        self.rows = rows        # row -> columns outside which the row is zero (None: unknown)
        self.cols = cols
        self.fac = fac          # sizes of the tensor factors of every axis, outermost first
        self.dtype = dtype or np.dtype(complex)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    def at(self, *idx):
        return Num.lift(self.fn(*idx))

    def _bound(self, i, n):
        """numpy's bounds check and negative index rule"""
        i = as_index(i)
        if isinstance(i, Num):
            i = C.ctx().norm(i)
        if not bool(Num.lift(i) < Num.lift(n)):
            raise IndexError("index out of bounds")
        if not bool(Num.lift(i) >= 0):
            if not bool(Num.lift(i) + n >= 0):
                raise IndexError("index out of bounds")
            return i + n
        return i

    def _norm_idx(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, (slice, list)) or k is None or k is Ellipsis for k in key):
            return None
        if len(key) > self.ndim:
            raise IndexError("too many indices")
        return tuple(self._bound(k, n) for k, n in zip(key, self.shape))

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2 and self.ndim == 2 and isinstance(key[0], slice) and key[0] == slice(None) \
                and hasattr(key[1], "sym_at"):
            perm = key[1]
            f = self.fn
            return SArr((self.shape[0], perm.sym_len), lambda i, j: f(i, perm.sym_at(j)), self.dtype)
        idx = self._norm_idx(key)
        if idx is None:
            ks = key if isinstance(key, tuple) else (key,)
            if all(k == slice(None) for k in ks if isinstance(k, slice)) and not any(isinstance(k, list) or k is None or k is Ellipsis for k in ks):
                ks = ks + (slice(None),) * (self.ndim - len(ks))
                fixed = [self._bound(k, n) if not isinstance(k, slice) else None for k, n in zip(ks, self.shape)]
                f = self.fn

                def g(*rest):
                    it = iter(rest)
                    return f(*[next(it) if x is None else x for x in fixed])
                return SArr([n for n, x in zip(self.shape, fixed) if x is None], g, self.dtype)
            raise Unsupported("slice of a symbolic array")
        if len(idx) < self.ndim:
            f = self.fn
            return SArr(self.shape[len(idx):], lambda *r: f(*idx, *r), self.dtype)
        return self.at(*idx)

    def __setitem__(self, key, val):
        idx = self._norm_idx(key)
        if idx is None or len(idx) < self.ndim:
            raise Unsupported("slice assignment to a symbolic array")
        val = Num.lift(val)
        if val is None:
            raise Unsupported("non-numeric value stored in an array")
        old = self.fn

        def fn(*i):
            if all(eqi(a, b) for a, b in zip(i, idx)):
                return val
            return old(*i)
        self.fn = fn
        if self.ndim == 2:
            r, c, (p, q) = self.rows, self.cols, idx
            self.rows = None if r is None else (lambda i: r(i) + ([q] if eqi(i, p) else []))
            self.cols = None if c is None else (lambda j: c(j) + ([p] if eqi(j, q) else []))

    # elementwise -----------------------------------------------------------------
    def _bin(self, o, f, sup="add"):
        a = self.fn
        if isinstance(o, SArr) or isinstance(o, np.ndarray) and o.ndim > 0:
            o = to_sarr(o)
            if o.ndim != self.ndim:
                raise Unsupported("broadcasting")
            for x, y in zip(self.shape, o.shape):
                if not eqi(x, y):
                    raise ValueError("operands could not be broadcast together")
            b = o.fn
            rows, cols = union(self.rows, o.rows, sup), union(self.cols, o.cols, sup)
            return SArr(self.shape, lambda *i: f(Num.lift(a(*i)), Num.lift(b(*i))), self.dtype, self.fac or o.fac, rows, cols)
        s = Num.lift(o)
        if s is None:
            return NotImplemented
        keep = sup == "mul" or s.is_zero()
        return SArr(self.shape, lambda *i: f(Num.lift(a(*i)), s), self.dtype, self.fac, self.rows if keep else None, self.cols if keep else None)

    def __add__(self, o): return self._bin(o, lambda x, y: x + y)
    def __radd__(self, o): return self._bin(o, lambda x, y: y + x)
    def __sub__(self, o): return self._bin(o, lambda x, y: x - y)
    def __rsub__(self, o): return self._bin(o, lambda x, y: y - x)
    def __mul__(self, o): return self._bin(o, lambda x, y: x * y, 'mul')
    def __rmul__(self, o): return self._bin(o, lambda x, y: y * x, 'mul')
    def __truediv__(self, o): return self._bin(o, lambda x, y: x / y, 'mul')
    def __neg__(self):
        f = self.fn
        return SArr(self.shape, lambda *i: -Num.lift(f(*i)), self.dtype, self.fac, self.rows, self.cols)

    def __iadd__(self, o):
        return self._set(self._bin(o, lambda x, y: x + y))

    def __isub__(self, o):
        return self._set(self._bin(o, lambda x, y: x - y))

    def __imul__(self, o):
        return self._set(self._bin(o, lambda x, y: x * y, 'mul'))

    def __itruediv__(self, o):
        return self._set(self._bin(o, lambda x, y: x / y, 'mul'))

    def _set(self, r):
        self.fn, self.fac, self.rows, self.cols = r.fn, r.fac, r.rows, r.cols
        return self

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def conj(self):
        f = self.fn
        return SArr(self.shape, lambda *i: Num.lift(f(*i)).conjugate(), self.dtype, self.fac, self.rows, self.cols)

    conjugate = conj

    @property
    def T(self):
        f = self.fn
        return SArr(self.shape[::-1], lambda *i: f(*i[::-1]), self.dtype, self.fac[::-1] if self.fac else None, self.cols, self.rows)

    def transpose(self, *axes):
        if not axes:
            return self.T
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        f = self.fn
        inv = [axes.index(k) for k in range(len(axes))]
        return SArr([self.shape[a] for a in axes], lambda *i: f(*[i[k] for k in inv]), self.dtype)

    @property
    def real(self):
        f = self.fn
        return SArr(self.shape, lambda *i: Num.lift(f(*i)).real, self.dtype)

    @property
    def imag(self):
        f = self.fn
        return SArr(self.shape, lambda *i: Num.lift(f(*i)).imag, self.dtype)

    def copy(self):
        return SArr(self.shape, self.fn, self.dtype, self.fac, self.rows, self.cols)

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, *a, **k):
        return self.copy()

    def ravel(self):
        return self.copy() if self.ndim == 1 else self.reshape(self.size)

    flatten = ravel

    def reshape(self, *shape, order="C"):
        """row-major; blocks of axes with equal products are regrouped"""
        if order != "C":
            raise Unsupported("reshape in this order")
        shape = list(shape[0]) if len(shape) == 1 and not isinstance(shape[0], (int, np.integer, Num)) else list(shape)
        shape = [as_index(x) for x in shape]
        for k, x in enumerate(shape):
            if isinstance(x, int) and x == -1:
                r = Num.lift(self.size)
                for y in shape[:k] + shape[k + 1:]:
                    r = r / y
                shape[k] = as_index(r)
        if not eqi(self.size, SArr(shape, None).size):
            raise ValueError("cannot reshape array")
        blocks, i, j = [], 0, 0
        while i < self.ndim or j < len(shape):
            a, b, p, q = [], [], N.ONE, N.ONE
            while True:
                if a and b and (p - q).is_zero() or i == self.ndim and j == len(shape):
                    break
                if i == self.ndim or j < len(shape) and (len(b) <= len(a)):
                    b.append(shape[j])
                    q, j = C.ctx().norm(q * shape[j]), j + 1
                else:
                    a.append(self.shape[i])
                    p, i = C.ctx().norm(p * self.shape[i]), i + 1
            blocks.append((a, b))
        f = self.fn

        def fn(*idx):
            idx, src = list(idx), []
            for a, b in blocks:
                part, idx = idx[:len(b)], idx[len(b):]
                flat = N.ZERO
                for x, n in zip(part, b):
                    flat = flat * n + x
                out = []
                for n in reversed(a[1:]):
                    flat, r = divmod_idx(flat, n, None)
                    flat = Num.lift(flat)
                    out.append(r)
                src += ([flat] if a else []) + out[::-1]
            return f(*src)
        return SArr(shape, fn, self.dtype)

    def dot(self, o):
        return matmul(self, o)

    def __len__(self):
        return C.concretise(Num.lift(self.shape[0]))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic array")

    def __bool__(self):
        raise ValueError("The truth value of an array is ambiguous")

    def __eq__(self, o):
        raise Unsupported("array comparison")

    __hash__ = None


def to_sarr(a):
    if isinstance(a, SArr):
        return a
    a = np.asarray(a, dtype=object)

    def fn(*i):
        return a[tuple(C.concretise(Num.lift(x)) if isinstance(x, Num) else x for x in i)]
    return SArr(a.shape, fn)


def union(a, b, how):
    if how == "mul":
        return a if a is not None else b
    if a is None or b is None:
        return None
    return lambda i: a(i) + b(i)


def dedupe(ks):
    out = []
    for k in ks:
        if not any(k is q or eqi(as_index(k), as_index(q)) for q in out):
            out.append(k)
    return out


def ssum(n, f):
    """sum over 0 <= k < n of f(k), n symbolic; every non-zero case must pin k to an explicit value"""
    v = Num.lift(n).as_int()
    if v is not None:
        r = N.ZERO
        for k in range(v):
            r = r + f(k)
        return r
    c = C.ctx()
    kn = Num.var(c.fresh("k"), "int")

    def run():
        c.add(C.zreal(kn) >= 0)
        c.add(C.zreal(kn) < C.zreal(Num.lift(n)))
        n0 = len(c.subs)
        val = f(kn)
        val = c.norm(val)
        if val.is_zero():
            return None
        (at,) = kn.atoms()
        for a, v in c.subs[n0:]:
            if a is at:
                return v
        # k may have been used to eliminate another atom: solve for it
        for a, v in c.subs[n0:]:
            if at in v.atoms():
                w = Num({(((a, N.F1),), ()): N.F1})
                diff = w - v
                for (m, p), cc in diff.t.items():
                    if len(m) == 1 and m[0][0] is at and m[0][1] == 1 and abs(cc) == 1:
                        rest = Num({kk: vv for kk, vv in diff.t.items() if kk != (m, p)})
                        return rest * (-1 / cc)
        # numerically pinned
        if c.check() == C.z3.sat:
            mv = c.solver.model().eval(C.zatom(at), model_completion=True)
            if c.prove(C.zatom(at) == mv):
                return Num.lift(C.zval(mv))
        if c.subs[n0:]:
            raise Unsupported("dense symbolic sum on part of the range")
        return ("dense", val)
    pins = []
    found = C.sub_explore(run)
    if len(found) == 1 and isinstance(found[0], tuple):
        return sigma([(kn, c.norm(Num.lift(n)))], found[0][1])
    for p in found:
        if p is None:
            continue
        if isinstance(p, tuple):
            raise Unsupported("dense symbolic sum")
        if not any((p - q).is_zero() for q in pins):
            pins.append(p)
    tot = N.ZERO
    seen = []
    for p in pins:
        p = c.norm(p)
        if not bool(p >= 0) or not bool(p < n):
            continue
        if any(bool(p == q) for q in seen):
            continue
        seen.append(p)
        tot = tot + Num.lift(f(p))
    return tot


def depends(a, bound):
    """does the atom depend on one of the bound variables?"""
    return any(a is b for b in bound) or a in N.a_args and any(depends(x, bound) for arg in N.a_args[a][1] for x in arg.atoms())


def depends_on(n, k):
    """does the number depend on the variable k?"""
    (b,) = k.atoms()
    return any(depends(a, (b,)) for a in n.atoms())


def rename(n, old, new):
    """n with the atoms old replaced by the numbers new, in the arguments of opaque atoms too"""
    def of(a):
        for x, y in zip(old, new):
            if a is x:
                return y
        f, args = N.a_args[a]
        args = [rename(x, old, new) for x in args]
        if f in ("inv", "sqrt", "abs", "angle", "floor", "arctan2", "arccos", "arcsin", "exp", "log"):
            raise Unsupported("this function under a sum")
        return Num.opaque(f, *args, kind=a.kind)
    out = N.ZERO
    for (m, p), c in n.t.items():
        x = Num.const(1) * c
        for a, e in m:
            x = x * (of(a) ** Num.lift(e) if depends(a, old) else Num({(((a, e),), ()): N.F1}))
        if p:
            ex = N.ZERO
            for mm, cc in p:
                y = Num({((), ()): cc})
                for a, e in mm:
                    y = y * (of(a) ** Num.lift(e) if depends(a, old) else Num({(((a, e),), ()): N.F1}))
                ex = ex + y
            x = x * N.num_exp(N.I * N.PI * ex)
        out = out + x
    return out


def sigma(binders, body):
    """the sum of body over 0 <= k < n for the binders (k, n), as an opaque number that depends on the body and the ranges only: sums of sums are one sum over both, the
    order and the names of the summation variables do not matter, what does not depend on them is taken out"""
    out = N.ZERO
    for (m, p), c in body.t.items():
        bound, ranges = [k.atoms().copy().pop() if isinstance(k, Num) else k for k, _ in binders], [n for _, n in binders]
        free, dep = Num.const(1) * c, N.ONE
        for a, e in m:
            if a in N.a_args and N.a_args[a][0] == "sum" and e == 1 and depends(a, bound):
                args = N.a_args[a][1]
                inner, rs = args[0], list(args[1:])
                ks = [Num.var(C.ctx().fresh("k"), "int") for _ in rs]
                inner = rename(inner, [N.T.atom(f"bound{i}", "int") for i in range(len(rs))], ks)
                dep = dep * inner
                bound += [k.atoms().copy().pop() for k in ks]
                ranges += rs
            elif depends(a, bound):
                dep = dep * Num({(((a, e),), ()): N.F1})
            else:
                free = free * Num({(((a, e),), ()): N.F1})
        for mm, cc in p:
            y = N.num_exp(N.I * N.PI * Num({(mm, ()): cc}))
            if any(depends(a, bound) for a, _ in mm):
                dep = dep * y
            else:
                free = free * y
        if len(dep.t) != 1:
            out = out + free * sigma(list(zip(bound, ranges)), dep)
            continue
        used = [i for i, b in enumerate(bound) if any(depends(a, [b]) for a in dep.atoms())]
        for i, r in enumerate(ranges):
            if any(depends(a, bound) for a in r.atoms()):
                raise Unsupported("a sum whose range depends on another sum's variable")
            if i not in used:
                free = free * r
        if not used:
            out = out + free * dep
            continue
        (k0, c0), = dep.t.items()
        free, dep = free * Num.const(1) * c0, Num({k0: N.F1})
        best = None
        for perm in itertools.permutations(used):
            names = [Num.var(f"bound{i}", "int") for i in range(len(perm))]
            x = rename(dep, [bound[i] for i in perm], names)
            key = (tuple(ranges[i].key() for i in perm), x.key())
            if best is None or key < best[0]:
                best = (key, x, [ranges[i] for i in perm])
        _, x, rs = best
        (k1, c1), = x.t.items()
        out = out + free * c1 * Num.opaque("sum", Num({k1: N.F1}), *rs, kind="real" if x.is_real_form() else "cplx")
    return out


def matmul(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a @ b
    a, b = to_sarr(a), to_sarr(b)
    fa, fb = a.fn, b.fn
    if not eqi(a.shape[-1], b.shape[0]):
        raise ValueError("matmul: mismatch in dimension")
    n = a.shape[-1]
    if a.ndim == 2 and b.ndim == 2:
        ra, rb, ca, cb = a.rows, b.rows, a.cols, b.cols
        rows = (lambda i: dedupe(c for k in dedupe(ra(i)) for c in rb(k))) if ra and rb else None
        cols = (lambda j: dedupe(r for k in dedupe(cb(j)) for r in ca(k))) if ca and cb else None

        def fn(i, j):
            ks = dedupe(ra(i)) if ra else dedupe(cb(j)) if cb else None
            if ks is not None:
                tot = N.ZERO
                for k in ks:
                    x = Num.lift(fa(i, k))
                    if not x.is_zero():
                        tot = tot + x * Num.lift(fb(k, j))
                return tot

            def term(k):
                x = C.ctx().norm(Num.lift(fa(i, k)))
                if x.is_zero():
                    return N.ZERO
                return x * Num.lift(fb(k, j))
            fac = (a.fac and a.fac[1]) or (b.fac and b.fac[0])
            if fac and len(fac) > 1:
                return fsum(fac, term)
            return ssum(n, term)
        return SArr((a.shape[0], b.shape[1]), fn, None, [a.fac[0] if a.fac else None, b.fac[1] if b.fac else None] if a.fac or b.fac else None, rows, cols)
    if a.ndim == 2 and b.ndim == 1:
        return SArr((a.shape[0],), lambda i: ssum(n, lambda k: Num.lift(fa(i, k)) * Num.lift(fb(k))))
    if a.ndim == 1 and b.ndim == 1:
        return ssum(n, lambda k: Num.lift(fa(k)) * Num.lift(fb(k)))
    if a.ndim == 1 and b.ndim == 2:
        return SArr((b.shape[1],), lambda j: ssum(n, lambda k: Num.lift(fa(k)) * Num.lift(fb(k, j))))
    raise Unsupported("matmul of these ranks")


def fsum(fac, term, pre=None):
    """sum over a factored axis: one sum per factor"""
    if not fac:
        return term(pre)
    return ssum(fac[0], lambda k: fsum(fac[1:], term, Num.lift(k) if pre is None else pre * fac[0] + k))


def divmod_idx(i, p, n=None):
    """i = q*p + r with 0 <= r < p (and 0 <= q < n, the caller's bounds)"""
    i, p = Num.lift(i), Num.lift(p)
    v, w = i.as_int(), p.as_int()
    if v is not None and w is not None:
        return divmod(v, w)
    c = C.ctx()
    i, p = c.norm(i), c.norm(p)
    q = Num()
    for k, cc in i.t.items():
        t = Num({k: cc}) * p.inv()
        if t.int_valued():
            q = q + t
    r = i - q * p
    if C.prove_cond(r >= 0) and C.prove_cond(r < p):
        return q, r
    if n is None or not i.int_valued():
        raise Unsupported("index does not split by the factor's size")
    key = ("euclid", i.key(), p.key())
    if key not in c.ghost:
        q, r = Num.var(c.fresh("quo"), "int"), Num.var(c.fresh("rem"), "int")
        c.add(C.z3.And(C.zreal(q) >= 0, C.zreal(q) < C.zreal(Num.lift(n)), C.zreal(r) >= 0, C.zreal(r) < C.zreal(p)))
        c.add(C.zreal(i) == C.zreal(q * p + r))
        c.learn_eq(i, q * p + r)
        c.ghost[key] = (q, r)
    return c.ghost[key]


def kron(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return np.kron(a, b)
    a, b = to_sarr(a), to_sarr(b)
    fa, fb = a.fn, b.fn

    def fn(*i):
        d = [divmod_idx(x, n, m) for x, n, m in zip(i, b.shape, a.shape)]
        return Num.lift(fa(*[x for x, _ in d])) * Num.lift(fb(*[y for _, y in d]))
    fac = [((a.fac[k] if a.fac and a.fac[k] else [a.shape[k]]) + (b.fac[k] if b.fac and b.fac[k] else [b.shape[k]])) for k in range(a.ndim)]
    rows = cols = None
    if a.ndim == 2:
        def sup(fa_, fb_, ax):
            def g(i):
                x, y = divmod_idx(i, b.shape[ax], a.shape[ax])
                return [Num.lift(p) * b.shape[1 - ax] + q for p in dedupe(fa_(x)) for q in dedupe(fb_(y))]
            return g
        rows = sup(a.rows, b.rows, 0) if a.rows and b.rows else None
        cols = sup(a.cols, b.cols, 1) if a.cols and b.cols else None
    return SArr([x * y for x, y in zip(a.shape, b.shape)], fn, None, fac, rows, cols)


def outer(a, b):
    a, b = (x if isinstance(x, (SArr, np.ndarray)) else np.asarray(x, dtype=object) for x in (a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return np.outer(a, b)
    a, b = to_sarr(a), to_sarr(b)
    fa, fb = a.fn, b.fn
    fac = [a.fac[0] if a.fac else None, b.fac[0] if b.fac else None] if a.fac or b.fac else None
    return SArr((a.shape[0], b.shape[0]), lambda i, j: Num.lift(fa(i)) * Num.lift(fb(j)), None, fac)


def oarr(x):
    """numpy object array with Num-friendly entries from nested lists / arrays"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    return np.array(x, dtype=object)
