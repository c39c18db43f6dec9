"""Builtins as seen by the code under contract."""
from __future__ import annotations

import builtins as B
import types

import numpy as _np

from . import arr as A
from . import core as C
from . import num as N
from .num import Num, Unsupported


def sym(x):
    return isinstance(x, Num) and x.as_int() is None


class SymSeq:
    """a sequence of symbolic length given by a function of the position"""
    vc_symbolic = True

    def __init__(self, n, fn, kind="list", start=None, step=None):
        self.n, self.fn, self.kind, self.origin = n, fn, kind, None

    def of(self, o):
        """remember the product the positions come from"""
        self.origin = o
        return self

    def sym_at(self, i):
        return self.fn(i)

    @property
    def sym_len(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i == slice(None):
                return SymSeq(self.n, self.fn, self.kind)
            raise Unsupported("slice of a symbolic sequence")
        i = A.as_index(i)
        if not bool(Num.lift(i) < Num.lift(self.n)):
            raise IndexError("list index out of range")
        if not bool(Num.lift(i) >= 0):
            if not bool(Num.lift(i) + self.n >= 0):
                raise IndexError("list index out of range")
            i = i + self.n
        return self.fn(i)

    def __setitem__(self, i, v):
        if self.kind != "list":
            raise TypeError("does not support item assignment")
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic sequence")
        i = A.as_index(i)
        if not bool(Num.lift(i) < Num.lift(self.n)):
            raise IndexError("list assignment index out of range")
        if not bool(Num.lift(i) >= 0):
            if not bool(Num.lift(i) + self.n >= 0):
                raise IndexError("list assignment index out of range")
            i = i + self.n
        old = self.fn
        self.fn = lambda k: v if A.eqi(A.as_index(k), i) else old(k)

    def copy(self):
        return SymSeq(self.n, self.fn, self.kind).of(self.origin)

    def __len__(self):
        return C.concretise(Num.lift(self.n))

    def __iter__(self):
        raise Unsupported("uninstrumented iteration over a symbolic sequence")

    def __contains__(self, x):
        if self.kind == "range":
            return bool(Num.lift(x) >= self.lo) and bool(Num.lift(x) < self.hi)
        raise Unsupported("membership in a symbolic sequence")

    def vc_array(self):
        f = self.fn
        return A.SArr((self.n,), lambda i: Num.lift(f(i)))

    def __add__(self, o):
        if not B.isinstance(o, (B.list, B.tuple)):
            raise Unsupported("concatenation of symbolic sequences")
        f, n, o = self.fn, self.n, B.list(o)

        def at(i):
            if bool(Num.lift(i) < Num.lift(n)):
                return f(i)
            return o[Num.lift(i - n).__index__()]
        return SymSeq(n + B.len(o), at, self.kind)

    __iadd__ = __add__

    def __deepcopy__(self, memo):
        return self.copy()


def sym_list(lst, n):
    """[..] * n with symbolic n"""
    if len(lst) != 1:
        raise Unsupported("list repetition")
    return SymSeq(n, lambda i: lst[0])


N.SYMLIST = sym_list


def vc_range(*a):
    a = [A.as_index(x) for x in a]
    if B.all(B.isinstance(x, B.int) for x in a):
        return B.range(*a)
    if B.len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif B.len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if not (B.isinstance(st, B.int) and st in (1, -1)):
        raise Unsupported("symbolic range with a step")
    n = Num.lift(hi) - lo if st == 1 else Num.lift(lo) - hi
    v = C.CTX.norm(n).as_int()
    if v is not None and v <= 64:
        return [C.CTX.norm(Num.lift(lo) + st * k) for k in B.range(B.max(v, 0))]
    if not bool(n >= 0):
        n = N.ZERO
    r = SymSeq(n, (lambda i: Num.lift(lo) + i) if st == 1 else (lambda i: Num.lift(lo) - i), "range")
    r.lo, r.hi = (lo, hi) if st == 1 else (hi + 1, lo + 1)
    return r


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return B.isinstance(x, B.range) or (B.isinstance(x, SymSeq) and x.kind == "range")


class range_(metaclass=_RangeMeta):
    def __new__(cls, *a):
        return vc_range(*a)


NUMERIC = {B.int: "int", B.float: "float", B.complex: "complex"}


def num_isinstance(x, t):
    if t in (B.int, int_):
        return x.int_valued() and not getattr(x, "isfloat", False)
    if t in (B.float, float_):
        return not x.int_valued() and x.is_real_form()
    if t in (B.complex, complex_):
        return not x.is_real_form()
    if t is B.object:
        return True
    return False


def vc_isinstance(x, t):
    if B.isinstance(t, B.tuple):
        return B.any(vc_isinstance(x, y) for y in t)
    if B.isinstance(t, types.UnionType):
        return B.any(vc_isinstance(x, y) for y in t.__args__)
    if B.isinstance(x, FloatNum):
        return t in (B.float, float_, B.object)
    if B.isinstance(x, Num):
        return num_isinstance(x, t)
    if t is int_:
        t = B.int
    elif t is float_:
        t = B.float
    elif t is complex_:
        t = B.complex
    elif t is str_:
        t = B.str
    elif t is set_ or t is B.set:
        return B.isinstance(x, (B.set, VSet))
    elif t is dict_:
        return B.isinstance(x, (B.dict, SymMap))
    elif t is list_:
        return B.isinstance(x, B.list) or (B.isinstance(x, SymSeq) and x.kind == "list")
    elif t is B.list:
        return B.isinstance(x, B.list) or (B.isinstance(x, SymSeq) and x.kind == "list")
    return B.isinstance(x, t)


class FloatNum(Num):
    """a Num that Python sees as a float even if its value is integral; sums and products of it with real numbers are floats, too"""
    __slots__ = ()


def _propagate(name):
    f = getattr(Num, name)

    def op(self, *o):
        if name == "__rtruediv__" and B.isinstance(o[0], Num):
            r = Num.__truediv__(o[0], self)
        else:
            r = f(self, *o)
        if type(r) is not Num:
            return r
        if o and type(o[0]) is not FloatNum and not B.isinstance(o[0], (B.int, B.float)) and not r.is_real_form():
            return r
        return FloatNum(r.t)
    op.__name__ = name
    return op


for _n in "__add__ __radd__ __neg__ __pos__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__".split():
    setattr(FloatNum, _n, _propagate(_n))
FloatNum.__hash__ = Num.__hash__


def fl(n):
    return FloatNum(Num.lift(n).t)


def _floor(x):
    from . import core
    if core.CTX is not None:
        x = core.CTX.norm(x)
    r = N.num_mod(x, N.ONE)
    return x - r


class _Meta(type):
    def __instancecheck__(cls, x):
        return vc_isinstance(x, cls)

    def __call__(cls, *a, **k):
        return cls.vc_make(*a, **k)

    def __eq__(cls, o):
        return cls is o or cls.real is o

    def __hash__(cls):
        return B.hash(cls.real)

    def __or__(cls, o):
        return B.object


class int_(metaclass=_Meta):
    real = B.int

    @staticmethod
    def vc_make(x=0, *a):
        if B.isinstance(x, Num):
            v = x.as_fraction()
            if v is not None:
                return B.int(v)
            if x.int_valued():
                return Num(x.t)
            if bool(x >= 0):
                return _floor(x)
            return -_floor(-x)
        v = Numerals.read(x)
        if v is not None:
            if B.isinstance(v, FloatNum):
                raise ValueError("invalid literal for int()")
            return v
        return B.int(x, *a)

    from_bytes = B.int.from_bytes


class float_(metaclass=_Meta):
    real = B.float

    @staticmethod
    def vc_make(x=0.0):
        if B.isinstance(x, Num):
            return fl(x)
        v = Numerals.read(x)
        if v is not None:
            return fl(v)
        return B.float(x)


class complex_(metaclass=_Meta):
    real = B.complex

    @staticmethod
    def vc_make(x=0, y=0):
        if B.isinstance(x, Num) or B.isinstance(y, Num):
            return Num.lift(x) + N.I * Num.lift(y)
        return B.complex(x, y)


class str_(metaclass=_Meta):
    real = B.str

    @staticmethod
    def vc_make(x="", *a):
        return B.str(x, *a)

    join = B.str.join


class Numerals:
    """Text with symbolic numbers: a number prints as a fresh numeral of the right lexical shape and reads back as itself.

    Sound for code that treats numerals uniformly (regular expressions without digit literals, int(), float(), eval)."""
    active = None

    def __init__(self, shape=0):
        self.shape, self.by_text, self.by_key = shape, {}, {}

    def __enter__(self):
        Numerals.active = self
        N.FORMAT = self.text
        return self

    def __exit__(self, *a):
        Numerals.active = None
        N.FORMAT = None

    def text(self, n):
        isf = B.isinstance(n, FloatNum) or not n.int_valued()
        v = n.as_fraction()
        if v is not None:
            return B.repr(B.float(v)) if isf else B.str(B.int(v))
        key = (isf, n.key())
        if key not in self.by_key:
            neg = False if n is N.PI else bool(n < 0)
            k = B.len(self.by_key)
            if not isf:
                t = f"7{k:04d}9"
            else:
                t = [f"0.7{k:04d}9", f"7{k:04d}9e-07", f"7{k:04d}9.25", f"1.7{k:04d}9e+16"][self.shape]
            t = ("-" if neg else "") + t
            self.by_key[key] = t
            self.by_text[t] = fl(n) if isf else n
        return self.by_key[key]

    @staticmethod
    def read(s):
        a = Numerals.active
        if a is None or not B.isinstance(s, B.str):
            return None
        return a.by_text.get(s.strip())


def vc_eval(src, *a):
    v = Numerals.read(src)
    return v if v is not None else B.eval(src, *a)


class list_(metaclass=_Meta):
    real = B.list

    @staticmethod
    def vc_make(x=()):
        if B.isinstance(x, SymSeq):
            return SymSeq(x.n, x.fn, "list").of(x.origin)
        if B.isinstance(x, SymProduct):
            return x.as_list()
        return B.list(x)

    def __class_getitem__(cls, i):
        return B.list[i]


class VSet:
    """a set that may hold symbolic numbers: equality of elements branches"""
    __array_ufunc__ = None

    def __init__(self, it=()):
        self.xs = []
        for x in it:
            self.add(x)

    def __contains__(self, x):
        return B.any(bool(x == y) for y in self.xs)

    def add(self, x):
        if x not in self:
            self.xs.append(x)

    def discard(self, x):
        for i, y in B.enumerate(self.xs):
            if bool(x == y):
                del self.xs[i]
                return

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return VSet(self.xs)

    def __len__(self):
        return B.len(self.xs)

    def __iter__(self):
        return B.iter(B.list(self.xs))

    def __bool__(self):
        return B.bool(self.xs)

    def __sub__(self, o):
        o = o if B.isinstance(o, VSet) else VSet(o)
        return VSet([x for x in self.xs if x not in o])

    difference = __sub__

    def __rsub__(self, o):
        return VSet(o) - self

    def __or__(self, o):
        return VSet([*self.xs, *o])

    __ror__ = __or__
    union = __or__

    def __and__(self, o):
        o = o if B.isinstance(o, VSet) else VSet(o)
        return VSet([x for x in self.xs if x in o])

    __rand__ = __and__
    intersection = __and__

    def isdisjoint(self, o):
        return not (self & o)

    def __le__(self, o):
        return not (self - o)

    issubset = __le__

    def __ge__(self, o):
        return not (VSet(o) - self)

    issuperset = __ge__

    def __eq__(self, o):
        return B.isinstance(o, (VSet, B.set, B.frozenset)) and self <= o and self >= o

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")


class set_(metaclass=_Meta):
    real = B.set

    @staticmethod
    def vc_make(it=()):
        if B.isinstance(it, SymSeq):
            raise Unsupported("set of a symbolic sequence")
        xs = B.list(it)
        return VSet(xs) if B.any(sym(x) for x in xs) else B.set(xs)

    def __class_getitem__(cls, i):
        return B.set[i]


def vc_len(x):
    if B.isinstance(x, SymSeq):
        return C.CTX.norm(Num.lift(x.n)) if C.CTX else x.n
    if B.isinstance(x, A.SArr):
        return x.shape[0]
    if hasattr(x, "vc_len"):
        return x.vc_len()
    return B.len(x)


def vc_abs(x):
    if B.isinstance(x, A.SArr):
        from . import symnp
        return symnp.absolute(x)
    return B.abs(x)


def vc_min(*a, **k):
    return _extreme(a, k, lambda x, y: x < y, B.min)


def vc_max(*a, **k):
    return _extreme(a, k, lambda x, y: x > y, B.max)


def _extreme(a, k, better, native):
    items = B.list(a[0]) if B.len(a) == 1 else B.list(a)
    if not items and "default" in k:
        return k["default"]
    if not items:
        raise ValueError("empty sequence")
    key = k.get("key") or (lambda x: x)
    best = items[0]
    kb = key(best)
    for x in items[1:]:
        kx = key(x)
        if bool(better(kx, kb)):
            best, kb = x, kx
    return best


def vc_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def vc_sorted(it, key=None, reverse=False):
    """stable insertion sort, branching on symbolic comparisons"""
    out = []
    kf = key or (lambda x: x)
    for x in it:
        kx = kf(x)
        i = B.len(out)
        while i > 0 and bool((kx > out[i - 1][0]) if reverse else (kx < out[i - 1][0])):
            i -= 1
        out.insert(i, (kx, x))
    return [x for _, x in out]


def vc_enumerate(it, start=0):
    if B.isinstance(it, SymSeq):
        f = it.fn
        return SymSeq(it.n, lambda i: (i + start, f(i))).of(it.origin)
    return B.enumerate(it, start)


def vc_zip(*its, **k):
    if B.any(B.isinstance(i, SymSeq) for i in its):
        fs = [i.fn if B.isinstance(i, SymSeq) else None for i in its]
        if B.any(f is None for f in fs):
            raise Unsupported("zip of symbolic and concrete sequences")
        n = its[0].n
        for o in its[1:]:
            if not bool(Num.lift(n) == Num.lift(o.n)):
                raise Unsupported("zip of symbolic sequences with different lengths")
        return SymSeq(n, lambda i: B.tuple(f(i) for f in fs))
    return B.zip(*its, **k)


def vc_reversed(x):
    if B.isinstance(x, SymSeq):
        f, n = x.fn, x.n
        return SymSeq(n, lambda i: f(n - 1 - i))
    return B.reversed(x)


def quantify(it, want):
    """True iff every element's truth value equals want, at an arbitrary position"""
    c = C.ctx()
    v = Num.lift(it.n).as_int()
    k0 = Num.var(c.fresh("q"), "int")

    def run():
        c.add(C.zreal(k0) >= 0)
        c.add(C.zreal(k0) < C.zreal(Num.lift(it.n)))
        if c.check() == C.z3.unsat:
            raise C.PathEnd
        return bool(it.fn(k0)) == want
    if B.all(C.sub_explore(run)):
        return True
    # some element may differ: both outcomes, with a witness in the second
    flag = C.z3.Bool(c.fresh("all"))
    if c.decide(flag):
        it.assumed = True
        return True
    w = Num.var(c.fresh("w"), "int")
    c.add(C.zreal(w) >= 0)
    c.add(C.zreal(w) < C.zreal(Num.lift(it.n)))
    if bool(it.fn(w)) == want:
        raise C.PathEnd
    return False


def vc_any(it):
    if B.isinstance(it, SymSeq):
        return not quantify(it, False)
    for x in it:
        if bool(x):
            return True
    return False


def vc_all(it):
    if B.isinstance(it, SymSeq):
        return quantify(it, True)
    for x in it:
        if not bool(x):
            return False
    return True


def vc_round(x, n=None):
    if B.isinstance(x, Num) and x.as_fraction() is None:
        raise Unsupported("round of a symbolic number")
    return B.round(B.float(x), n) if B.isinstance(x, Num) else B.round(x, n)


def vc_pow(a, b, m=None):
    if m is not None:
        return B.pow(a, b, m)
    return a ** b


class SymProduct:
    """itertools.product of ranges of symbolic length: elements are digit tuples in lexicographic order"""
    vc_symbolic = True

    def __init__(self, seqs):
        self.seqs = seqs

    @property
    def total(self):
        r = N.ONE
        for s in self.seqs:
            r = r * vc_len(s)
        return r

    def as_list(self):
        return SymSeq(self.total, self.at, "product").of(self)

    def at(self, k):
        digs = []
        sizes = [vc_len(s) for s in self.seqs]
        for j in B.range(B.len(sizes) - 1, -1, -1):
            s = self.seqs[j]
            if j == 0:
                d = k
            else:
                left = N.ONE
                for m in sizes[:j]:
                    left = left * m
                k, d = A.divmod_idx(k, sizes[j], left)
            digs.append(s[d] if not B.isinstance(s, SymSeq) else s.fn(d))
        return B.tuple(B.reversed(digs))


class SymMap:
    """a dictionary built from an iterable of symbolic length: position -> (key, value).  The keys must be an injective image of the
    position that can be inverted: the position itself (shifted), or the digits of an itertools.product of ranges."""
    vc_symbolic = True

    def __init__(self, n, fn, origin=None):
        self.n, self.fn, self.origin, self.how = n, fn, origin, None

    def form(self):
        if self.how is None:
            c = C.ctx()
            k0 = Num.var(c.fresh("m"), "int")

            def run():
                c.add(C.zreal(k0) >= 0)
                c.add(C.zreal(k0) < C.zreal(Num.lift(self.n)))
                key, _ = self.fn(k0)
                if B.isinstance(key, (Num, B.int)):
                    d = c.norm(Num.lift(key) - k0)
                    return ("shift", d) if not A.depends_on(d, k0) else None
                if B.isinstance(key, B.tuple) and self.origin is not None:
                    want = self.origin.at(k0)
                    if B.len(want) == B.len(key) and B.all(B.isinstance(y, (Num, B.int)) and (c.norm(Num.lift(x)) - c.norm(Num.lift(y))).is_zero() for x, y in B.zip(want, key)):
                        return ("digits", None)
                return None
            how = C.sub_explore(run)
            if not how or B.any(h is None or h[0] != how[0][0] or h[0] == "shift" and not (h[1] - how[0][1]).is_zero() for h in how):
                raise Unsupported("dictionary of symbolic size")
            self.how = how[0]
        return self.how

    def position(self, key):
        kind, d = self.form()
        if kind == "shift":
            if not B.isinstance(key, (Num, B.int)):
                raise KeyError(key)
            k = Num.lift(key) - d
            if not bool(k >= 0) or not bool(k < Num.lift(self.n)):
                raise KeyError(key)
            return k
        if not B.isinstance(key, B.tuple) or B.len(key) != B.len(self.origin.seqs):
            raise KeyError(key)
        k = N.ZERO
        for x, s in B.zip(key, self.origin.seqs):
            n = vc_len(s)
            lo = Num.lift(s.fn(N.ZERO) if B.isinstance(s, SymSeq) else s[0])
            x = Num.lift(x) - lo
            if not bool(x >= 0) or not bool(x < Num.lift(n)):
                raise KeyError(key)
            k = k * n + x
        return k

    def __getitem__(self, key):
        return self.fn(self.position(key))[1]

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self.position(key)
        except KeyError:
            return False
        return True

    def __setitem__(self, key, v):
        raise Unsupported("dictionary of symbolic size")

    def __iter__(self):
        raise Unsupported("uninstrumented iteration over a symbolic dictionary")

    def __len__(self):
        return C.concretise(Num.lift(self.n))

    @property
    def sym_len(self):
        return self.n

    def items(self):
        return SymSeq(self.n, self.fn)

    def keys(self):
        return SymSeq(self.n, lambda k: self.fn(k)[0])

    def values(self):
        return SymSeq(self.n, lambda k: self.fn(k)[1])


class dict_(metaclass=_Meta):
    real = B.dict

    @staticmethod
    def vc_make(*a, **k):
        if B.len(a) == 1 and not k and B.isinstance(a[0], SymSeq):
            return SymMap(a[0].n, a[0].fn, a[0].origin)
        return B.dict(*a, **k)

    fromkeys = B.dict.fromkeys

    def __class_getitem__(cls, i):
        return B.dict[i]


def shadow():
    return {
        "isinstance": vc_isinstance, "range": range_, "len": vc_len, "abs": vc_abs, "min": vc_min, "max": vc_max, "sum": vc_sum,
        "sorted": vc_sorted, "enumerate": vc_enumerate, "zip": vc_zip, "reversed": vc_reversed, "any": vc_any, "all": vc_all,
        "int": int_, "float": float_, "complex": complex_, "list": list_, "dict": dict_, "set": set_, "eval": vc_eval, "round": vc_round, "pow": vc_pow,
    }
