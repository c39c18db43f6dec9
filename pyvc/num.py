"""Exact symbolic scalars.

A Num is a finite sum  sum_k c_k * m_k * exp(i*pi*E_k)  with rational c_k, Laurent monomials m_k over atoms
(rational exponents allowed for positive atoms) and phase exponents E_k that are themselves polynomials with
rational coefficients over real atoms.  Equality of two Nums is decided by bringing the difference into normal form
(phases modulo 2, roots of unity modulo the cyclotomic polynomial, square roots of primes as Gauss sums).
Order comparisons and tests for equality that are not decided by the normal form become z3 conditions.
"""
from __future__ import annotations

import math
from fractions import Fraction
from functools import lru_cache

import z3

F0, F1 = Fraction(0), Fraction(1)


class Unsupported(Exception):
    """The code under verification left the fragment the generator handles (never a violation)."""


class Atom:
    __slots__ = ("name", "kind", "idx", "conj", "z3v", "rewrite", "integer")
    # kind: real, int, pos, cplx, pi, prime
    def __init__(self, name, kind, idx):
        self.name, self.kind, self.idx = name, kind, idx
        self.conj = None
        self.rewrite = None   # (k, Num): atom**k may be replaced by Num
        self.integer = kind in ("int", "prime")
        if kind == "int":
            self.z3v = z3.Int(name)
        elif kind == "cplx":
            self.z3v = None
        else:
            self.z3v = z3.Real(name)

    def __repr__(self):
        return self.name


class Table:
    """All atoms of one obligation."""
    def __init__(self):
        self.reset()

    def reset(self):
        self.memo = {}
        self.by_name = {n: a for n, a in getattr(self, "by_name", {}).items() if a.idx <= 0}
        self.count = 0

    def atom(self, name, kind):
        if name in self.by_name:
            a = self.by_name[name]
            assert a.kind == kind, (name, kind, a.kind)
            return a
        if kind == "pi":
            i = -1
        elif name == "e!":
            i = 0
        elif kind == "prime":
            i = -int(name[1:])
        else:
            self.count += 1
            i = self.count
        a = Atom(name, kind, i)
        self.by_name[name] = a
        return a


T = Table()


def _frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("inf/nan constant")
        return Fraction(repr(x)) if "e" not in repr(x) else Fraction(repr(x))
    raise TypeError(type(x))


# monomials: tuple of (atom, Fraction exponent) sorted by atom.idx
def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out, i, j = [], 0, 0
    while i < len(a) and j < len(b):
        (x, e), (y, f) = a[i], b[j]
        if x is y:
            if e + f != 0:
                out.append((x, e + f))
            i += 1
            j += 1
        elif x.idx < y.idx:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mono_pow(a, e):
    return tuple((x, f * e) for x, f in a)


def mono_key(m):
    return tuple((x.idx, e) for x, e in m)


def mono_integral(m):
    return all(x.integer and e > 0 and e.denominator == 1 for x, e in m)


# phases: tuple of (mono, Fraction) sorted; meaning exp(i*pi*sum)
def phase_norm(d):
    out = []
    sign = 1
    for m, c in d.items():
        if c == 0:
            continue
        if mono_integral(m):
            c = c - 2 * math.floor(c / 2)       # modulo 2
            if c == 0:
                continue
            if not m:
                if c >= 1:
                    c -= 1
                    sign = -sign
                if c == 0:
                    continue
        out.append((m, c))
    out.sort(key=lambda t: mono_key(t[0]))
    return tuple(out), sign


@lru_cache(maxsize=200000)
def phase_mul(p, q):
    if not p and not q:
        return (), 1
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, F0) + c
    return phase_norm(d)


@lru_cache(maxsize=100000)
def phase_neg(p):
    return phase_norm({m: -c for m, c in p})


class Num:
    __slots__ = ("t", "_h")

    def __init__(self, terms=None):
        self.t = terms if terms is not None else {}

    # -- construction
    @staticmethod
    def const(x):
        if isinstance(x, Num):
            return x
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, complex):
            n = Num()
            re, im = _frac(x.real), _frac(x.imag)
            if re:
                n.t[((), ())] = re
            if im:
                n.t[((), (((), Fraction(1, 2)),))] = im
            return n
        c = _frac(x)
        return Num({((), ()): c} if c else {})

    @staticmethod
    def var(name, kind="real"):
        return Num({(((T.atom(name, kind), F1),), ()): F1})

    @staticmethod
    def lift(x):
        if isinstance(x, Num):
            return x
        if isinstance(x, (int, float, complex, Fraction)):
            return Num.const(x) if not isinstance(x, Fraction) else Num({((), ()): x} if x else {})
        try:
            import numpy as np
            if isinstance(x, np.generic):
                return Num.const(x.item())
            if isinstance(x, np.ndarray) and x.shape == ():
                return Num.lift(x.item())
        except ImportError:
            pass
        if hasattr(x, "__vc_num__"):
            return x.__vc_num__()
        return None

    # -- arithmetic
    def __add__(self, o):
        o = Num.lift(o)
        if o is None:
            return NotImplemented
        if len(o.t) > len(self.t):
            self, o = o, self
        d = dict(self.t)
        for k, c in o.t.items():
            v = d.get(k, F0) + c
            if v:
                d[k] = v
            else:
                d.pop(k, None)
        return Num(d)

    __radd__ = __add__

    def __neg__(self):
        return Num({k: -c for k, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = Num.lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = Num.lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if type(o) is list:
            return SYMLIST(o, self)
        o = Num.lift(o)
        if o is None:
            return NotImplemented
        d = {}
        for (m, p), c in self.t.items():
            for (n, q), e in o.t.items():
                ph, s = phase_mul(p, q)
                k = (mono_mul(m, n), ph)
                v = d.get(k, F0) + (c * e if s > 0 else -(c * e))
                if v:
                    d[k] = v
                else:
                    d.pop(k, None)
        return Num(d)._rewrite()

    __rmul__ = __mul__

    def _rewrite(self):
        """prime atoms and atoms with a rewriting rule."""
        for (m, _p) in self.t:
            for a, e in m:
                if (a.kind == "prime" and (e >= 1 or e < 0)) or (a.rewrite is not None and e >= a.rewrite[0]):
                    break
            else:
                continue
            break
        else:
            return self
        out = Num()
        for (m, p), c in self.t.items():
            repl = None
            keep = []
            for a, e in m:
                if a.kind == "prime":
                    k = math.floor(e)
                    c = c * Fraction(int(a.name[1:])) ** k
                    if e - k:
                        keep.append((a, e - k))
                elif a.rewrite is not None and e >= a.rewrite[0]:
                    n = int(e // a.rewrite[0])
                    r = e - n * a.rewrite[0]
                    if r:
                        keep.append((a, r))
                    for _ in range(n):
                        repl = a.rewrite[1] if repl is None else repl * a.rewrite[1]
                else:
                    keep.append((a, e))
            x = Num({(tuple(keep), p): c})
            if repl is not None:
                x = x * repl
            out = out + x
        return out

    def inv(self):
        if self.is_const_zero():
            raise ZeroDivisionError
        if len(self.t) == 1:
            ((m, p), c), = self.t.items()
            ph, s = phase_neg(p)
            return Num({(mono_pow(m, -1), ph): (1 / c if s > 0 else -1 / c)})._rewrite()
        # x^-1 as an atom; x * x^-1 is not cancelled, only used opaquely
        n, content = self._content()
        c = n.conjugate()
        if (n - c).is_const_zero():
            return Num.opaque("inv", n) * content.inv()
        return c * (n * c).inv() * content.inv()

    def _content(self):
        """split off the leading monomial/coefficient so that equal-up-to-unit sums share an atom"""
        k = min(self.t, key=lambda k: (mono_key(k[0]), [(mono_key(m), c) for m, c in k[1]]))
        lead = Num({k: self.t[k]})
        return self * lead.inv(), lead

    @staticmethod
    def opaque(fname, *args, kind="real"):
        key = (fname, *[a.key() for a in args])
        if key not in T.memo:
            cargs = tuple(a.conjugate() for a in args)
            if kind == "cplx" and all((x - y).is_const_zero() for x, y in zip(args, cargs)):
                kind = "real"
            a = T.atom(f"{fname}!{len(T.memo)}", kind)
            T.memo[key] = a
            a_args[a] = (fname, args)
            if kind == "cplx":
                a.conj = b = T.atom(f"{fname}!{len(T.memo)}", kind)
                T.memo[(fname, *[x.key() for x in cargs])] = b
                a_args[b] = (fname, cargs)
                b.conj = a
        return Num({(((T.memo[key], F1),), ()): F1})

    def key(self):
        return tuple(sorted(((mono_key(m), tuple((mono_key(x), c) for x, c in p)), c) for (m, p), c in self.t.items()))

    def __truediv__(self, o):
        o = Num.lift(o)
        if o is None:
            return NotImplemented
        if not o.t:
            raise ZeroDivisionError("division by zero")
        return self * o.inv()

    def __rtruediv__(self, o):
        o = Num.lift(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, e):
        e = Num.lift(e)
        if e is None:
            return NotImplemented
        c = e.as_fraction()
        if c is not None:
            if c.denominator == 1:
                n = int(c)
                if n < 0:
                    return (self ** (-n)).inv()
                r, b = ONE, self
                while n:
                    if n & 1:
                        r = r * b
                    b = b * b
                    n >>= 1
                return r
            if c == Fraction(1, 2):
                return num_sqrt(self)
            if c == Fraction(-1, 2):
                return num_sqrt(self).inv()
            raise Unsupported(f"power {c}")
        # (exp(i pi E))**e for a pure phase, with e integer valued; e = exp atom
        if len(self.t) == 1:
            ((m, p), cc), = self.t.items()
            if m == EXP_MONO and not p and cc == 1:
                return num_exp(e)
            if not m and cc == 1:
                # principal branch: valid because the exponent E is in (-1, 1] (caller's constants) or e is integral
                arg = Num({(mm, ()): c2 for mm, c2 in p})
                if e.int_valued() or _small_phase(arg):
                    return num_exp(e * arg * PI * I)
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        o = Num.lift(o)
        if o is None:
            return NotImplemented
        return o ** self

    def __mod__(self, o):
        return num_mod(self, o)

    def __rmod__(self, o):
        return num_mod(o, self)

    def __floordiv__(self, o):
        return divmod(self, o)[0]

    def __rfloordiv__(self, o):
        return Num.lift(o) // self

    def __divmod__(self, o):
        from . import core
        o = Num.lift(o)
        m = num_mod(self, o)
        if core.CTX is None:
            return (self - m) / o, m
        a, b, m = core.CTX.norm(self), core.CTX.norm(o), core.CTX.norm(m)      # an integer by what is known here
        return (a - m) / b, m

    def __rdivmod__(self, o):
        return divmod(Num.lift(o), self)

    # -- queries
    def conjugate(self):
        d = Num()
        for (m, p), c in self.t.items():
            ph, s = phase_neg(p)
            mm = ()
            for a, e in m:
                mm = mono_mul(mm, ((a.conj if a.conj is not None else a, e),))
            d = d + Num({(mm, ph): c if s > 0 else -c})
        return d

    conj = conjugate

    @property
    def real(self):
        return (self + self.conjugate()) * Fraction(1, 2)

    @property
    def imag(self):
        return (self - self.conjugate()) * Fraction(1, 2) * (-I)

    def is_real_form(self):
        return all(not p and all(a.conj is None for a, _ in m) for (m, p) in self.t)

    def is_const_zero(self):
        return not self.t

    def as_fraction(self):
        if not self.t:
            return F0
        if len(self.t) == 1 and ((), ()) in self.t:
            return self.t[(), ()]
        return None

    def as_int(self):
        f = self.as_fraction()
        return int(f) if f is not None and f.denominator == 1 else None

    def int_valued(self):
        return all(not p and mono_integral(m) and c.denominator == 1 for (m, p), c in self.t.items()) or INTVAL(self)

    def atoms(self):
        s = set()
        for m, p in self.t:
            s.update(a for a, _ in m)
            for mm, _ in p:
                s.update(a for a, _ in mm)
        return s

    def is_zero(self):
        """Exact normal-form test (True means provably zero; False means not identically zero as a form)."""
        if not self.t:
            return True
        groups = {}
        for (m, p), c in self.t.items():
            r = F0
            rest = []
            for mm, cc in p:
                if not mm:
                    r += cc
                else:
                    rest.append((mm, cc))
            primes = [(a, e) for a, e in m if a.kind == "prime"]
            mk = tuple((a, e) for a, e in m if a.kind != "prime")
            groups.setdefault((mk, tuple(rest)), []).append((r, tuple(int(a.name[1:]) for a, _ in primes), c))
        return all(_cyc_zero(g) for g in groups.values())

    def is_integer(self):
        return self.int_valued()

    def __repr__(self):
        if FORMAT is not None:
            return FORMAT(self)
        return self.vc_repr()

    def vc_repr(self):
        if not self.t:
            return "0"
        out = []
        for (m, p), c in self.t.items():
            s = str(c)
            for a, e in m:
                s += f"*{a}" + (f"^{e}" if e != 1 else "")
            if p:
                s += "*e^{iπ(" + "+".join(f"{c2}" + "".join(f"*{a}^{e}" if e != 1 else f"*{a}" for a, e in mm) for mm, c2 in p) + ")}"
            out.append(s)
        return " + ".join(out)

    # -- comparisons (conditions are made by the explorer)
    def __eq__(self, o):
        o = Num.lift(o)
        if o is None:
            return False
        return COMPARE("==", self, o)

    def __ne__(self, o):
        o = Num.lift(o)
        if o is None:
            return True
        return NEGATE(COMPARE("==", self, o))

    def __lt__(self, o):
        o = Num.lift(o)
        return NotImplemented if o is None else COMPARE("<", self, o)

    def __le__(self, o):
        o = Num.lift(o)
        return NotImplemented if o is None else COMPARE("<=", self, o)

    def __gt__(self, o):
        o = Num.lift(o)
        return NotImplemented if o is None else COMPARE("<", o, self)

    def __ge__(self, o):
        o = Num.lift(o)
        return NotImplemented if o is None else COMPARE("<=", o, self)

    def __hash__(self):
        v = self.as_fraction()
        if v is not None:
            return hash(v)
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        return bool(self != 0)

    def __abs__(self):
        return num_abs(self)

    def __float__(self):
        v = self.as_fraction()
        if v is not None:
            return float(v)
        raise Unsupported("float() of a symbolic number by uninstrumented code")

    def __complex__(self):
        v = self.as_fraction()
        if v is not None:
            return complex(v)
        raise Unsupported("complex() of a symbolic number by uninstrumented code")

    def __int__(self):
        v = self.as_int()
        if v is not None:
            return v
        raise Unsupported("int() of a symbolic number by uninstrumented code")

    def __index__(self):
        v = self.as_int()
        if v is not None:
            return v
        return CONCRETISE(self)

    def rint(self):
        """nearest integer, as an unknown value"""
        r, i = self.real, self.imag
        z = Num.opaque("rint", r)
        return z if i.is_const_zero() else z + I * Num.opaque("rint", i)

    def __round__(self, n=None):
        raise Unsupported("round of a symbolic number")

    def item(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def evalf(self, env):
        """numeric value under env: atom -> float/complex"""
        tot = 0j
        for (m, p), c in self.t.items():
            v = complex(float(c))
            for a, e in m:
                v *= complex(atom_value(a, env)) ** float(e)
            if p:
                ex = 0.0
                for mm, cc in p:
                    x = float(cc)
                    for a, e in mm:
                        x *= (atom_value(a, env).real if isinstance(atom_value(a, env), complex) else atom_value(a, env)) ** float(e)
                    ex += x
                v *= complex(math.cos(math.pi * ex), math.sin(math.pi * ex))
            tot += v
        return tot


a_args = {}


def atom_value(a, env):
    if a in env:
        return env[a]
    if a.kind == "pi":
        return math.pi
    if a.kind == "prime":
        return float(a.name[1:])
    if a.name == "e!":
        return math.e
    if a in a_args:
        f, args = a_args[a]
        vs = [x.evalf(env) for x in args]
        if f == "inv":
            v = 1 / vs[0]
        elif f == "sqrt":
            v = math.sqrt(max(vs[0].real, 0.0))
        elif f == "floor":
            v = float(math.floor((vs[0] / vs[1]).real + 1e-12))
        elif f == "arctan2":
            v = math.atan2(vs[0].real, vs[1].real)
        elif f == "arccos":
            v = math.acos(max(-1, min(1, vs[0].real)))
        elif f == "arcsin":
            v = math.asin(max(-1, min(1, vs[0].real)))
        elif f == "exp":
            import cmath
            v = cmath.exp(vs[0])
        elif f == "log":
            v = math.log(vs[0].real)
        elif f == "abs":
            v = abs(vs[0])
        elif f == "rint":
            v = float(round(vs[0].real))
        elif f == "angle":
            import cmath
            v = cmath.phase(vs[0])
        else:
            raise KeyError(a.name)
        env[a] = v
        return v
    if a.conj is not None and a.conj in env:
        return complex(env[a.conj]).conjugate()
    raise KeyError(a.name)


@lru_cache(maxsize=None)
def cyclotomic(n):
    """coefficients (low to high) of the n-th cyclotomic polynomial"""
    num = [-1] + [0] * (n - 1) + [1]
    for d in range(1, n):
        if n % d == 0:
            num = _polydiv(num, cyclotomic(d))
    return tuple(num)


def _polydiv(a, b):
    a = list(a)
    out = [0] * (len(a) - len(b) + 1)
    for i in range(len(out) - 1, -1, -1):
        q = a[i + len(b) - 1] // b[-1]
        out[i] = q
        for j, c in enumerate(b):
            a[i + j] -= q * c
    return out


@lru_cache(maxsize=None)
def _gauss(p):
    """sqrt(p) as {r: coeff} with exp(i pi r)"""
    if p == 2:
        return {Fraction(1, 4): F1, Fraction(-1, 4): F1}
    d = {}
    sq = {(x * x) % p for x in range(1, p)}
    shift = F0 if p % 4 == 1 else Fraction(-1, 2)
    for a in range(1, p):
        r = Fraction(2 * a, p) + shift
        d[r] = d.get(r, F0) + (1 if a in sq else -1)
    return d


def _cyc_zero(g):
    items = {}
    for r, primes, c in g:
        cur = {r: c}
        for p in primes:
            nxt = {}
            for r1, c1 in cur.items():
                for r2, c2 in _gauss(p).items():
                    nxt[r1 + r2] = nxt.get(r1 + r2, F0) + c1 * c2
            cur = nxt
        for r1, c1 in cur.items():
            r1 = r1 - 2 * math.floor(r1 / 2)
            items[r1] = items.get(r1, F0) + c1
    items = {r: c for r, c in items.items() if c}
    if not items:
        return True
    n = 1
    for r in items:
        n = math.lcm(n, r.denominator)
    n *= 2
    poly = [F0] * n
    for r, c in items.items():
        poly[int(r * n / 2) % n] += c
    phi = cyclotomic(n)
    k = len(phi) - 1
    for i in range(n - 1, k - 1, -1):
        q = poly[i]
        if q:
            for j in range(k + 1):
                poly[i - k + j] -= q * phi[j]
    return all(x == 0 for x in poly[:k])


PI = None
I = None
ONE = None
ZERO = None
EXP_MONO = None


def cplx(name):
    """a complex atom and its conjugate"""
    z, w = T.atom(name, "cplx"), T.atom(name + "~", "cplx")
    z.conj, w.conj = w, z
    return Num({(((z, F1),), ()): F1})


def subst(n, atom, val):
    """replace atom by val (a real-form Num) everywhere, phases included"""
    if atom not in n.atoms():
        return n
    out = Num()
    for (m, p), c in n.t.items():
        x = Num.const(1) * c
        rest = []
        for a, e in m:
            if a is atom:
                x = x * (val ** Num.lift(e) if e.denominator == 1 else num_sqrt(val) ** Num.lift(2 * e))
            else:
                rest.append((a, e))
        x = x * Num({(tuple(rest), ()): F1})
        if p:
            E = Num()
            for mm, cc in p:
                y = Num({((), ()): cc})
                r2 = []
                for a, e in mm:
                    if a is atom:
                        y = y * (val ** Num.lift(e) if e.denominator == 1 else num_sqrt(val) ** Num.lift(2 * e))
                    else:
                        r2.append((a, e))
                E = E + y * Num({(tuple(r2), ()): F1})
            x = x * num_exp(I * PI * E)
        out = out + x
    return out


def init_consts():
    global PI, I, ONE, ZERO, EXP_MONO
    T.reset()
    pi = T.atom("pi", "pi")
    PI = Num({(((pi, F1),), ()): F1})
    I = Num.const(1j)
    ONE = Num.const(1)
    ZERO = Num()
    e = T.atom("e!", "pos")
    EXP_MONO = ((e, F1),)


def prime(p):
    return T.atom(f"p{p}", "prime")


def num_exp(x):
    """exp of a Num whose real part is zero (otherwise an opaque atom)."""
    x = Num.lift(x)
    if x.is_zero():
        return ONE
    y = x * (-I)          # x = i*y
    if y.is_real_form() or y.imag.is_zero():
        y = y if y.is_real_form() else y.real
        if not y.is_real_form():
            y = defn_real(y)
        E = y * PI.inv()
        d = {}
        f = None
        for (m, p), c in E.t.items():
            if len(m) == 2 and c.denominator == 1 and abs(c) < 9:
                # exp(i c arctan2(y, x)) = ((x + i y) / r)^c
                a = next((a for a, e in m if e == 1 and a in a_args and a_args[a][0] == "arctan2"), None)
                if a is not None and any(b.kind == "pi" and e == -1 for b, e in m):
                    yy, xx = a_args[a][1]
                    u = (xx + I * yy if c > 0 else xx - I * yy) / num_sqrt(xx * xx + yy * yy)
                    for _ in range(int(abs(c))):
                        f = u if f is None else f * u
                    continue
            d[m] = d.get(m, F0) + c
        # integer valued polynomials that are not integral monomial by monomial
        ph, s = phase_norm(d)
        if ph and phase_even(ph):
            ph = ()
        out = Num({((), ph): F1 if s > 0 else -F1})
        return out if f is None else out * f
    re = x.real
    if re.is_real_form() and x.imag.is_zero():
        return Num.opaque("exp", x, kind="pos")
    raise Unsupported("exp of a general complex number")


def phase_even(ph):
    return False


def num_cos(x):
    x = Num.lift(x)
    e = num_exp(I * x)
    return (e + e.conjugate()) * Fraction(1, 2)


def num_sin(x):
    x = Num.lift(x)
    e = num_exp(I * x)
    return (e - e.conjugate()) * Fraction(1, 2) * (-I)


def _factor(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def num_sqrt(x):
    x = Num.lift(x)
    if not x.t:
        return ZERO
    if len(x.t) == 1:
        ((m, p), c), = x.t.items()
        if not p and c > 0 and (c.numerator < 10 ** 12 and c.denominator < 10 ** 12):
            r = ONE
            ok = True
            mm = ()
            for a, e in m:
                if a.kind in ("pos", "pi", "prime") or is_positive(a):
                    mm = mono_mul(mm, ((a, e / 2),))
                elif e.denominator == 1 and e % 2 == 0:
                    r = r * num_abs(Num({(((a, e / 2),), ()): F1}))
                else:
                    ok = False
            if ok:
                for q, k in list(_factor(c.numerator).items()) + [(q, -k) for q, k in _factor(c.denominator).items()]:
                    r = r * (Fraction(q) ** (k // 2) if k >= 0 else Fraction(1) / Fraction(q) ** ((-k) // 2))
                    if k % 2:
                        s = Num({(((prime(q), Fraction(1, 2)),), ()): F1})
                        r = r * s if k > 0 else r * s * Fraction(1, q)
                return r * Num({(mm, ()): F1})._rewrite()
    v = SQRT_SPECIAL(x)
    if v is not None:
        return v
    if len(x.t) > 1:
        y = FOLD(x)
        if len(y.t) == 1:
            return num_sqrt(y)
        # a common power of a square root: sqrt(u / r^2) = sqrt(u) / r
        common = None
        for (m, p) in x.t:
            d = {a: e for a, e in m if a.kind == "pos" and a.rewrite is not None and e < 0}
            common = d if common is None else {a: e for a, e in common.items() if d.get(a) == e}
        if common:
            mono = tuple(sorted(common.items(), key=lambda t: t[0].idx))
            return num_sqrt(x * Num({(mono_pow(mono, -1), ()): F1})) * Num({(mono_pow(mono, Fraction(1, 2)), ()): F1})
    if not x.is_real_form():
        if not x.imag.is_zero():
            raise Unsupported("sqrt of a complex number")
    key = ("sqrt", x.key())
    s = Num.opaque("sqrt", x, kind="pos")
    a = T.memo[key]
    a.rewrite = (2, x)
    return s


def is_positive(a):
    return POSITIVE(a)


def _small_phase(arg):
    """provably -1 < arg <= 1 (so that the principal power applies)"""
    return PROVE_RANGE(arg, -1, 1)


def defn_real(y):
    """a real Num that contains phases, as an opaque real atom (e.g. cos x inside exp)."""
    return Num.opaque("re", y)


# hooks set by the explorer
FORMAT = None       # set while a contract about text runs: numbers print as placeholder numerals


def COMPARE(op, a, b):
    raise NotImplementedError


def NEGATE(c):
    raise NotImplementedError


def CONCRETISE(n):
    raise NotImplementedError


def POSITIVE(a):
    return False


def PROVE_RANGE(x, lo, hi):
    return False


def INTVAL(x):
    return False


def SYMLIST(lst, n):
    raise Unsupported('list repetition')


def SQRT_SPECIAL(x):
    return None


def FOLD(x):
    return x


def num_mod(a, b):
    raise NotImplementedError


def num_abs(x):
    raise NotImplementedError


init_consts()
