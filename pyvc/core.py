"""Paths, conditions and verification conditions.

The function under contract is executed by CPython on symbolic arguments.  A branch on a symbolic condition is decided
by a recorded trace; the trace is enumerated depth first, both outcomes being taken whenever z3 finds them consistent
with the path so far, so that the paths explored cover every input that satisfies the precondition.
"""
from __future__ import annotations

import math
import random
import time
import traceback
from fractions import Fraction

import z3

from . import num as N
from .num import Num, T, Unsupported

Z3_TIMEOUT = 4000
STATS = {"z3_calls": 0, "z3_time": 0.0}


class PathEnd(BaseException):
    """this path is finished (infeasible, or closed by an invariant)"""


class Budget(BaseException):
    pass


class Ctx:
    def __init__(self, deadline, persist=None):
        self.deadline = deadline
        self.persist = {} if persist is None else persist     # results that depend on the decisions of the path only
        self.trace = []
        self.reset()

    def reset(self):
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", Z3_TIMEOUT)
        self.facts = []
        self.subs = []          # (atom, Num) from equalities on the path
        self.inputs = {}
        self.approx = None
        self.zcache = {}
        self.checked = {}
        self.counter = 0
        self.results = []
        self.ghost = {}
        self.extra_true = set()
        self.polar = []
        self.defs = []
        self.decided = {}

    def define(self, e):
        """a definitional fact of a fresh atom: true of every path"""
        self.defs.append(e)
        self.add(e)

    def prefix(self, tag):
        return (tag, tuple(d for d, _ in self.trace[:self.pos]))

    def fresh(self, base):
        self.counter += 1
        return f"{base}${self.counter}"

    def add(self, e):
        self.facts.append(e)
        self.solver.add(e)

    def check(self, *extra):
        if time.time() > self.deadline:
            raise Budget("time budget of the obligation")
        t = time.time()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
            r = self.solver.check()
            self.solver.pop()
        else:
            r = self.solver.check()
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t
        return r

    def prove(self, e):
        """True iff the path condition implies e"""
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return self.check() == z3.unsat
        return self.check(z3.Not(e)) == z3.unsat

    def decide(self, e, eq=None):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.trace):
            d = self.trace[self.pos][0]
        else:
            can_t = self.check(e) != z3.unsat
            can_f = self.check(z3.Not(e)) != z3.unsat
            if not can_t and not can_f:
                raise PathEnd
            if can_t and can_f:
                d = True
                self.trace.append([True, True])
            else:
                d = can_t
                self.trace.append([d, False])
        self.pos += 1
        self.add(e if d else z3.Not(e))
        if d and eq is not None:
            self.learn_eq(*eq)
        if not d and eq is not None:
            pass
        return d

    def learn_eq(self, a, b):
        self.zcache = {}
        diff = self.norm(a - b)
        if not diff.is_real_form():
            return
        # choose an atom that occurs linearly with a constant coefficient, alone in its monomial
        best = None
        for (m, p), c in diff.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("int", "real", "pos"):
                a0 = m[0][0]
                if a0.rewrite is not None or a0 in N.a_args:
                    continue
                others = sum(1 for (m2, _) in diff.t if any(x is a0 for x, _ in m2))
                if others == 1 and (best is None or a0.idx > best[0].idx):
                    rest = Num({k: v for k, v in diff.t.items() if k != (m, p)})
                    val = rest * (-1 / c)
                    if a0.kind == "int" and not val.int_valued():
                        continue
                    if any(defined_from(x, a0) for x in val.atoms()):
                        continue
                    best = (a0, val)
        if best is not None:
            self.subs.append(best)

    def norm(self, n):
        for a, v in self.subs:
            n = N.subst(n, a, v)
        return n


def has_sum(n):
    """does the number contain a sum of symbolic length? (two of them can be equal without z3 knowing it)"""
    return any(N.a_args[a][0] == "sum" or any(has_sum(x) for x in N.a_args[a][1]) for a in n.atoms() if a in N.a_args)


def defined_from(x, a0):
    """x is defined in terms of a0 (floor of an expression in a0, ...)"""
    if x is a0:
        return True
    if x in N.a_args:
        return any(defined_from(y, a0) for arg in N.a_args[x][1] for y in arg.atoms())
    return False


CTX: Ctx | None = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic condition outside an obligation")
    return CTX


class SBool:
    __slots__ = ("e", "eq", "neq", "key")

    def __init__(self, e, eq=None, neq=None, key=None):
        self.e, self.eq, self.neq, self.key = e, eq, neq, key

    def __bool__(self):
        return self.decide()

    def decide(self):
        if self.neq is not None:
            r = not ctx().decide(z3.Not(self.e), eq=self.neq)
        else:
            r = ctx().decide(self.e, eq=self.eq)
        if self.key is not None:
            ctx().decided[self.key] = r
        return r

    def __invert__(self):
        return SBool(z3.Not(self.e), neq=self.eq, eq=self.neq)

    def __int__(self):
        return int(self.decide())

    __index__ = __int__

    def __float__(self):
        return float(self.decide())

    def __and__(self, o):
        return SBool(z3.And(self.e, to_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.e, to_bool(o)))

    __ror__ = __or__

    def __eq__(self, o):
        return SBool(self.e == to_bool(o))

    def __ne__(self, o):
        return SBool(self.e != to_bool(o))

    def __hash__(self):
        return hash(bool(self))

    def all(self):
        return self

    def any(self):
        return self


def to_bool(x):
    if isinstance(x, SBool):
        return x.e
    return z3.BoolVal(bool(x))


PI_Z = z3.Real("pi")


def zatom(a):
    c = ctx()
    if a in c.zcache:
        return c.zcache[a]
    if a.kind == "pi":
        if "pi" not in c.extra_true:
            c.extra_true.add("pi")
            c.add(z3.And(PI_Z > z3.Q(31415926, 10000000), PI_Z < z3.Q(31415927, 10000000)))
        v = PI_Z
    elif a.kind == "prime":
        v = z3.RealVal(int(a.name[1:]))
    elif a.kind == "cplx":
        raise Unsupported("complex atom in an order comparison")
    else:
        v = a.z3v
        if a.kind == "pos" and ("pos", a) not in c.extra_true:
            c.extra_true.add(("pos", a))
            c.add(v >= 0 if a in N.a_args else v > 0)
        if a in N.a_args and ("def", a) not in c.extra_true:
            c.extra_true.add(("def", a))
            f, args = N.a_args[a]
            if f == "inv":
                c.add(v * zreal(args[0]) == 1)
            elif f == "sqrt" and args[0].is_real_form():
                c.add(v * v == zreal(args[0]))
    if z3.is_int(v):
        v2 = v
    else:
        v2 = v
    c.zcache[a] = v2
    return v2


def zpow(a, e):
    c = ctx()
    base = zatom(a)
    if e.denominator == 1:
        k = int(e)
        if k > 0:
            r = base
            for _ in range(k - 1):
                r = r * base
            return r
        b = z3.ToReal(base) if z3.is_int(base) else base
        r = b
        for _ in range(-k - 1):
            r = r * b
        return z3.RealVal(1) / r
    root = z3.Real(f"root{e.denominator}!{a.name}")
    if ("root", a, e.denominator) not in c.extra_true:
        c.extra_true.add(("root", a, e.denominator))
        r = root
        for _ in range(e.denominator - 1):
            r = r * root
        c.add(z3.And(root > 0, r == (z3.ToReal(base) if z3.is_int(base) else base)))
    k = e.numerator
    r = root
    for _ in range(abs(k) - 1):
        r = r * root
    return r if k > 0 else z3.RealVal(1) / r


def zreal(n):
    """z3 term of a real Num; phases make it opaque"""
    if not n.is_real_form():
        if any(a.conj is not None for a in n.atoms()) or any(p for (_m, p) in n.t):
            key = ("opaque", n.key())
            c = ctx()
            if key not in T.memo:
                T.memo[key] = z3.Real(f"opq!{len(T.memo)}")
            c.approx = c.approx or "order comparison of a trigonometric expression"
            return T.memo[key]
    if not n.t:
        return z3.IntVal(0)
    allint = all(all(a.integer and e > 0 and e.denominator == 1 and a.kind == "int" for a, e in m) and c.denominator == 1
                 for (m, p), c in n.t.items())
    terms = []
    for (m, p), c in n.t.items():
        t = z3.IntVal(c.numerator) if allint else z3.Q(c.numerator, c.denominator)
        one = c == 1
        for a, e in m:
            f = zpow(a, e)
            if not allint and z3.is_int(f):
                f = z3.ToReal(f)
            t = f if one else t * f
            one = False
        terms.append(t)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def content_pi(n):
    """divide by a positive common monomial (pi, positive atoms), which keeps signs"""
    if not n.t:
        return n
    ks = list(n.t)
    for a in {a for m, _ in ks for a, _ in m}:
        if a.kind in ("pi", "pos", "prime") or positive_atom(a):
            if a in N.a_args and a.kind == "pos":
                continue
            es = []
            for m, _ in ks:
                e = dict(m).get(a)
                es.append(e if e is not None else Fraction(0))
            lo = min(es)
            if lo != 0:
                n = n * Num({(((a, -lo),), ()): Fraction(1)})
                ks = list(n.t)
    return n


def positive_atom(a):
    if a.kind in ("pos", "pi", "prime"):
        return True
    c = CTX
    if c is None or a.kind == "cplx":
        return False
    k = ("positive", a)
    if k in c.checked:
        return c.checked[k]
    r = c.prove(zatom(a) > 0)
    if r:
        c.checked[k] = r
    return r


def numeric_const(n):
    """float value if n only has pi, primes and roots of unity"""
    for a in n.atoms():
        if a.kind not in ("pi", "prime") and a.name != "e!":
            return None
    return n.evalf({})


def compare(op, a, b):
    c = CTX
    if c is None:
        return compare0(op, a, b)
    d = a - b
    if c.subs:
        d = c.norm(d)
    key = (op, d.key())
    if key in c.decided:
        return c.decided[key]
    r = compare0(op, d, N.ZERO)
    if isinstance(r, SBool):
        r.key = key
    else:
        c.decided[key] = r
    return r


def compare0(op, a, b):
    d = a - b
    if CTX is not None and CTX.subs:
        d = CTX.norm(d)
    if d.is_zero():
        return op != "<"
    v = numeric_const(d)
    if v is not None:
        if op == "==":
            return False if abs(v) > 1e-12 else _ambiguous()
        if abs(v.imag) > 1e-12:
            raise TypeError("'<' not supported between complex numbers")
        if abs(v.real) < 1e-12:
            _ambiguous()
        return v.real < 0
    if op == "==":
        if not d.is_real_form():
            if len(d.t) == 1:
                # a single term vanishes only if one of its real factors does
                ((m, _p), _c), = d.t.items()
                if all(x.kind != "cplx" for x, _ in m):
                    d2 = Num({(m, ()): Fraction(1)})
                    return compare("==", d2, N.ZERO) if m else False
            if d.imag.is_zero() and d.real.is_real_form():
                d = d.real
            else:
                return SBool(opaque_eq(d))
        d = content_pi(d)
        if len(d.t) == 1:
            ((m, _p), _c), = d.t.items()
            if not m:
                return False
            if all(positive_atom(x) for x, _ in m):
                return False
        return SBool(z_eq0(d), eq=(d, N.ZERO))
    if not d.is_real_form():
        if not d.imag.is_zero():
            raise TypeError("'<' not supported between complex numbers")
        if d.real.is_real_form():
            d = d.real
    d = content_pi(d)
    v = numeric_const(d)
    if v is not None:
        return v.real < 0 if op == "<" else v.real <= 0
    z = zreal(d)
    return SBool(z < 0 if op == "<" else z <= 0)


def z_eq0(d):
    # clear denominators of integer polynomials
    den = 1
    for c in d.t.values():
        den = math.lcm(den, c.denominator)
    return zreal(d * den) == 0


def opaque_eq(d):
    """equality of trigonometric expressions: an uninterpreted condition"""
    d, _ = d._content()
    key = ("eq0", d.key())
    if key not in T.memo:
        T.memo[key] = z3.Bool(f"eq!{len(T.memo)}")
    c = ctx()
    c.approx = c.approx or "equality of a trigonometric expression used as a condition"
    return T.memo[key]


def _ambiguous():
    raise Unsupported("constant too close to zero to decide")


def negate(c):
    return ~c if isinstance(c, SBool) else (not c)


def concretise(n):
    """a symbolic integer used where CPython needs a machine integer: one path per value"""
    c = ctx()
    n = c.norm(n)
    v = n.as_int()
    if v is not None:
        return v
    if not n.int_valued():
        raise Unsupported("index is not an integer")
    z = zreal(n)
    for k in range(0, 65):
        if c.decide(z == k, eq=(n, Num.const(k))):
            return k
        if c.prove(z > k) is False and c.check() == z3.unsat:
            raise PathEnd
        if k < 64 and c.check(z > k) == z3.unsat:
            break
    for k in range(-1, -65, -1):
        if c.decide(z == k, eq=(n, Num.const(k))):
            return k
        if c.check(z < k) == z3.unsat:
            raise PathEnd
    raise Unsupported("unbounded concretisation of a symbolic integer")


def prove_cond(b):
    """prove a condition without branching"""
    if isinstance(b, SBool):
        r = ctx().prove(b.e)
        if r and b.key is not None and b.key[0] != "==":
            ctx().decided[b.key] = True
        return r
    return bool(b)


def prove_range(x, lo, hi):
    if CTX is None:
        v = numeric_const(x)
        return v is not None and lo < v.real <= hi
    return prove_cond(compare("<", Num.const(lo), x)) and prove_cond(compare("<=", x, Num.const(hi)))


def num_mod(a, b):
    a, b = Num.lift(a), Num.lift(b)
    if a is None or b is None:
        return NotImplemented
    if not b.t:
        raise ZeroDivisionError("integer modulo by zero")
    if not a.t:
        return N.ZERO
    r = None
    try:
        r = (a * b.inv()).as_fraction()
    except Unsupported:
        pass
    if r is not None:
        return b * (r - math.floor(r))
    if CTX is None:
        v, w = numeric_const(a), numeric_const(b)
        if v is None or w is None:
            raise Unsupported("mod outside an obligation")
        return a - b * math.floor(v.real / w.real)
    c = ctx()
    a, b = c.norm(a), c.norm(b)
    if not prove_cond(compare("<", N.ZERO, b)):
        if not bool(compare("<", N.ZERO, b)):
            if bool(compare("==", b, N.ZERO)):
                raise ZeroDivisionError("modulo by zero")
            return -num_mod(-a, -b)
    if prove_cond(compare("<=", N.ZERO, a)) and prove_cond(compare("<", a, b)):
        return a
    if a.int_valued() and b.int_valued():
        if prove_cond(compare("<=", -b, a)) and prove_cond(compare("<", a, 2 * b)):
            if bool(compare("<", a, N.ZERO)):
                return a + b
            if bool(compare("<", a, b)):
                return a
            return a - b
        # drop integer multiples of b
        keep = Num()
        for k, v in a.t.items():
            q = Num({k: v}) * b.inv()
            if not q.int_valued():
                keep = keep + Num({k: v})
        if not (keep - a).is_zero():
            return num_mod(keep, b)
    elif a.is_real_form():
        # an integer multiple of b and a rest that is known to lie in [0, b)
        keep = Num()
        for k, v in a.t.items():
            if not (Num({k: v}) * b.inv()).int_valued():
                keep = keep + Num({k: v})
        if not (keep - a).is_zero() and prove_cond(compare("<=", N.ZERO, keep)) and prove_cond(compare("<", keep, b)):
            return keep
    key = ("floor", a.key(), b.key())
    if key not in T.memo:
        for at, (f, args) in list(N.a_args.items()):
            if f == "floor":
                a1, b1 = c.norm(args[0]), c.norm(args[1])
                if (b1 - b).is_zero():
                    for k in (0, 1, -1):
                        if (a - a1 - k * b).is_zero():
                            q = Num({(((at, Fraction(1)),), ()): Fraction(1)}) + k
                            return a - b * q
        at = T.atom(c.fresh("floor!"), "int")
        T.memo[key] = at
        N.a_args[at] = ("floor", (a, b))
        q = Num({(((at, Fraction(1)),), ()): Fraction(1)})
        if a.is_real_form() and b.is_real_form():
            a2, b2 = a, b
            if all(any(x.kind == "pi" for x, _ in m) for n in (a, b) for (m, _p) in n.t):
                a2, b2 = a / N.PI, b / N.PI
            c.define(z3.Implies(zreal(b2) > 0, z3.And(zreal(b2 * q) <= zreal(a2), zreal(a2) < zreal(b2 * q + b2))))
    at = T.memo[key]
    q = Num({(((at, Fraction(1)),), ()): Fraction(1)})
    return a - b * q


def fold(z):
    """a sum that is a monomial times a square root: (a^2 + b^2) / sqrt(a^2 + b^2)"""
    if len(z.t) < 2:
        return z
    low = {}
    for m, _p in z.t:
        for a, e in m:
            if a.rewrite is not None and a.kind == "pos" and e < 0:
                low[a] = min(low.get(a, Fraction(0)), e)
    for a, k in low.items():
        if k.denominator != 1 or a.rewrite[0] != 2:
            continue
        inv = Num({(((a, -k),), ()): Fraction(1)})
        y = z * inv
        if len(y.t) != len(a.rewrite[1].t):
            continue
        yn, ly = y._content()
        for key, c in a.rewrite[1].t.items():
            lr = Num({key: c})
            if (yn - a.rewrite[1] * lr.inv()).is_zero():
                break
        else:
            continue
        out = ly / lr * Num({((((a, k + 2)),), ()): Fraction(1)}) if k != -2 else ly / lr
        return fold(out)
    return z


def positive_sum(z):
    """the common phase of a sum of positive terms with one phase, else None"""
    ph = None
    for (m, p), c in z.t.items():
        if not all(positive_atom(a) for a, _ in m):
            return None
        if ph is None:
            ph = (p, c > 0)
        elif ph != (p, c > 0):
            return None
    return None if ph is None else Num({((), ph[0]): Fraction(1 if ph[1] else -1)})


def num_abs(x):
    if not x.t:
        return N.ZERO
    x = fold(x)
    v = numeric_const(x)
    if v is not None and abs(v.imag) < 1e-12:
        return x if v.real >= 0 else -x
    if len(x.t) == 1:
        ((m, p), c), = x.t.items()
        r = Num.const(1) * abs(c)
        rest = []
        for a, e in m:
            if a.kind == "cplx":
                rest = None
                break
            if positive_atom(a) or (e.denominator == 1 and e % 2 == 0):
                rest.append((a, e))
            else:
                y = Num({(((a, Fraction(1)),), ()): Fraction(1)})
                y = y if bool(compare("<=", N.ZERO, y)) else -y
                r = r * (y ** Num.lift(e))
        if rest is not None:
            return r * Num({(tuple(rest), ()): Fraction(1)})
    if len(x.t) > 1 and not x.is_real_form():
        u = positive_sum(x)
        if u is not None:
            return x * u.conjugate()
    if x.is_real_form():
        return x if bool(compare("<=", N.ZERO, x)) else -x
    return N.num_sqrt(x * x.conjugate())


def intval(x):
    """integer valued although some coefficients are not integers: k(k+1)/2"""
    if not x.t:
        return True
    if any(p or not N.mono_integral(m) for (m, p) in x.t):
        return False
    den = 1
    for c in x.t.values():
        den = math.lcm(den, c.denominator)
    if den == 1 or den > 6:
        return den == 1
    # polynomial with integer coefficients modulo den, all residues
    ats = sorted(x.atoms(), key=lambda a: a.idx)
    if den ** len(ats) > 300:
        return False
    import itertools
    for vals in itertools.product(range(den), repeat=len(ats)):
        env = dict(zip(ats, vals))
        tot = Fraction(0)
        for (m, _p), c in x.t.items():
            t = c
            for a, e in m:
                t *= env[a] ** int(e)
            tot += t
        if tot.denominator != 1:
            return False
    return True


N.COMPARE = compare
N.NEGATE = negate
N.CONCRETISE = concretise
N.POSITIVE = positive_atom
N.PROVE_RANGE = prove_range
N.INTVAL = intval
N.num_mod = num_mod
N.num_abs = num_abs
N.FOLD = fold


# --------------------------------------------------------------------------- exploration
class Refuted(Exception):
    def __init__(self, label, detail, inputs, approx):
        super().__init__(label)
        self.label, self.detail, self.inputs, self.approx = label, detail, inputs, approx


class Undecided(Exception):
    pass


def clear_denominators(d, limit=12):
    """multiply by the denominators (they are not zero, since the code divided by them) and use their defining equations"""
    for _ in range(limit):
        low = {}
        for m, _p in d.t:
            for a, e in m:
                if a in N.a_args and N.a_args[a][0] == "inv":
                    low[a] = max(low.get(a, N.F0), e)
                elif e < 0 and a.rewrite is not None and a.kind == "pos":
                    low[a] = min(low.get(a, N.F0), e)
        if not low:
            return d
        a = max(low, key=lambda x: x.idx)
        out = Num()
        if low[a] < 0:
            k = -low[a]
            if k.denominator != 1:
                return d
            d = d * Num({(((a, k),), ()): N.F1})
            continue
        k = low[a]
        if k.denominator != 1 or k > 8:
            return d
        x = N.a_args[a][1][0]
        pw = [N.ONE]
        for _i in range(int(k)):
            pw.append(pw[-1] * x)
        for (m, p), c in d.t.items():
            e = next((e for b, e in m if b is a), N.F0)
            if e < 0 or e.denominator != 1:
                return d
            out = out + Num({(tuple((b, f) for b, f in m if b is not a), p): c}) * pw[int(k - e)]
        d = out
    return d


class VC:
    """handed to an obligation: symbolic inputs, assumptions and goals"""

    def __init__(self, name):
        self.name = name
        self.proved = 0
        self.goals = {}
        self.reached = 0

    # inputs -------------------------------------------------------------
    def int(self, name, lo=None, hi=None):
        n = Num.var(name, "int")
        c = ctx()
        c.inputs[name] = n
        if lo is not None:
            self.assume(n >= lo)
        if hi is not None:
            self.assume(n <= hi)
        return n

    def real(self, name, kind="real"):
        n = Num.var(name, kind)
        ctx().inputs[name] = n
        return n

    def angle(self, name):
        """an arbitrary real angle, as pi * t"""
        n = N.PI * Num.var(name, "real")
        ctx().inputs[name] = n
        return n

    def complex(self, name):
        n = N.cplx(name)
        ctx().inputs[name] = n
        return n

    def choose(self, name, k):
        """a ghost choice among k cases (every case is explored)"""
        n = Num.var(ctx().fresh(name), "int")
        self.assume(n >= 0)
        self.assume(n < k)
        return concretise(n)

    def assume(self, b):
        c = ctx()
        if isinstance(b, SBool):
            e = b.e
            c.add(e)
            if b.eq is not None:
                c.learn_eq(*b.eq)
        elif not b:
            raise PathEnd

    # goals --------------------------------------------------------------
    def ensure(self, b, label):
        c = ctx()
        if isinstance(b, SBool):
            r = c.check(z3.Not(b.e))
            if r == z3.unsat:
                return self._ok(label)
            if r == z3.sat:
                raise Refuted(label, f"{label}: condition {z3.simplify(b.e)} can be false", model_inputs(c, [z3.Not(b.e)]), c.approx)
            raise Undecided(f"{label}: z3 unknown")
        if b:
            return self._ok(label)
        raise Refuted(label, f"{label}: false on the path", model_inputs(c, []), c.approx)

    def ensure_eq(self, a, b, label):
        c = ctx()
        a0, b0 = a, b
        a, b = Num.lift(a), Num.lift(b)
        if a is None or b is None:
            raise Refuted(label, f"{label}: {a0!r} is not the number {b0!r}", model_inputs(c, []), c.approx)
        d = c.norm(a - b)
        if d.is_zero() or c.norm(clear_denominators(d)).is_zero():
            return self._ok(label)
        if d.is_real_form():
            z = z_eq0(content_pi(d))
            r = c.check(z3.Not(z))
            if r == z3.unsat:
                return self._ok(label)
            if r == z3.sat and has_sum(d):
                raise Undecided(f"{label}: sums of symbolic length not shown equal: {d!r}")
            if r == z3.sat:
                raise Refuted(label, f"{label}: {a!r} differs from {b!r}", model_inputs(c, [z3.Not(z)]), c.approx)
        elif self._zero_by_cases(d):
            return self._ok(label)
        # refute numerically
        for seed in range(6):
            m = model_inputs(c, [], seed)
            if m is None:
                continue
            try:
                v = d.evalf(dict(m["env"]))
            except KeyError:
                continue
            if abs(v) > 1e-6:
                raise Refuted(label, f"{label}: {a!r} differs from {b!r} (by {abs(v):.3g})", m, c.approx)
        raise Undecided(f"{label}: {d!r} not decided")

    def _zero_by_cases(self, d):
        """phases that coincide because the path pins integer or real atoms: try proven values of atoms"""
        c = ctx()
        for a in sorted(d.atoms(), key=lambda a: -a.idx):
            if a.kind in ("int", "real") and a.z3v is not None:
                if c.check() != z3.sat:
                    return False
                mv = c.solver.model().eval(a.z3v, model_completion=True)
                if c.prove(a.z3v == mv):
                    f = zval(mv)
                    if isinstance(f, Fraction):
                        d = N.subst(d, a, Num.lift(f))
                        if d.is_zero():
                            return True
        return d.is_zero()

    def ensure_raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            return self._ok(label)
        except (Unsupported, Undecided, Refuted):
            raise
        raise Refuted(label, f"{label}: did not raise", model_inputs(ctx(), []), ctx().approx)

    def fail(self, label, detail=""):
        raise Refuted(label, f"{label}: {detail}", model_inputs(ctx(), []), ctx().approx)

    def ok(self, label):
        self._ok(label)

    def _ok(self, label):
        self.proved += 1
        self.goals[label] = self.goals.get(label, 0) + 1
        self.reached += 1

    def cover(self, label):
        self.goals.setdefault("cover:" + label, 0)
        self.goals["cover:" + label] += 1


def zval(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    return None


def model_inputs(c, extra, seed=0):
    """concrete inputs that follow this path (None if z3 gives no model)"""
    rnd = random.Random(seed)
    c.solver.push()
    try:
        c.solver.add(*extra)
        if c.solver.check() != z3.sat:
            return None
        ats = [a for a in T.by_name.values() if a.idx > 0 and a.kind != "cplx" and a not in N.a_args]
        # diversify: push real atoms away from the corner z3 likes
        for a in ats:
            if a.kind in ("real", "pos"):
                lo = rnd.uniform(-1.9, 1.5) if a.kind == "real" else rnd.uniform(0.05, 0.8)
                c.solver.push()
                c.solver.add(a.z3v > z3.RealVal(Fraction(lo).limit_denominator(50)), a.z3v < z3.RealVal(Fraction(lo + 0.35).limit_denominator(50)))
                if c.solver.check() == z3.sat:
                    continue
                c.solver.pop()
        if c.solver.check() != z3.sat:
            return None
        m = c.solver.model()
        env = {}
        for a in ats:
            v = m.eval(a.z3v, model_completion=True)
            f = zval(v)
            env[a] = float(f) if f is not None else 0.0
        for a in T.by_name.values():
            if a.kind == "cplx" and a not in env:
                z = complex(rnd.uniform(-1, 1), rnd.uniform(-1, 1))
                env[a] = z
                if a.conj is not None:
                    env[a.conj] = z.conjugate()
        out = {}
        for k, n in c.inputs.items():
            out[k] = input_value(n, env)
        return {"env": env, "inputs": out}
    finally:
        while True:
            try:
                # pop everything pushed here
                if c.solver.num_scopes() == 0:
                    break
                c.solver.pop()
            except z3.Z3Exception:
                break


def input_value(n, env):
    if isinstance(n, Num):
        try:
            v = n.evalf(dict(env))
        except KeyError:
            return None
        if n.int_valued():
            return int(round(v.real))
        if abs(v.imag) < 1e-15:
            return v.real
        return [v.real, v.imag]
    if isinstance(n, (list, tuple)):
        return [input_value(x, env) for x in n]
    if isinstance(n, dict):
        return {k: input_value(v, env) for k, v in n.items()}
    return n


def explore(name, fn, budget=60.0, max_paths=20000):
    """run every path of the obligation; returns a result dictionary"""
    global CTX
    t0 = time.time()
    z0, zt0 = STATS["z3_calls"], STATS["z3_time"]
    vc = VC(name)
    res = {"name": name, "status": "discharged", "paths": 0, "vcs": 0, "discharged": 0, "detail": "", "inputs": None}
    trace = []
    persist = {}
    try:
        while True:
            N.init_consts()
            c = Ctx(t0 + budget, persist)
            c.trace = trace
            CTX = c
            try:
                fn(vc)
                res["paths"] += 1
                if c.check() != z3.unsat:
                    vc.cover("path")
            except PathEnd:
                res["paths"] += 1
            trace = c.trace[: max(c.pos, 0)] if c.pos < len(c.trace) else c.trace
            while trace and not trace[-1][1]:
                trace.pop()
            if not trace:
                break
            trace[-1] = [not trace[-1][0], False]
            if res["paths"] > max_paths:
                raise Budget("path budget")
    except Refuted as e:
        res.update(status="refuted" if not e.approx else "unknown", detail=e.detail[:1500], label=e.label,
                   inputs=(e.inputs or {}).get("inputs"), approx=e.approx)
        res["vcs"] = vc.proved + 1
    except Undecided as e:
        res.update(status="unknown", detail=str(e)[:1500])
        res["vcs"] = vc.proved + 1
    except Unsupported as e:
        res.update(status="unsupported", detail=str(e)[:500] + " | " + short_tb())
        res["vcs"] = vc.proved + 1
    except Budget as e:
        res.update(status="unknown", detail=f"budget: {e}")
        res["vcs"] = vc.proved + 1
    except RecursionError:
        res.update(status="unsupported", detail="recursion limit")
        res["vcs"] = vc.proved + 1
    except Exception as e:  # noqa: BLE001  the code raised on inputs that satisfy the precondition (or an engine limit)
        inp = None
        try:
            inp = model_inputs(CTX, [])
        except Exception:  # noqa: BLE001
            pass
        res.update(status="raised", detail=f"{type(e).__name__}: {e} | " + short_tb(), inputs=(inp or {}).get("inputs"))
        res["vcs"] = vc.proved + 1
    else:
        res["vcs"] = vc.proved
        if vc.proved == 0:
            res.update(status="vacuous", detail="no goal was reached", vcs=1)
    finally:
        CTX = None
    res["discharged"] = vc.proved
    res["goals"] = vc.goals
    res["time"] = round(time.time() - t0, 3)
    res["z3_calls"] = STATS["z3_calls"] - z0
    res["z3_time"] = round(STATS["z3_time"] - zt0, 3)
    return res


def short_tb():
    tb = traceback.format_exc().strip().splitlines()
    return " / ".join(x.strip() for x in tb if x.strip().startswith("File"))[-600:]


def pack(n):
    f = lambda m: tuple((a.name, a.kind, e) for a, e in m)
    return tuple((f(m), tuple((f(mm), cc) for mm, cc in p), c) for (m, p), c in n.t.items())


def unpack(t):
    f = lambda m: tuple((T.atom(nm, k), e) for nm, k, e in m)
    return Num({(f(m), tuple((f(mm), cc) for mm, cc in p)): c for m, p, c in t})


def sub_explore(fn, max_paths=400):
    """all paths of a pure function under the current path condition; yields [(result)] and restores the context"""
    c = ctx()
    saved = (c.trace, c.pos, list(c.subs), len(c.defs), dict(c.ghost), len(c.facts), dict(c.zcache), set(c.extra_true), dict(c.checked), dict(c.decided))
    out = []
    trace = []
    while True:
        c.trace, c.pos = trace, 0
        c.solver.push()
        try:
            c.subs = list(saved[2])
            try:
                out.append(fn())
            except PathEnd:
                pass
            trace = c.trace[: c.pos]
        finally:
            c.solver.pop()
            c.trace, c.pos, c.subs = saved[0], saved[1], list(saved[2])
            c.ghost = dict(saved[4])
            del c.facts[saved[5]:]
            c.zcache, c.extra_true, c.checked = dict(saved[6]), set(saved[7]), dict(saved[8])
            c.decided = dict(saved[9])
            for e in c.defs[saved[3]:]:
                c.add(e)
            saved = (*saved[:3], len(c.defs), saved[4], len(c.facts), *saved[6:])
        while trace and not trace[-1][1]:
            trace.pop()
        if not trace:
            return out
        trace[-1] = [not trace[-1][0], False]
        if len(out) > max_paths:
            raise Unsupported("too many cases in a sum")
