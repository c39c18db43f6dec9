"""C08: the number layer and the tables of the decision-diagram package (ComplexNumbers, ComplexTable, ComplexCache, ComputeTable, UniqueTable)."""
from __future__ import annotations

import itertools
from fractions import Fraction

from contracts import dd, dd3
from contracts.dd import need
from pyvc import cxx
from pyvc import num as N
from pyvc.api import ob
from pyvc.num import Num, Unsupported

P = "C08"
NUM = "cpp:include/dd/ComplexNumbers.hpp:ComplexNumbers."
CPX = "cpp:include/dd/Complex.hpp:Complex."
TAB = "cpp:include/dd/ComplexTable.hpp:ComplexTable."
CACHE = "cpp:include/dd/ComplexCache.hpp:ComplexCache."
COMP = "cpp:include/dd/ComputeTable.hpp:ComputeTable."
UNA = "cpp:include/dd/UnaryComputeTable.hpp:UnaryComputeTable."
UNI = "cpp:include/dd/UniqueTable.hpp:UniqueTable."


def guard(vc, f):
    """as dd.guard; following a null pointer is a failure as well"""
    def body():
        try:
            f()
        except Unsupported as e:
            need("of NoneType" not in str(e), "a null pointer is followed")
            raise
    dd.guard(vc, body)


def one_body(m, name, cls, pattern=""):
    fs = [f for f in m.p.funcs.get(name, []) if f.mangled and cls in f.mangled and pattern in f.t]
    if len(fs) != 1:
        raise Unsupported(f"{len(fs)} instances of {cls}{name}")
    return fs[0]


def pointer(v, kind="table"):
    """a pointer to the number v: the table holds absolute values, the sign is in the pointer"""
    v = Num.lift(v)
    if not v.t:
        return dd3.ZERO.pos
    if (v - 1).is_const_zero():
        return dd3.ONE.pos
    if (v + 1).is_const_zero():
        return dd3.ONE.neg
    return dd3.Entry(v, kind).pos


def cval(p):
    return -p.entry.value if p.negative else p.entry.value


def exact_hooks():
    """comparisons up to the tolerance, on exact numbers: arbitrary numbers are neither zero nor one nor equal"""
    def eq(a, b):
        d = cval(a) - cval(b) if isinstance(a, dd3.Ptr) and isinstance(b, dd3.Ptr) else (cval(a) if isinstance(a, dd3.Ptr) else Num.lift(a)) - (cval(b) if isinstance(b, dd3.Ptr) else Num.lift(b))
        return d.is_const_zero()

    def on(f, parts):
        def h(m, t, a, n):
            if isinstance(t, cxx.Struct):
                return all(f(t.f[p], *([x.f[p] for x in a] if a else [c])) for p, c in parts)
            return f(*a, *([] if len(a) == 2 else [parts[0][1]]))
        return h
    return {"approximatelyEquals": on(eq, [("real", None), ("img", None)]), "approximatelyZero": on(eq, [("real", 0), ("img", 0)]), "approximatelyOne": on(eq, [("real", 1), ("img", 0)])}


def operands(vc, tag):
    s = lambda n: vc.real(f"{tag}{n}")
    mk = lambda r, i: dd3.number(r, i)
    e = lambda v: dd3.Entry(v, "table")
    yield "arbitrary", mk(e(s("r")).pos, e(s("i")).pos)
    yield "negative real", mk(e(s("r")).neg, e(s("i")).pos)
    yield "negative imaginary", mk(e(s("r")).pos, e(s("i")).neg)
    yield "negative", mk(e(s("r")).neg, e(s("i")).neg)
    yield "real", mk(e(s("r")).neg, dd3.ZERO.pos)
    yield "imaginary", mk(dd3.ZERO.pos, e(s("i")).neg)
    yield "one", mk(dd3.ONE.pos, dd3.ZERO.pos)
    yield "minus one", mk(dd3.ONE.neg, dd3.ZERO.pos)
    yield "i", mk(dd3.ZERO.pos, dd3.ONE.pos)
    yield "zero", mk(dd3.ZERO.pos, dd3.ZERO.pos)


def cache_number():
    return dd3.number(dd3.Entry(7, "cache").pos, dd3.Entry(9, "cache").pos)


OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}


def arithmetic(vc, op):
    cases = [(f"{na}, {nb}", a, b, cache_number()) for (na, a), (nb, b) in itertools.product(operands(vc, "a"), operands(vc, "b"))]
    cached = lambda: dd3.number(dd3.Entry(vc.real("cr"), "cache").pos, dd3.Entry(vc.real("ci"), "cache").pos)
    for nb, b in operands(vc, "b"):
        c = cached()
        cases.append((f"result is the first operand, {nb}", c, b, c))
        c = cached()
        cases.append((f"result is the second operand, {nb}", b, c, c))
    c = cached()
    cases.append(("both operands are the result", c, c, c))
    for label, a, b, r in cases:
        va, vb = dd3.value(a), dd3.value(b)
        if op == "div" and not vb.t:
            continue
        want = OPS[op](va, vb)
        m = cxx.Machine(dd3.hooks(**exact_hooks()))
        m.invoke(one_body(m, op, "14ComplexNumbers"), [r, a, b], None)
        d = dd3.value(r) - want
        if not d.is_const_zero():
            vc.ensure_eq(dd3.value(r), want, f"{op} of {label}")
        for x in (a, b):
            if x is not r:
                need((dd3.value(x) - (va if x is a else vb)).is_const_zero(), f"{op} of {label}: an operand is changed")
    vc.ok(op)


for op_ in OPS:
    @ob(P, f"C++ number {op_}", [NUM + op_, CPX + "setVal", TAB + "Entry.val"], bound=None, case="mi_embed", fixed={"dims": [2, 3, 2]})
    def arith_(vc, op=op_):
        guard(vc, lambda: arithmetic(vc, op))


@ob(P, "C++ number mag2, conj, neg, cached", [NUM + "mag2", NUM + "conj", NUM + "neg", NUM + "mulCached", NUM + "addCached", NUM + "subCached", NUM + "divCached", NUM + "getCached", NUM + "getTemporary"], bound=None, case="mi_embed", fixed={"dims": [2, 3, 2]})
def unary_(vc):
    def body():
        for label, a in operands(vc, "a"):
            va = dd3.value(a)
            m = cxx.Machine(dd3.hooks(**exact_hooks()))
            re, im = cval(a.f["real"]), cval(a.f["img"])
            vc.ensure_eq(m.invoke(one_body(m, "mag2", "14ComplexNumbers"), [a], None), re * re + im * im, f"mag2 of {label}")
            for name, want in (("conj", re - N.I * im), ("neg", -va)):
                fs = [f for f in m.p.funcs.get(name, []) if f.mangled and "14ComplexNumbers" in f.mangled]
                if not fs and name == "neg":
                    continue
                c = m.invoke(one_body(m, name, "14ComplexNumbers"), [a], None)
                vc.ensure_eq(dd3.value(c), want, f"{name} of {label}")
                need(not any(p.negative and p.entry is dd3.ZERO for p in c.f.values()), f"{name} of {label}: negative zero")
            need((dd3.value(a) - va).is_const_zero(), "the operand is changed")
            for (lb, b), (name, f) in itertools.product(list(operands(vc, "b"))[:8:3], OPS.items()):
                fs = [f_ for f_ in m.p.funcs.get(name + "Cached", []) if f_.mangled and "14ComplexNumbers" in f_.mangled]
                if not fs:
                    continue
                r = cache_number()
                m = cxx.Machine(dd3.hooks(**exact_hooks(), getCachedComplex=lambda mm, t, x, n, r=r: r))
                me = cxx.Struct("ComplexNumbers", {"complexTable": None, "complexCache": None})
                got = m.invoke(fs[0], [a, b], me)
                vc.ensure_eq(dd3.value(got), f(va, dd3.value(b)), f"{name}Cached of {label}, {lb}")
                need(got.f["real"].entry is r.f["real"].entry and got.f["img"].entry is r.f["img"].entry, "the result is the number of the cache")
        x, y = vc.real("x"), vc.real("y")
        for name in ("getCached", "getTemporary"):
            for f in m.p.funcs.get(name, []):
                if not f.mangled or "14ComplexNumbers" not in f.mangled or "()" in f.t:
                    continue
                r = cache_number()
                m = cxx.Machine(dd3.hooks(**exact_hooks(), getCachedComplex=lambda mm, t, x, n, r=r: r, getTemporaryComplex=lambda mm, t, x, n, r=r: r))
                me = cxx.Struct("ComplexNumbers", {"complexTable": None, "complexCache": None})
                args = [x, y] if "fp" in f.t else [cxx.Struct("ComplexValue", {"r": x, "i": y})]
                got = m.invoke(f, args, me)
                vc.ensure_eq(dd3.value(got), x + N.I * y, f"{name} of two numbers")
        vc.ok("numbers")
    guard(vc, body)


@ob(P, "C++ comparisons up to the tolerance", [CPX + "approximatelyEquals", CPX + "approximatelyZero", CPX + "approximatelyOne", CPX + "operator==", TAB + "Entry.approximatelyEquals", TAB + "Entry.approximatelyZero", TAB + "Entry.approximatelyOne",
                                            "cpp:include/dd/ComplexValue.hpp:ComplexValue.approximatelyEquals", "cpp:include/dd/ComplexValue.hpp:ComplexValue.approximatelyZero", "cpp:include/dd/ComplexValue.hpp:ComplexValue.operator=="],
    bound="numbers within, at and beyond the tolerance of zero, one and of each other", case="mi_embed", fixed={"dims": [2, 3, 2]})
def compared(vc):
    def body():
        t = dd3.TOL
        parts = [0, 1, -1, t / 2, -t / 2, t * 2, 1 + t / 2, 1 - t * 2, Fraction(1, 2), Fraction(-1, 2)]
        near = lambda x, y: abs(x - y) <= t
        values = [(x, y) for x in parts for y in (0, 1, t / 2, -t * 2, Fraction(1, 2))]
        for k, (x, y) in enumerate(values):
            for (u, v) in values[k % 7::7]:
                m = cxx.Machine(dd3.hooks())
                ptr = lambda z: dd3.ZERO.pos if z == 0 else dd3.Entry(abs(z), "table").neg if z < 0 else dd3.Entry(z, "table").pos
                a, b = dd3.number(ptr(x), ptr(y)), dd3.number(ptr(u), ptr(v))
                ca, cb = cxx.Struct("ComplexValue", {"r": Num.lift(x), "i": Num.lift(y)}), cxx.Struct("ComplexValue", {"r": Num.lift(u), "i": Num.lift(v)})
                want = {"approximatelyEquals": near(x, u) and near(y, v), "approximatelyZero": near(x, 0) and near(y, 0), "approximatelyOne": near(x, 1) and near(y, 0)}
                for name, w in want.items():
                    args = name == "approximatelyEquals"
                    for cls, me, other in (("_ZNK2dd7Complex1", a, b), ("_ZNK2dd12ComplexValue1", ca, cb)):
                        fs = [f for f in m.p.funcs.get(name, []) if f.mangled and f.mangled.startswith(cls)]
                        for f in fs:
                            got = m.invoke(f, [other] if args else [], me)
                            need(got is w or got == w, f"{name} of {x}+{y}i" + (f" and {u}+{v}i" if args else "") + f": {got}")
                f = one_body(m, "operator==", "_ZNK2dd7Complexeq")
                need(m.invoke(f, [b], a) == (a.f["real"] is b.f["real"] and a.f["img"] is b.f["img"]), "== compares the pointers")
                need(m.invoke(f, [a], a) is True or m.invoke(f, [a], a) == 1, "== of the same pointers")
        vc.ok("comparisons")
    guard(vc, body)


class Obj:
    """an object of the number layer: named fields, the counters of the statistics start at zero"""
    def __init__(self, counters, **f):
        self.f, self.counters = f, counters

    def cxx_field(self, m, name):
        if name not in self.f:
            if name not in self.counters:
                raise Unsupported("field " + name)
            self.f[name] = 0
        return cxx.Ref(lambda: self.f[name], lambda v: self.f.__setitem__(name, v))

    def __deepcopy__(self, memo):
        return self


STATS = ("hits", "lookups", "count", "peakCount", "inserts", "findOrInserts", "collisions", "insertCollisions", "lowerNeighbors", "upperNeighbors", "nodeCount", "peakNodeCount", "allocations", "chunkID")


@ob(P, "C++ number lookup", [NUM + "lookup", TAB + "tolerance", TAB + "Entry.getNegativePointer"], bound=None, case="mi_embed", fixed={"dims": [2, 3, 2]})
def looked(vc):
    """ComplexTable::lookup by contract: an entry with the (non-negative) value it is asked for"""
    def body():
        t = dd3.TOL

        def lookup(m, this, a, n):
            if len(a) != 1 or not isinstance(this, Obj):
                return m.invoke(one_body(m, "lookup", "14ComplexNumbers", "const fp &, const fp &"), a, this)
            v = Num.lift(cxx.num(a[0]))
            need(bool(v >= 0), "the table holds numbers that are not negative")
            return pointer(v)
        x = vc.real("x")
        vc.assume(x > 1)
        y = vc.real("y")
        vc.assume(y > 2)
        values = [x, -x, Num.lift(0), Num.lift(1), Num.lift(-1), Num.lift(t / 2), Num.lift(-t / 2), Num.lift(-t * 2), Num.lift(Fraction(-1, 2))]
        for r, i in itertools.product(values, [y if v is x else -y if k == 1 else v for k, v in enumerate(values)]):
            for how in ("two numbers", "a value", "a number"):
                m = cxx.Machine(dd3.hooks(lookup=lookup))
                table = Obj(STATS)
                me = cxx.Struct("ComplexNumbers", {"complexTable": table, "complexCache": None})
                if how == "two numbers":
                    c = m.invoke(one_body(m, "lookup", "14ComplexNumbers", "const fp &, const fp &"), [r, i], me)
                elif how == "a value":
                    c = m.invoke(one_body(m, "lookup", "14ComplexNumbers", "const ComplexValue &"), [cxx.Struct("ComplexValue", {"r": r, "i": i})], me)
                else:
                    src = dd3.number(pointer(r, "cache"), pointer(i, "cache"))
                    if len({"-" in str(r), "-" in str(i)}) == 1 and "-" in str(r):
                        src = dd3.number(pointer(-r).entry.neg, pointer(-i).entry.neg)
                    c = m.invoke(one_body(m, "lookup", "14ComplexNumbers", "const Complex &"), [src], me)
                for p, v, w in ((c.f["real"], r, "real"), (c.f["img"], i, "imaginary")):
                    need(isinstance(p, dd3.Ptr) and p.entry.kind in ("table", "const"), f"{how}: the {w} part is an entry of the table")
                    d = cval(p) - v
                    need(d.is_const_zero() or (d.as_fraction() is not None and abs(d.as_fraction()) <= t), f"{how}: the {w} part of {r} + {i}i is {cval(p)}")
                    need(not (p.negative and p.entry is dd3.ZERO), "negative zero")
        vc.ok("lookups")
    guard(vc, body)


def chains(table, tails):
    return {k: (v, tails.d.get(k)) for k, v in table.d.items() if v is not None}


def walk(p):
    out = []
    while p is not None:
        need(len(out) < 50, "the chain of a bucket ends")
        need(isinstance(p, dd3.Ptr) and not p.negative, "a link of a bucket is a plain pointer")
        out.append(p.entry)
        p = p.entry.next
    return out


@ob(P, "C++ number table", [TAB + "lookup", TAB + "findOrInsert", TAB + "insert", TAB + "hash", TAB + "getEntry", TAB + "returnEntry"],
    bound="histories of up to seven lookups in one or two neighbouring buckets: values within and beyond the tolerance of each other, at the border of a bucket, near zero, one and the root of a half, beyond one; tolerance 1e-6", case="mi_embed", fixed={"dims": [2, 3, 2]}, budget=120)
def number_table(vc):
    def body():
        t, mask = dd3.TOL, 65536
        b = Fraction(20000 * 2 + 1, 2 * mask)      # border between two buckets
        mid = Fraction(20000, mask)
        near = lambda c: [c, c + t / 2, c - t / 2, c + t * 2, c - t * 2, c + t, c - t * Fraction(3, 4), c + t * Fraction(7, 2), c - t * 5, c + t * Fraction(9, 10)]
        seqs = []
        for c in (mid, b, b + t / 4, Fraction(3, 2), Fraction(1)):
            v = near(c)
            for k in range(len(v)):
                seqs.append([v[(k + s * j) % 10] for s in (3,) for j in range(7)])
                seqs.append([v[(7 * k + j * j) % 10] for j in range(5)])
                seqs.append([v[k], v[(k + 5) % 10], v[k]])
        seqs.append([Fraction(0), t / 2, 1 - t / 2, 1 + t * 2, t * 2, Fraction(5), Fraction(7), Fraction(5)])
        seqs.append([Fraction(1, 2), Fraction(70710678, 10 ** 8), Fraction(1, 2), Fraction(1, 3), Fraction(1, 2) + t / 2])
        for seq in seqs:
            for used in (0, 2):
                chunk = dd3.Chunks([2, 4])
                chunk.c = [[dd3.Entry(0, "new").pos for _ in range(2)]]
                free = None
                for _ in range(used):
                    e = dd3.Entry(3, "new")
                    e.next, e.ref, free = free, 4, e.pos
                me = Obj(STATS, table=dd3.Sparse(lambda: None, mask + 1), tailTable=dd3.Sparse(lambda: None, mask + 1), available=free, chunks=chunk, allocationSize=4, chunkIt=cxx.Iter(chunk.c[0]), chunkEndIt=cxx.Iter(chunk.c[0], 2))
                handed = {}
                m = cxx.Machine(dd3.hooks())
                for v in seq:
                    p = m.invoke(one_body(m, "lookup", "12ComplexTable"), [Num.lift(v)], me)
                    need(isinstance(p, dd3.Ptr) and not p.negative, "an entry is returned")
                    e = p.entry
                    d = (e.value - v).as_fraction()
                    if d is None:
                        need(e is dd3.SQRT2_2 and abs(float(v) - 0.5 ** .5) <= float(t), f"lookup of {v} after {seq}")
                    else:
                        need(abs(d) <= t, f"lookup of {float(v)}: the entry holds {e.value}")
                    if e.kind != "const":
                        if e in handed:
                            need((handed[e] - e.value).is_const_zero(), "the value of an entry in use changes")
                        else:
                            need(e.ref == 0, "a new entry has no references")
                        handed[e] = e.value
                    kept = set()
                    for k, first in me.f["table"].d.items():
                        es = walk(first)
                        vals = [x.value.as_fraction() for x in es]
                        need(all(x < y for x, y in itertools.pairwise(vals)), "the entries of a bucket are sorted")
                        need(all(min(round(x * mask), mask) == k for x in vals), "an entry is in the bucket of its value")
                        need(me.f["tailTable"].d.get(k) is (es[-1].pos if es else None), "the last entry of a bucket")
                        kept |= set(es)
                    need(kept == set(handed), "the table keeps every entry")
                    need(me.f.get("count", 0) == len(handed), "the number of entries")
                # every value asked for is found again
                for v in dict.fromkeys(seq):
                    p = m.invoke(one_body(m, "lookup", "12ComplexTable"), [Num.lift(v)], me)
                    need(p.entry.kind == "const" or p.entry in handed, f"{float(v)} is found again")
        vc.ok("number table")
    guard(vc, body)


@ob(P, "C++ number cache", [CACHE + "getCachedComplex", CACHE + "getTemporaryComplex", CACHE + "returnToCache", NUM + "returnToCache"],
    bound="histories of up to nine requests and returns over chunks of two and four entries", case="mi_embed", fixed={"dims": [2, 3, 2]}, budget=120)
def number_cache(vc):
    def body():
        for hist in ("gggg", "gtgtg", "ggrgtg", "gggrrgttg", "tgtg", "grgrg", "gggrtgrrg", "ggrgr gtg".replace(" ", ""), "gggggg", "ggggrrrrgg"):
            for order in (0, -1):
                chunks = dd3.Chunks([2])
                for c in chunks.c:
                    for p in c:
                        p.entry.kind = "cache"
                me = Obj(STATS, available=None, chunks=chunks, allocationSize=4, chunkIt=cxx.Iter(chunks.c[0]), chunkEndIt=cxx.Iter(chunks.c[0], 2))
                m = cxx.Machine(dd3.hooks())
                used = []
                for h in hist:
                    if h == "r":
                        c = used.pop(order)
                        m.invoke(one_body(m, "returnToCache", "12ComplexCache"), [c], me)
                    else:
                        c = m.invoke(one_body(m, "getCachedComplex" if h == "g" else "getTemporaryComplex", "12ComplexCache"), [], me)
                        need(all(isinstance(p, dd3.Ptr) for p in c.f.values()), f"{hist}: no number is handed out")
                        parts = [c.f["real"].entry, c.f["img"].entry]
                        busy = [x.f[k].entry for x in used for k in ("real", "img")]
                        need(parts[0] is not parts[1] and not any(x in busy for x in parts), f"{hist}: a number in use is handed out")
                        need(not any(p.negative for p in c.f.values()), "a plain pointer")
                        for e in parts:
                            need(e.kind in ("cache", "new"), "an entry of the cache")
                        if h == "g":
                            used.append(c)
                    need(me.f.get("count", 0) == 2 * len(used), "the number of entries in use")
        vc.ok("number cache")
    guard(vc, body)


def tables_of(m, cls):
    out = {}
    for name in ("insert", "lookup"):
        for f in m.p.funcs.get(name, []):
            if f.mangled and f.mangled.startswith(cls):
                out.setdefault(f.mangled.split("insertE" if name == "insert" else "lookupE")[0].split("E6insert")[0].split("E6lookup")[0], {})[name] = f
    return [v for v in out.values() if len(v) == 2]


def operand(kind, node, w):
    """an operand or result of a table: an edge with a number of the table, or a cached edge with a value"""
    return dd3.E(node, cxx.Struct("ComplexValue", {"r": Num.lift(w[0]), "i": Num.lift(w[1])}) if "Cached" in kind else W[w])


W = {(1, 0): dd3.C_ONE, (0, 1): dd3.number(dd3.ZERO.pos, dd3.ONE.pos), (0, -1): dd3.number(dd3.ZERO.pos, dd3.ONE.neg), (2, 0): dd3.number(dd3.Entry(2, "table").pos, dd3.ZERO.pos)}


def edge_eq(a, b):
    if a is None or b is None:
        return a is b
    wa, wb = a.w, b.w
    if wa is None or wb is None:
        return a.node is b.node and wa is wb
    same = all((wa.f[k] - wb.f[k]).is_const_zero() for k in ("r", "i")) if "r" in wa.f else all(wa.f[k] is wb.f[k] for k in ("real", "img"))
    return a.node is b.node and same


def param_types(f):
    return f.t.split("(", 1)[1].rstrip(")").split(", ")


def compute_tables(vc, cls, funcs):
    def body():
        m0 = cxx.Machine(dd3.hooks())
        tables = tables_of(m0, cls)
        if not tables:
            raise Unsupported("no instance of the table")
        nodes = [dd3.Node(1), dd3.Node(1)]
        for t in tables:
            kinds = param_types(t["lookup"])
            rk = t["lookup"].t.split("(")[0]
            ws = [(1, 0), (0, 1), (0, -1)]
            ops = [[operand(k, n, w) for n in nodes for w in (ws if n is nodes[0] else ws[:1])] for k in kinds]
            keys = list(itertools.product(*ops))
            for hashing in ("all in one bucket", "by the first operand"):
                def hash_(m, this, a, n, hashing=hashing):
                    return 5 if hashing == "all in one bucket" else 1 + (id(a[0].node) % 7)
                for k1, k2 in itertools.product(keys, keys[::2]):
                    empty = lambda: cxx.Struct("Entry", {"leftOperand": dd3.E(None, None), "rightOperand": dd3.E(None, None), "operand": dd3.E(None, None), "result": dd3.E(None, None)})
                    me = Obj(STATS, table=dd3.Sparse(empty, 1 << 16))
                    m = cxx.Machine(dd3.hooks(hash=hash_))
                    r1, r2 = operand(rk, dd3.Node(1), (1, 0)), operand(rk, dd3.TERMINAL, (0, 1))
                    first = m.invoke(t["lookup"], list(k1), me)
                    need(first.node is None, "an empty table finds nothing")
                    m.invoke(t["insert"], [*k1, r1], me)
                    m.invoke(t["insert"], [*k2, r2], me)
                    for k in (k1, k2, keys[0], keys[-1]):
                        got = m.invoke(t["lookup"], list(k), me)
                        fresh = [dd3.E(x.node, cxx.copy(x.w)) for x in k]
                        got2 = m.invoke(t["lookup"], fresh, me)
                        if all(map(edge_eq, k, k2)):
                            need(edge_eq(got, r2) and edge_eq(got2, r2), "the last result is found")
                        elif all(map(edge_eq, k, k1)):
                            need(got.node is None or edge_eq(got, r1), "the result of another key is found")
                        else:
                            need(got.node is None and got2.node is None, "a result is found that was not entered")
        vc.ok("tables")
    guard(vc, body)


@ob(P, "C++ table of binary operations", [COMP + "insert", COMP + "lookup", "cpp:include/dd/Edge.hpp:Edge.operator==", "cpp:include/dd/Edge.hpp:CachedEdge.operator=="],
    bound="every instance of the table in the program; two entries and a lookup, operands over two nodes and three weights, whether they share a bucket or not", case="mi_embed", fixed={"dims": [2, 3, 2]}, budget=120)
def binary_tables(vc):
    compute_tables(vc, "_ZN2dd12ComputeTable", COMP)


@ob(P, "C++ table of unary operations", [UNA + "insert", UNA + "lookup"], bound="every instance of the table in the program; two entries and a lookup, operands over two nodes and three weights, whether they share a bucket or not",
    case="mi_embed", fixed={"dims": [2, 3, 2]}, budget=60)
def unary_tables(vc):
    compute_tables(vc, "_ZN2dd17UnaryComputeTable", UNA)


@ob(P, "C++ table of nodes", [UNI + "lookup", UNI + "returnNode", UNI + "getNode"], bound="histories of four nodes with two or four edges over two nodes below and three weights, in one bucket or several, two levels", case="mi_embed", fixed={"dims": [2, 3, 2]}, budget=120)
def node_table(vc):
    def body():
        m0 = cxx.Machine(dd3.hooks())
        for f in [x for x in m0.p.funcs.get("lookup", []) if x.mangled and x.mangled.startswith("_ZN2dd11UniqueTable")]:
            below = [dd3.Node(0), dd3.Node(0)]
            ws = list(W)
            choices = [(0, 0), (0, 1), (0, 2), (1, 0)]
            for k, (first, second) in enumerate(itertools.product(itertools.product(choices, repeat=2), repeat=2)):
                if k % 3:
                    continue
                for buckets in (1, 2):
                    def hash_(m, this, a, n, buckets=buckets):
                        e = a[0].f["edges"][0]
                        return 3 + (buckets > 1 and e.node is below[0])
                    m = cxx.Machine(dd3.hooks(hash=hash_))
                    me = Obj((*STATS, "active"), tables=[dd3.Sparse(lambda: None, 1 << 15) for _ in range(3)], available=None)
                    entered = {}
                    for var, key in ((1, first), (1, second), (2, first), (1, first), (1, second), (1, second[::-1])):
                        key = key if buckets > 1 else ((0, 0), *key, (0, 0))
                        n = dd3.Node(var, [dd3.E(below[c[0]], W[ws[c[1]]]) for c in key])
                        w = W[(2, 0)]
                        for keep in ((False, True) if (var, key) in entered else (False,)):
                            free = me.f["available"]
                            got = m.invoke(f, [dd3.E(n, w), keep], me)
                            want = entered.setdefault((var, key), n)
                            need(got.node is want and got.w.f["real"] is w.f["real"], "equal nodes are one node, the weight of the edge stays")
                            need(me.f["available"] is (free if keep or want is n else n), "the node that is not needed, and no other, is given back")
                            me.f["available"] = None
                            for (v, kk), nd in entered.items():
                                need(len(nd.f["edges"]) == len(kk) and nd.f["varIndx"] == v and all(e.node is below[c[0]] and e.w.f["img"] is W[ws[c[1]]].f["img"] for e, c in zip(nd.f["edges"], kk)), "a node in the table is changed")
                    # every node is still found
                    for (v, kk), nd in list(entered.items()):
                        got = m.invoke(f, [dd3.E(dd3.Node(v, [dd3.E(e.node, e.w) for e in nd.f["edges"]]), dd3.C_ONE), True], me)
                        need(got.node is nd, "a node in the table is found again")
            cls = f.mangled[:f.mangled.index("6lookup")]
            for hist in ("ggggggg", "gggrrgggg", "grgrgg", "ggrgrggg"):
                chunks = dd3.Chunks([2], dd3.Node)
                me = Obj(STATS, available=None, chunks=chunks, allocationSize=4, chunkIt=cxx.Iter(chunks.c[0]), chunkEndIt=cxx.Iter(chunks.c[0], 2))
                used = []
                for h in hist:
                    if h == "r":
                        m0.invoke(one_body(m0, "returnNode", cls), [used.pop(0)], me)
                    else:
                        n = m0.invoke(one_body(m0, "getNode", cls), [], me)
                        need(isinstance(n, dd3.Node) and all(n is not x for x in used), "a node in use is handed out")
                        n.f["refCount"] = 3
                        used.append(n)
            term = dd3.E(dd3.TERMINAL, dd3.C_ONE)
            need(m0.invoke(f, [term, False], Obj(STATS)).node is dd3.TERMINAL, "the terminal is not entered")
        vc.ok("nodes")
    guard(vc, body)
