"""Loops over iterables of symbolic length.

A `for` statement over a symbolic iterable is discharged by one of
 * a loop contract of the sidecar (Hoare rule: invariant established, preserved by an arbitrary iteration, used after);
 * the accumulation rule: if an arbitrary iteration changes the loop's accumulators only by adding to them (`A += delta`, delta
   independent of every accumulator), the accumulators after the loop are A0 + sum over the iterations of delta;
   both are derived by executing the real loop body on an arbitrary iteration.
"""
from __future__ import annotations

import ast
import itertools as _it
import types

from . import arr as A
from . import builtins_ as bt
from . import core as C
from . import num as N
from .num import Num, Unsupported

INVARIANTS = {}      # (module suffix, function, ordinal) -> invariant object


class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []
        self.first = {}     # name -> 'load'/'store' first occurrence
        self.bad = False
        self.depth = 0

    def note(self, n, k):
        self.first.setdefault(n, k)
        if k == "store" and n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        self.note(node.id, "load" if isinstance(node.ctx, ast.Load) else "store")

    def visit_AugAssign(self, node):
        self.visit(node.value)
        if isinstance(node.target, ast.Name):
            self.note(node.target.id, "load")
            self.note(node.target.id, "store")
        else:
            self.visit(node.target)

    def visit_Assign(self, node):
        self.visit(node.value)
        for t in node.targets:
            self.visit(t)

    def visit_For(self, node):
        self.visit(node.iter)
        self.visit(node.target)
        for s in node.body + node.orelse:
            self.visit(s)

    def visit_Return(self, node):
        self.bad = True
        self.generic_visit(node)

    def visit_Break(self, node):
        self.bad = True

    def visit_Yield(self, node):
        self.bad = True

    visit_YieldFrom = visit_Yield

    def visit_FunctionDef(self, node):
        self.note(node.name, "store")

    def visit_Lambda(self, node):
        self.visit(node.body)


class Transformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.fn = []
        self.ord = {}

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.ord[tuple(self.fn)] = 0
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_ClassDef(self, node):
        self.fn.append(node.name)
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_For(self, node):
        if not self.fn or tuple(self.fn) not in self.ord:
            return self.generic_visit(node)
        k = self.ord[tuple(self.fn)]
        self.ord[tuple(self.fn)] = k + 1
        an = _Assigned()
        for s in node.body:
            an.visit(s)
        tgt = _Assigned()
        tgt.visit(node.target)
        tnames = set(tgt.names)
        stores = [n for n in an.names if n not in tnames]
        # names possibly mutated in place: bases of subscripted stores, augmented assignments, receivers of method calls
        mutated = set()
        for s in node.body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)):
                    for t in (x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]):
                        while isinstance(t, (ast.Subscript, ast.Attribute)):
                            t = t.value
                            if isinstance(t, ast.Name):
                                mutated.add(t.id)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                    if x.func.attr in ("append", "extend", "insert", "pop", "remove", "add", "update", "sort", "reverse", "clear"):
                        mutated.add(x.func.value.id)
        live = [n for n in stores if an.first.get(n) == "load"] + sorted(m for m in mutated if m not in tnames and an.first.get(m) == "load" and m not in stores)
        hazard = an.bad
        self.generic_visit(node)
        lid = ".".join(self.fn) + f"#{k}"
        it = f"vc__it_{k}"
        body_name = f"vc__body_{k}"
        loc = node.lineno

        def parse(src):
            t = ast.parse(src).body
            for s in t:
                for x in ast.walk(s):
                    if hasattr(x, "lineno"):
                        x.lineno = x.end_lineno = loc
                        x.col_offset = x.end_col_offset = 0
            return t
        pre = parse(f"{it} = 0")
        pre[0].value = node.iter
        tn0 = [node.target.id] if isinstance(node.target, ast.Name) else [e.id for e in getattr(node.target, "elts", []) if isinstance(e, ast.Name)]
        tn = sorted(tnames)
        # the symbolic form
        args = ", ".join([*tn, *live])
        mk = parse(f"def {body_name}({args}):\n    pass\n    return ({', '.join(live)}{',' if live else ''})")
        import copy
        body = copy.deepcopy(node.body)
        body = [_Continue(live).visit(s) for s in body]
        mk[0].body[0:1] = body
        simple = _simple(node.target)
        if not simple:
            hazard = True
        tgt_src = ", ".join(tn0) if simple else "vc__t"
        env = "{" + ", ".join(f"{n!r}: {n}" for n in live) + "}"
        all_env = "{" + ", ".join(f"{n!r}: {n}" for n in live) + "}"
        symform = []
        if not hazard:
            symform += mk
        run = parse(f"vc__r_{k} = vc__rt.loop({it}, {(body_name if not hazard else 'None')}, {lid!r}, {self.modname!r}, {all_env}, {tn!r}, lambda {tgt_src}: ({', '.join(tn) if simple else 'vc__t'},))")
        symform += run
        for n in live:
            symform += parse(f"{n} = vc__r_{k}[{n!r}]")
        test = parse(f"if vc__rt.symbolic({it}):\n    pass\nelse:\n    pass")[0]
        test.body = symform
        new = ast.For(target=node.target, iter=parse(it)[0].value, body=node.body, orelse=node.orelse, lineno=loc, col_offset=0, end_lineno=loc, end_col_offset=0)
        test.orelse = [new]
        out = [*pre, test]
        for s in out:
            ast.fix_missing_locations(s)
        return out

    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async or not self.fn:
            return node
        g = node.generators[0]
        if not _simple(g.target):
            return node
        names = [g.target.id] if isinstance(g.target, ast.Name) else [e.id for e in g.target.elts]
        if g.ifs:
            return node
        lam = ast.parse("lambda x: 0").body[0].value
        lam.args.args = [ast.arg(arg=n) for n in names]
        import copy
        lam.body = copy.deepcopy(node.elt)
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)):
            return node
        call = ast.parse(f"vc__rt.comp(0, 0, {kind!r}, {len(names)})").body[0].value
        call.args[0] = g.iter
        call.args[1] = lam
        ast.copy_location(call, node)
        ast.fix_missing_locations(call)
        return call

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_DictComp(self, node):
        pair = ast.copy_location(ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node)
        gen = ast.copy_location(ast.GeneratorExp(elt=pair, generators=node.generators), node)
        r = self._comp(gen, "dict")
        return node if r is gen else r

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")


def _simple(t):
    return isinstance(t, ast.Name) or (isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts))


class _Continue(ast.NodeTransformer):
    def __init__(self, live):
        self.live = live

    def visit_For(self, node):
        return node

    visit_While = visit_For
    visit_FunctionDef = visit_For

    def visit_Continue(self, node):
        r = ast.parse(f"def f():\n    return ({', '.join(self.live)}{',' if self.live else ''})").body[0].body[0]
        return ast.copy_location(r, node)


def transform(tree, modname):
    tree = Transformer(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


# ----------------------------------------------------------------------------- run time
class AccArr:
    """an accumulator array during the arbitrary iteration: it can only be added to or written at an index"""
    __array_priority__ = 3000
    __array_ufunc__ = None

    def __init__(self, shape):
        self.shape = shape
        self.delta = None
        self.writes = []
        self.adds = []
        self.dtype = complex

    def _add(self, o, sign=1):
        if isinstance(o, AccArr):
            raise Unsupported("accumulator read inside the loop")
        if self.writes:
            raise Unsupported("mixed writes")
        o = o if sign > 0 else -o
        self.delta = o if self.delta is None else self.delta + o
        return self

    def __iadd__(self, o):
        return self._add(o)

    def __isub__(self, o):
        return self._add(o, -1)

    def __add__(self, o):
        r = AccArr(self.shape)
        r.delta = self.delta
        r.origin = getattr(self, "origin", self)
        return r._add(o)

    __radd__ = __add__

    def __sub__(self, o):
        r = AccArr(self.shape)
        r.delta = self.delta
        return r._add(o, -1)

    def __setitem__(self, key, v):
        if self.delta is not None:
            raise Unsupported("mixed writes")
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, slice) for k in key) or len(key) != len(self.shape):
            raise Unsupported("slice write to an accumulator")
        raw = tuple(Num.lift(k) for k in key)
        key = tuple(A.as_index(k) for k in key)
        if isinstance(v, AccCell):
            if v.acc is not self or v.inc is None or not all(x is y or A.eqi(x, y) for x, y in zip(key, v.key)):
                raise Unsupported("accumulator read inside the loop")
            self.adds.append((key, v.inc))
            return
        for k, n in zip(key, self.shape):
            if not bool(Num.lift(k) < Num.lift(n)):
                raise IndexError("index is out of bounds")
            if not bool(Num.lift(k) >= 0):
                raise Unsupported("negative index")
        val = Num.lift(v)
        if val is None:
            raise Unsupported("accumulator written")
        self.writes.append((raw, lambda idx: val if all(x is y or A.eqi(x, y) for x, y in zip(key, idx)) else None))

    def last_write(self, idx):
        """the value the iteration leaves at idx, or None if it does not write there"""
        for _, f in reversed(self.writes):
            v = f(idx)
            if v is not None:
                return v
        return None

    def __getattr__(self, n):
        raise Unsupported(f"accumulator read inside the loop ({n})")

    def __getitem__(self, k):
        return AccCell(self, k)


class AccCell:
    """M[i, j] during the iteration: may only be increased"""
    def __init__(self, acc, key, inc=None):
        self.acc, self.key, self.inc = acc, key if isinstance(key, tuple) else (key,), inc

    def __add__(self, o):
        o = Num.lift(o)
        if o is None:
            raise Unsupported("accumulator")
        return AccCell(self.acc, self.key, o if self.inc is None else self.inc + o)

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-Num.lift(o))

    def __getattr__(self, n):
        raise Unsupported("accumulator read inside the loop")


class AccNum:
    def __init__(self, d=None):
        self.d = d if d is not None else N.ZERO

    def __add__(self, o):
        o = Num.lift(o)
        if o is None:
            raise Unsupported("accumulator")
        return AccNum(self.d + o)

    __radd__ = __add__
    __iadd__ = __add__

    def __sub__(self, o):
        return AccNum(self.d - Num.lift(o))

    def __getattr__(self, n):
        raise Unsupported("accumulator read inside the loop")


class AccList:
    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)

    def __iadd__(self, o):
        self.items += list(o)
        return self

    def __getattr__(self, n):
        raise Unsupported("accumulator read inside the loop")


def acc_for(v):
    if isinstance(v, AccArr):
        return AccArr(v.shape)
    if isinstance(v, A.SArr) or hasattr(v, "shape") and hasattr(v, "dtype"):
        return AccArr(v.shape)
    if isinstance(v, (Num, int, float, complex)) and not isinstance(v, bool):
        return AccNum()
    if isinstance(v, list):
        return AccList()
    raise Unsupported(f"loop changes a {type(v).__name__}")


class RT:
    @staticmethod
    def symbolic(it):
        return getattr(it, "vc_symbolic", False)

    @staticmethod
    def comp(it, f, kind, nvars):
        g = f if nvars == 1 else (lambda t: f(*t))
        if getattr(it, "vc_symbolic", False):
            if isinstance(it, bt.SymProduct):
                it = it.as_list()
            h = it.fn
            if kind == "dict":
                return bt.SymMap(it.n, lambda i: g(h(i)), it.origin)
            return bt.SymSeq(it.n, lambda i: g(h(i)), "list").of(it.origin)
        if kind == "dict":
            return dict(g(x) for x in it)
        if kind == "list":
            return [g(x) for x in it]
        return (g(x) for x in it)

    @staticmethod
    def loop(it, body, lid, mod, env, tnames, bind):
        for (m, fn), inv in INVARIANTS.items():
            if mod.endswith(m) and lid.endswith(fn):
                return inv.run(it, body, env, tnames, bind)
        if body is None:
            raise Unsupported(f"loop {lid} leaves early on a symbolic range")
        return accumulate(it, body, env, bind, lid)


def accumulate(it, body, env, bind, lid):
    names = list(env)
    if isinstance(it, bt.SymProduct):
        seqs = it.seqs
    else:
        seqs = None

    def element(pos):
        if seqs is not None:
            return tuple(s.fn(p) if isinstance(s, bt.SymSeq) else s[p] for s, p in zip(seqs, pos))
        return it.fn(pos[0])

    lens = [bt.vc_len(s) for s in seqs] if seqs is not None else [it.n]

    def iterate(pos):
        accs = {n: acc_for(env[n]) for n in names}
        e = element(pos)
        args = bind(*e) if (isinstance(e, tuple) and bind.__code__.co_argcount > 1) else bind(e)
        out = body(*args, *[accs[n] for n in names])
        res = {}
        for n, v in zip(names, out):
            if isinstance(v, (AccArr, AccNum, AccList)):
                res[n] = v
            else:
                raise Unsupported(f"loop {lid} replaces {n}")
        return res

    r = pointwise(names, env, lens, iterate)
    if r is not None:
        return r
    result = {}
    for n in names:
        v = env[n]
        if isinstance(v, AccArr):
            raise Unsupported(f"nested accumulation in {lid}")
        if isinstance(v, (Num, int, float, complex)):
            raise Unsupported(f"scalar accumulator {n} in {lid}")
        if isinstance(v, list):
            raise Unsupported(f"list accumulator {n} in {lid}")
        base = A.to_sarr(v).fn

        def entry(*idx, n=n, base=base):
            # writes: the iteration that writes at idx must be unique; sums: one sum per loop variable
            def delta(*pos):
                a = iterate(pos)[n]
                if a.writes:
                    # read after write of the last write in the iteration
                    raise Unsupported("writes that are not one iteration per index")
                tot = N.ZERO
                for k, val in a.adds:
                    if all(A.eqi(x, y) for x, y in zip(k, idx)):
                        tot = tot + val
                if a.delta is None:
                    return tot
                if a.adds:
                    raise Unsupported("mixed accumulation")
                dv = a.delta
                if isinstance(dv, A.SArr):
                    return Num.lift(dv.fn(*idx))
                if hasattr(dv, "shape"):
                    return Num.lift(A.to_sarr(dv).fn(*idx))
                raise Unsupported("accumulator delta")
            return Num.lift(base(*idx)) + nested_sum(lens, delta)
        s = A.SArr(v.shape, entry)
        s.vc_loop = lid
        result[n] = s
        if isinstance(v, A.SArr):
            # in place accumulation is visible through every reference to the array
            v.fn = entry
            result[n] = v
    return result


UNKNOWN = object()


def pointwise(names, env, lens, iterate):
    """the write rule: every iteration writes only at indices that determine the iteration (index = loop variable + constant along
    some axis), so the cell is what the one iteration that owns it leaves there, or unchanged.  Checked on an arbitrary iteration,
    on every path.  None if the loop is not of this form."""
    if not names or any(not (hasattr(env[n], "shape")) for n in names):
        return None
    c = C.ctx()
    ks = [Num.var(c.fresh("it"), "int") for _ in lens]
    start = c.counter

    def outside(x):
        """no variable of this loop's iteration occurs in x"""
        return not any(a in N.a_args or "$" in a.name and int(a.name.rsplit("$", 1)[1]) > start or any(a is b for k in ks for b in k.atoms()) for a in x.atoms())

    def probe():
        for k, ln in zip(ks, lens):
            c.add(C.zreal(k) >= 0)
            c.add(C.zreal(k) < C.zreal(Num.lift(ln)))
        if c.check() == C.z3.unsat:
            raise C.PathEnd
        accs = iterate(ks)
        for n in names:
            a = accs[n]
            if a.delta is not None or a.adds:
                return None
        return {n: [tuple(x if x is UNKNOWN else (Num.lift(x), [c.norm(Num.lift(x) - k) for k in ks]) for x in key) for key, _ in accs[n].writes] for n in names}
    seen = C.sub_explore(probe)
    if any(s is None for s in seen):
        return None
    if not any(s[n] for s in seen for n in names):
        return dict(env)
    owner = {}
    for n in names:
        keys = [k for s in seen for k in s[n]]
        axes = {}
        for j, k in enumerate(ks):
            for ax in range(len(env[n].shape)):
                offs = [UNKNOWN if key[ax] is UNKNOWN else key[ax][1][j] for key in keys]
                if all(o is not UNKNOWN and outside(o) for o in offs) and all((o - offs[0]).is_zero() for o in offs):
                    axes[j] = (ax, offs[0] if offs else N.ZERO)
                    break
            else:
                return None
        template = []
        for ax in range(len(env[n].shape)):
            vals = [key[ax] if key[ax] is UNKNOWN else key[ax][0] for key in keys]
            fixed = vals and all(x is not UNKNOWN and outside(x) for x in vals) and all((x - vals[0]).is_zero() for x in vals)
            template.append(vals[0] if fixed else UNKNOWN)
        owner[n] = (axes, tuple(template), bool(keys))
    result = {}
    for n in names:
        axes, template, any_write = owner[n]
        v = env[n]

        def left(idx, n=n, axes=axes):
            pos = []
            for j, ln in enumerate(lens):
                ax, off = axes[j]
                p = Num.lift(idx[ax]) - off
                if not bool(p >= 0) or not bool(p < Num.lift(ln)):
                    return None
                pos.append(p)
            return iterate(pos)[n].last_write(idx)
        result[n] = v
        if not any_write:
            continue
        if isinstance(v, AccArr):
            v.writes.append((template, left))
            continue
        s = A.to_sarr(v)
        base = s.fn

        def entry(*idx, left=left, base=base):
            w = left(idx)
            return Num.lift(base(*idx)) if w is None else w
        if isinstance(v, A.SArr):
            v.fn, v.rows, v.cols = entry, None, None
        else:
            result[n] = A.SArr(v.shape, entry)
    return result


def nested_sum(lens, f, fixed=()):
    if len(fixed) == len(lens):
        return f(*fixed)
    return A.ssum(lens[len(fixed)], lambda k: nested_sum(lens, f, (*fixed, k)))


def itertools_module():
    m = types.ModuleType("itertools")
    for n in dir(_it):
        setattr(m, n, getattr(_it, n))

    def product(*seqs, repeat=1):
        seqs = list(seqs) * repeat
        if any(getattr(s, "vc_symbolic", False) for s in seqs):
            return bt.SymProduct(seqs)
        return _it.product(*seqs)
    m.product = product
    return m


class _Math(types.ModuleType):
    def __getattr__(self, n):
        if n == "pi":
            return N.PI
        if n == "e":
            return Num({(N.EXP_MONO, ()): N.F1})
        if n.startswith("__"):
            raise AttributeError(n)
        from .symnp import Missing
        return Missing("math." + n)


def _mfloor(x):
    if isinstance(x, Num):
        v = x.as_fraction()
        if v is not None:
            import math
            return math.floor(v)
        return bt._floor(x)
    import math
    return math.floor(x)


def math_module():
    import math

    from . import symnp
    m = _Math("math")
    m.sqrt, m.cos, m.sin, m.exp, m.atan2 = symnp.sqrt, symnp.cos, symnp.sin, symnp.exp, symnp.arctan2
    m.acos, m.asin, m.floor = symnp.arccos, symnp.arcsin, _mfloor
    m.prod, m.inf, m.gcd = symnp.prod, math.inf, math.gcd
    return m
