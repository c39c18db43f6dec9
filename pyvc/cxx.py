"""Executes the C++ sources of the repository on symbolic values.

The functions are taken from clang's typed syntax tree of src/python/bindings.cpp and include/dd/*.hpp, dumped anew on every run
(the implicit conversions, overload resolution and template instantiation are clang's).  Nothing is rewritten: every statement of
a function under contract is executed on the tree; a node this interpreter has no rule for leaves the obligation open.
What it assumes: floating point is exact real arithmetic (literals for pi and 1/sqrt(n) stand for the exact constants), and the
semantics of the C++ standard library and of pybind11's conversions as written below.  `assert` is compiled out, as in the build.
"""
from __future__ import annotations

import gc
import json
import math
import os
import re
import subprocess
import tempfile

from . import core as C
from . import loader
from . import num as N
from .num import Num, Unsupported

VENV = "/opt/venv/bin/python"


class CxxError(Exception):
    """a C++ exception leaving the function"""


class Nd:
    __slots__ = ("kind", "id", "t", "name", "op", "post", "cast", "value", "ref", "refname", "refkind", "b", "e", "inner", "prev", "mangled", "member", "arrow", "elidable", "haselse", "hasinit", "hasvar", "vc", "lib")

    def __repr__(self):
        return f"<{self.kind} {self.name or ''} {self.t}>"


class ProgramText:
    def __init__(self):
        self.by_id, self.funcs, self.records, self.error = {}, {}, {}, None
        self.files = {}


PROG: ProgramText | None = None


def _off(loc):
    if not loc:
        return None
    if "expansionLoc" in loc:
        loc = loc["expansionLoc"]
    return (loc.get("offset"), loc.get("tokLen", 0))


def _node(x, prog, parent=None):
    n = Nd()
    n.kind = x.get("kind")
    n.id = x.get("id")
    ty = x.get("type") or {}
    n.t = ty.get("desugaredQualType") or ty.get("qualType") or ""
    n.name = x.get("name")
    n.op = x.get("opcode")
    n.post = x.get("isPostfix")
    n.cast = x.get("castKind")
    n.value = x.get("value")
    rd = x.get("referencedDecl") or {}
    n.ref, n.refname, n.refkind = rd.get("id"), rd.get("name"), rd.get("kind")
    n.member = x.get("referencedMemberDecl")
    n.arrow = x.get("isArrow")
    n.prev = x.get("previousDecl")
    n.mangled = x.get("mangledName")
    n.haselse = x.get("hasElse")
    n.hasinit = x.get("hasInit")
    n.hasvar = x.get("hasVar")
    n.elidable = x.get("elidable")
    n.vc = x.get("valueCategory")
    n.lib = x.get("field") or (x.get("init") if isinstance(x.get("init"), str) else None)
    r = x.get("range") or {}
    n.b, n.e = _off(r.get("begin")), _off(r.get("end"))
    n.inner = [_node(c, prog, n) for c in x.get("inner", ())]
    if n.kind == "SubstNonTypeTemplateParmExpr":
        n.inner = [c for c in n.inner if c.kind != "NonTypeTemplateParmDecl"]
    if "array_filler" in x:
        n.lib = "array_filler"
    if n.id:
        prog.by_id[n.id] = n
    return n


def load():
    """dump and index the syntax tree (once per process tree)"""
    global PROG
    if PROG is not None:
        return PROG
    prog = ProgramText()
    PROG = prog
    repo = loader.REPO
    try:
        with tempfile.TemporaryDirectory() as tmp:
            src = os.path.join(repo, "src", "python", "bindings.cpp")
            text = open(src).read()
            heads = []
            for m in re.finditer(r"^#include\s+([<\"].*[>\"])", text, re.M):
                h = m.group(1)
                heads.append("#include " + (f'"{repo}/include/{h[1:-1]}"' if h.startswith('"') else h))
            w = os.path.join(tmp, "w.cpp")
            with open(w, "w") as f:
                f.write("\n".join(heads) + f'\nnamespace xdd {{\n#include "{src}"\n}}\n')
            inc = subprocess.run([VENV, "-c", "import sysconfig,pybind11;print(sysconfig.get_path('include'));print(pybind11.get_include())"],
                                 capture_output=True, text=True, check=True).stdout.split()
            cmd = ["clang++", "-std=c++17", "-DNDEBUG", f"-I{repo}/include", *[f"-I{i}" for i in inc], "-I/opt/mqt-core/install/include/mqt-core",
                   "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=dd::", "-fsyntax-only", w]
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=tmp)
            if r.returncode != 0:
                raise RuntimeError("clang: " + r.stderr[-800:])
        s, i, dec = r.stdout, 0, json.JSONDecoder()
        n = len(s)
        while True:
            while i < n and s[i].isspace():
                i += 1
            if i >= n:
                break
            o, i = dec.raw_decode(s, i)
            if o.get("kind") in ("FunctionDecl", "VarDecl", "CXXRecordDecl", "CXXMethodDecl", "CXXConstructorDecl", "ClassTemplateDecl", "FunctionTemplateDecl", "NamespaceDecl"):
                _index(_node(o, prog), prog)
        prog.paths = [src] + [os.path.join(repo, "include", "dd", f) for f in sorted(os.listdir(os.path.join(repo, "include", "dd")))]
        prog.texts = [open(p).read().encode() for p in prog.paths]
        gc.collect()
        gc.freeze()
    except Exception as e:  # noqa: BLE001
        prog.error = f"{type(e).__name__}: {e}"
    return prog


def _index(n, prog):
    if n.kind in ("FunctionDecl", "CXXMethodDecl") and any(c.kind == "CompoundStmt" for c in n.inner):
        prog.funcs.setdefault(n.name, []).append(n)
    if n.kind == "CXXRecordDecl" and n.inner:
        prog.records.setdefault(n.name, n)
    for c in n.inner:
        if c.kind in ("FunctionDecl", "CXXMethodDecl", "CXXRecordDecl", "FunctionTemplateDecl", "ClassTemplateDecl", "ClassTemplateSpecializationDecl", "VarDecl", "NamespaceDecl", "CXXConstructorDecl"):
            _index(c, prog)


def available():
    p = load()
    if p.error:
        raise Unsupported("C++ syntax tree: " + p.error)
    return p


# ---------------------------------------------------------------- values
class Cell:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class Ref:
    __slots__ = ("get", "set")

    def __init__(self, g, s):
        self.get, self.set = g, s


class Struct:
    def __init__(self, tname, fields):
        self.tname, self.f = tname, fields

    def __repr__(self):
        return f"{self.tname}{self.f}"


class Tup:
    """std::tuple / std::pair"""
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"Tup{self.items}"


class Variant:
    def __init__(self, v):
        self.v = v


class CSet:
    """std::set of structs, ordered by the fields"""
    def __init__(self, items=()):
        self.items = []
        for x in items:
            self.add(x)

    def add(self, x):
        k = _key(x)
        for i, y in enumerate(self.items):
            ky = _key(y)
            if ky == k:
                return
            if k < ky:
                self.items.insert(i, x)
                return
        self.items.append(x)


class CMap:
    def __init__(self):
        self.d = {}

    def entries(self):
        return [Tup([k, v]) for kk, (k, v) in sorted(self.d.items())]


def _key(x):
    if isinstance(x, Struct):
        return tuple(_key(v) for v in x.f.values())
    if isinstance(x, Variant):
        return (0, x.v) if isinstance(x.v, str) else (1, tuple(x.v))
    if isinstance(x, list):
        return tuple(_key(v) for v in x)
    return x


class Iter:
    def __init__(self, items, pos=0, owner=None):
        self.items, self.pos, self.owner = items, pos, owner

    def at_end(self):
        return self.pos >= len(self.items)


class Closure:
    """a lambda: its call operator with the variables it captured"""
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class BackInserter:
    def __init__(self, items):
        self.items = items


class PyObj:
    """py::object, py::handle, py::list, an accessor: a Python value; NULL is the default-constructed object"""
    NULL = object()

    def __init__(self, v):
        self.v = v


class Opaque:
    """a value of the C++ library that is only passed around (random engine, stream)"""
    def __init__(self, t):
        self.t = t


class Dist:
    def __init__(self, weights):
        self.weights = weights


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


def copy(v):
    if isinstance(v, list):
        return [copy(x) for x in v]
    if isinstance(v, Struct):
        return Struct(v.tname, {k: copy(x) for k, x in v.f.items()})
    if isinstance(v, Tup):
        return Tup([copy(x) for x in v.items])
    if isinstance(v, Variant):
        return Variant(copy(v.v))
    if isinstance(v, CSet):
        s = CSet()
        s.items = [copy(x) for x in v.items]
        return s
    if isinstance(v, CMap):
        m = CMap()
        m.d = {k: (copy(a), copy(b)) for k, (a, b) in v.d.items()}
        return m
    if isinstance(v, Iter):
        return Iter(v.items, v.pos, v.owner)
    return v.cxx_copy() if hasattr(v, "cxx_copy") else v


WIDTH = {"bool": None, "char": -8, "signed char": -8, "unsigned char": 8, "short": -16, "unsigned short": 16, "int": -32, "unsigned int": 32,
         "long": -64, "unsigned long": 64, "long long": -64, "unsigned long long": 64}
ALIAS = {"size_t": "unsigned long", "std::size_t": "unsigned long", "size_type": "unsigned long", "value_type": None}
WRAP = {"ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr", "CXXStdInitializerListExpr",
        "SubstNonTypeTemplateParmExpr", "FullExpr"}


def base(t):
    t = t.strip()
    while True:
        u = re.sub(r"^(const|volatile)\s+", "", t)
        u = re.sub(r"\s*(const|&&|&)$", "", u).strip()
        if u == t:
            break
        t = u
    return ALIAS.get(t) or t


def intval(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Num):
        k = v.as_int()
        if k is not None:
            return k
    raise Unsupported(f"integer operation on {type(v).__name__}")


def wrap_int(v, t):
    t = base(t)
    w = WIDTH.get(t)
    if t == "bool":
        return bool(v)
    if w is None:
        return v
    v = intval(v)
    if w > 0:
        return v & ((1 << w) - 1)
    w = -w
    m = v & ((1 << w) - 1)
    return m - (1 << w) if m >> (w - 1) else m


def is_float(t):
    return base(t) in ("double", "float", "long double", "dd::fp", "fp")


def exact(x):
    """the number a floating literal stands for"""
    if abs(x) > 1e-9:
        for k, m in ((1, 1), (1, 2), (2, 1), (1, 4)):
            if abs(abs(x) - math.pi * k / m) < 1e-12:
                return (1 if x > 0 else -1) * N.PI * k / m
        for n in (2, 3, 5, 6, 7):
            if abs(abs(x) - 1 / math.sqrt(n)) < 1e-12:
                r = 1 / N.num_sqrt(Num.lift(n))
                return r if x > 0 else -r
    return Num.lift(float(x)) if x != int(x) or abs(x) > 1e15 else Num.lift(int(x))


def num(v):
    return v if isinstance(v, Num) else Num.lift(v)


def truth(c):
    if isinstance(c, (bool, int)):
        return bool(c)
    return bool(c)


class Machine:
    """one run: `hooks` maps function names to contracts (machine, this, args, node) -> value; `draws` answers the random draws"""
    def __init__(self, hooks=None, draws=None, globals_=None):
        self.p = available()
        self.hooks = hooks or {}
        self.draw = draws
        self.drawn = []
        self.globals = {}
        self.env = [{}]
        self.this = [None]
        self.running = [None]
        self.throwing = []
        self.steps = 0

    # ------------------------------------------------------------ functions
    def fn(self, name, where=None):
        fs = [f for f in self.p.funcs.get(name, []) if where is None or where in f.t]
        if len(fs) != 1:
            raise Unsupported(f"C++ function {name}: {len(fs)} definitions")
        return fs[0]

    def call(self, name, *args):
        return self.invoke(self.fn(name), list(args), None)

    def params(self, f):
        return [c for c in f.inner if c.kind == "ParmVarDecl"]

    def definition(self, ident):
        n = self.p.by_id.get(ident)
        if n is None:
            return None
        if any(c.kind == "CompoundStmt" for c in n.inner):
            return n
        for m in self.p.funcs.get(n.name, []):
            if m.prev == ident or (m.mangled and m.mangled == n.mangled):
                return m
        return None

    def invoke(self, f, args, this, refs=None):
        if len(self.env) > 200:
            raise Unsupported("C++ recursion")
        ps = self.params(f)
        env = {}
        if isinstance(this, Closure):
            env.update(this.env)
            this = this.this
        for i, p in enumerate(ps):
            if i < len(args):
                a = args[i]
                if isinstance(a, (Cell, Ref)):
                    env[p.id] = a
                else:
                    env[p.id] = Cell(a if p.t.rstrip().endswith("&") else copy(a))
            else:
                if not p.inner:
                    raise Unsupported(f"missing argument of {f.name}")
                env[p.id] = Cell(self.ev(p.inner[-1]))
        body = [c for c in f.inner if c.kind == "CompoundStmt"][0]
        self.env.append(env)
        self.this.append(this)
        self.running.append(f)
        try:
            self.stmt(body)
        except Return as r:
            return r.v
        finally:
            self.env.pop()
            self.this.pop()
            self.running.pop()
        return None

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        self.steps += 1
        if self.steps > 3_000_000:
            raise Unsupported("C++ execution too long")
        f = getattr(self, "s_" + n.kind, None) if n.kind else None
        if n.kind is None:
            return
        if f is not None:
            f(n)
        else:
            self.ev(n)

    def s_CompoundStmt(self, n):
        for c in n.inner:
            self.stmt(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for c in n.inner:
            if c.kind in ("VarDecl", "DecompositionDecl"):
                self.declare(c)
            elif c.kind in ("StaticAssertDecl", "TypeAliasDecl", "TypedefDecl", "UsingDecl"):
                pass
            else:
                raise Unsupported(f"C++ declaration {c.kind}")

    def declare(self, d):
        init = [c for c in d.inner if c.kind not in ("BindingDecl", "FullComment") and not (c.kind or "").endswith("Attr")]
        isref = d.t.rstrip().endswith("&")
        if d.kind == "DecompositionDecl":
            v = self.ev(init[0])
            if not isref:
                v = copy(v)
            items = v.items if isinstance(v, Tup) else list(v.f.values()) if isinstance(v, Struct) else v if isinstance(v, list) else None
            binds = [c for c in d.inner if c.kind == "BindingDecl"]
            if items is None or len(items) != len(binds):
                raise Unsupported("structured binding")
            for k, b in enumerate(binds):
                def g(k=k):
                    return v.items[k] if isinstance(v, Tup) else v[k] if isinstance(v, list) else v.f[list(v.f)[k]]

                def s(x, k=k):
                    if isinstance(v, Tup):
                        v.items[k] = x
                    elif isinstance(v, list):
                        v[k] = x
                    else:
                        v.f[list(v.f)[k]] = x
                cell = Ref(g, s)
                self.env[-1][b.id] = cell
                for h in b.inner:
                    if h.kind == "VarDecl":
                        self.env[-1][h.id] = cell
            return
        if not init:
            self.env[-1][d.id] = Cell(self.default(d.t))
            return
        if isref:
            self.env[-1][d.id] = self.bind(init[0])
            return
        v = self.ev(init[0])
        self.env[-1][d.id] = Cell(self.coerce(copy(v), d.t))

    def coerce(self, v, t):
        if base(t).startswith("std::variant") and not isinstance(v, Variant):
            return Variant(v)
        return v

    def bind(self, n):
        """the cell a reference is bound to"""
        m = n
        while m.kind in WRAP or (m.kind == "ImplicitCastExpr" and m.cast in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase")):
            m = m.inner[0]
        if m.kind == "DeclRefExpr" and m.refkind in ("VarDecl", "ParmVarDecl", "BindingDecl"):
            c = self.lookup(m)
            if c is not None:
                return c
        if m.kind == "MemberExpr" or (m.kind == "CXXMemberCallExpr" and m.inner[0].name in ("at", "back", "front")) or m.kind == "ArraySubscriptExpr" or \
                (m.kind == "CXXOperatorCallExpr" and self.opname(m) == "operator[]"):
            try:
                return self.lv(m)
            except Unsupported:
                pass
        v = self.ev(n)
        return Cell(v)

    def s_IfStmt(self, n):
        inner = list(n.inner)
        if n.hasinit or n.hasvar:
            self.stmt(inner.pop(0))
        cond = inner.pop(0)
        if truth(self.ev(cond)):
            self.stmt(inner[0])
        elif len(inner) > 1:
            self.stmt(inner[1])

    def s_ForStmt(self, n):
        init, var, cond, inc, body = n.inner
        if init.kind:
            self.stmt(init)
        while (not cond.kind) or truth(self.ev(cond)):
            try:
                self.stmt(body)
            except Break:
                break
            except Continue:
                pass
            if inc.kind:
                self.ev(inc)

    def s_WhileStmt(self, n):
        cond, body = n.inner[-2], n.inner[-1]
        while truth(self.ev(cond)):
            try:
                self.stmt(body)
            except Break:
                break
            except Continue:
                pass

    def s_DoStmt(self, n):
        body, cond = n.inner
        while True:
            try:
                self.stmt(body)
            except Break:
                break
            except Continue:
                pass
            if not truth(self.ev(cond)):
                break

    def s_CXXForRangeStmt(self, n):
        rng = next(c for c in n.inner if c.kind == "DeclStmt" and c.inner[0].name and c.inner[0].name.startswith("__range"))
        var = [c for c in n.inner if c.kind == "DeclStmt"][-1].inner[0]
        body = n.inner[-1]
        c = self.ev([x for x in rng.inner[0].inner][0])
        items = self.iterate(c)
        isref = var.t.rstrip().endswith("&")
        for k, it in enumerate(items):
            if var.kind == "DecompositionDecl":
                v = it if isref else copy(it)
                binds = [b for b in var.inner if b.kind == "BindingDecl"]
                parts = v.items if isinstance(v, Tup) else list(v.f.values()) if isinstance(v, Struct) else None
                if parts is None or len(parts) != len(binds):
                    raise Unsupported("structured binding in a range loop")
                for b, p in zip(binds, parts):
                    cell = Cell(p)
                    self.env[-1][b.id] = cell
                    for h in b.inner:
                        if h.kind == "VarDecl":
                            self.env[-1][h.id] = cell
            elif isref and isinstance(c, list):
                def g(c=c, k=k):
                    return c[k]

                def s(x, c=c, k=k):
                    c[k] = x
                self.env[-1][var.id] = Ref(g, s)
            else:
                self.env[-1][var.id] = Cell(it if isref else self.coerce(copy(it), var.t))
            try:
                self.stmt(body)
            except Break:
                break
            except Continue:
                pass

    def iterate(self, c):
        if isinstance(c, list):
            return list(c)
        if isinstance(c, CSet):
            return list(c.items)
        if isinstance(c, CMap):
            return c.entries()
        if isinstance(c, PyObj):
            if isinstance(c.v, dict):
                return [Tup([PyObj(k), PyObj(v)]) for k, v in c.v.items()]
            return [PyObj(x) for x in c.v]
        raise Unsupported(f"C++ range loop over {type(c).__name__}")

    def s_ReturnStmt(self, n):
        raise Return(self.ev(n.inner[0]) if n.inner else None)

    def s_BreakStmt(self, n):
        raise Break

    def s_ContinueStmt(self, n):
        raise Continue

    def s_CXXTryStmt(self, n):
        try:
            self.stmt(n.inner[0])
        except CxxError as e:
            self.throwing.append(e)
            try:
                self.stmt(n.inner[1].inner[-1])
            finally:
                self.throwing.pop()

    def s_SwitchStmt(self, n):
        v = intval(self.ev(n.inner[-2]))
        flat = []

        def walk(c):
            if c.kind in ("CaseStmt", "DefaultStmt"):
                lab = None if c.kind == "DefaultStmt" else intval(self.ev(c.inner[0]))
                flat.append(("lab", lab))
                walk(c.inner[-1])
            else:
                flat.append(("st", c))
        for c in n.inner[-1].inner:
            walk(c)
        start = next((i for i, (k, x) in enumerate(flat) if k == "lab" and x == v and x is not None), None)
        if start is None:
            start = next((i for i, (k, x) in enumerate(flat) if k == "lab" and x is None), None)
        if start is None:
            return
        try:
            for k, x in flat[start:]:
                if k == "st":
                    self.stmt(x)
        except Break:
            pass

    # ------------------------------------------------------------ variables
    def lookup(self, n):
        for e in (self.env[-1], self.globals):
            if n.ref in e:
                return e[n.ref]
        d = self.p.by_id.get(n.ref)
        if d is not None and d.kind == "VarDecl":
            init = [c for c in d.inner if c.kind and c.kind != "FullComment" and not c.kind.endswith("Attr")]
            hk = self.hooks.get("global:" + (d.name or "") + "|" + base(d.t)) or self.hooks.get("global:" + (d.name or ""))
            if hk:
                v = hk(self, d)
            elif init:
                self.env.append({})
                try:
                    v = self.coerce(copy(self.ev(init[0])), d.t)
                finally:
                    self.env.pop()
            else:
                return None
            self.globals[n.ref] = Cell(v)
            return self.globals[n.ref]
        return None

    def default(self, t):
        b = base(t)
        h = self.hooks.get("default")
        if h is not None:
            v = h(self, b)
            if v is not None:
                return v
        if b in WIDTH or is_float(b):
            return 0
        if b.startswith(("std::vector<", "vector<", "Circuit", "CVec", "std::tuple_element")):
            if b.startswith("std::tuple_element"):
                raise Unsupported("default of " + b)
            return []
        if b.startswith(("std::basic_string", "std::string", "basic_string")):
            return ""
        if b.startswith(("std::map<", "map<")):
            return CMap()
        if b.startswith(("std::set<", "set<")):
            return CSet()
        if b.startswith(("std::tuple<", "tuple<", "std::pair<")):
            return Tup([self.default(x) for x in targs(b)])
        if b.startswith(("std::variant<", "variant<")):
            return Variant(self.default(targs(b)[0]))
        if b.startswith("std::array<"):
            a, k = targs(b)
            return [self.default(a) for _ in range(int(k))]
        if b.split("::")[-1] in ("list",) and "pybind11" in b or b == "py::list" or b == "list":
            return PyObj([])
        if b.split("::")[-1] in ("object",) and ("pybind11" in b or "py::" in b) or b == "object":
            return PyObj(PyObj.NULL)
        if b.split("::")[-1] in ("random_device",):
            return Opaque(b)
        rec = self.record(b)
        if rec is not None:
            return Struct(b, {f.name: (self.ev(f.inner[0]) if [c for c in f.inner if c.kind != "FullComment"] else self.default(f.t)) for f in rec})
        raise Unsupported("C++ default value of " + t)

    def record(self, b):
        r = self.p.records.get(b.split("::")[-1])
        if r is None:
            return None
        return [c for c in r.inner if c.kind == "FieldDecl"]

    def lv(self, n):
        k = n.kind
        if k in WRAP or (k == "ImplicitCastExpr" and n.cast in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase")):
            return self.lv(n.inner[0])
        if k == "DeclRefExpr":
            c = self.lookup(n)
            if c is None:
                raise Unsupported(f"C++ variable {n.refname}")
            return c
        if k == "MemberExpr":
            o = self.ev(n.inner[0])
            return self.field(o, n.name)
        if k == "CXXMemberCallExpr":
            m = n.inner[0]
            if m.name in ("at", "back", "front"):
                o = self.ev(m.inner[0])
                return self.element(o, self.ev(n.inner[1]) if m.name == "at" else (-1 if m.name == "back" else 0), m.name == "at")
        if k == "CXXOperatorCallExpr":
            name = self.opname(n)
            if name == "operator[]":
                o = self.ev(n.inner[1])
                return self.element(o, self.ev(n.inner[2]), False, create=n.t)
            if name in ("operator*", "operator->"):
                return Cell(self.ev(n))
        if k == "ArraySubscriptExpr":
            o = self.ev(n.inner[0])
            return self.element(o, self.ev(n.inner[1]), False)
        if k == "CallExpr" or k == "UnaryOperator":
            v = self.ev(n)
            if isinstance(v, (Struct, list, Tup, CMap, CSet)):
                return Cell(v)
        raise Unsupported(f"C++ assignment to {k}")

    def field(self, o, name):
        if isinstance(o, Struct):
            if name not in o.f:
                raise Unsupported(f"field {name}")

            def s(v):
                o.f[name] = v
            return Ref(lambda: o.f[name], s)
        if isinstance(o, Tup) and name in ("first", "second"):
            i = 0 if name == "first" else 1

            def s2(v):
                o.items[i] = v
            return Ref(lambda: o.items[i], s2)
        if hasattr(o, "cxx_field"):
            return o.cxx_field(self, name)
        raise Unsupported(f"C++ field {name} of {type(o).__name__}")

    def element(self, o, i, checked, create=None):
        if isinstance(o, list):
            i = intval(i)
            if not (0 <= i < len(o)) and not (i == -1 and not checked and o):
                if checked:
                    raise CxxError(f"std::out_of_range: index {i} of {len(o)}")
                raise CxxError(f"index {i} outside a container of {len(o)} elements")

            def s(v):
                o[i] = v
            return Ref(lambda: o[i], s)
        if isinstance(o, CMap):
            kk = _key(i)
            if kk not in o.d:
                if checked:
                    raise CxxError("std::out_of_range: map::at")
                o.d[kk] = (copy(i), self.default(create))

            def s3(v):
                o.d[kk] = (o.d[kk][0], v)
            return Ref(lambda: o.d[kk][1], s3)
        if hasattr(o, "cxx_element"):
            return o.cxx_element(self, i, checked)
        if isinstance(o, PyObj):
            v = pyval(o)
            return Cell(PyObj(v[int(i) if isinstance(i, int) else i]))
        raise Unsupported(f"C++ indexing of {type(o).__name__}")

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        self.steps += 1
        k = n.kind
        if k in WRAP:
            return self.ev(n.inner[0])
        f = getattr(self, "e_" + k, None)
        if f is None:
            raise Unsupported(f"C++ node {k}")
        return f(n)

    def e_IntegerLiteral(self, n):
        return int(n.value)

    def e_CharacterLiteral(self, n):
        return int(n.value)

    def e_FloatingLiteral(self, n):
        return exact(float(n.value))

    def e_CXXBoolLiteralExpr(self, n):
        return n.value in (True, "true")

    def e_StringLiteral(self, n):
        return json.loads(n.value)

    def e_CXXNullPtrLiteralExpr(self, n):
        return None

    def e_CXXThisExpr(self, n):
        return self.this[-1]

    def e_DeclRefExpr(self, n):
        if n.refkind in ("FunctionDecl", "CXXMethodDecl"):
            return ("fn", n)
        if n.refkind == "EnumConstantDecl":
            return ("enum", n.refname)
        c = self.lookup(n)
        if c is not None:
            return c.get()
        if n.refname in ("cout", "cerr"):
            return Opaque("stream")
        if n.refname in ("value", "is_same_v"):
            return self.same_type(n)
        raise Unsupported(f"C++ name {n.refname}")

    def same_type(self, n):
        """std::is_same of template parameters of the running instance: its signature is aligned with that of the template"""
        f = self.running[-1]
        mt = next((mm for mm in (re.match(r"^(?:std::)?is_same(?:_v)?\s*<\s*(\w+)\s*,\s*(\w+)\s*>(?:::value)?$", s.strip()) for s in self.text(n)) if mm), None)
        if mt is None or f is None:
            raise Unsupported("C++ type trait")
        table = {}
        inst = re.findall(r"Edge<([\w:]+)>", f.t)
        for g in self.p.funcs.get(f.name, []):
            if g is not f and not g.mangled:
                pat = re.findall(r"Edge<([\w:]+)>", g.t)
                if len(pat) == len(inst):
                    table.update(zip(pat, inst))
        a, b = (table.get(x, x).split("::")[-1] for x in mt.groups())
        if not all(x in ("mNode", "vNode") for x in (a, b)):
            raise Unsupported(f"C++ types {a}, {b}")
        return a == b

    def e_MemberExpr(self, n):
        if not n.inner:
            raise Unsupported(f"C++ member {n.name}")
        d = self.p.by_id.get(n.member)
        if d is not None and d.kind == "VarDecl":
            m = Nd()
            m.ref, m.refname, m.refkind = n.member, n.name, "VarDecl"
            c = self.lookup(m)
            if c is not None:
                return c.get()
        return self.field(self.ev(n.inner[0]), n.name).get()

    def e_ImplicitCastExpr(self, n):
        c = n.cast
        if c == "FunctionToPointerDecay":
            return self.ev(n.inner[0])
        v = self.ev(n.inner[0])
        if c in ("NoOp", "LValueToRValue", "DerivedToBase", "UncheckedDerivedToBase", "ArrayToPointerDecay", "ConstructorConversion",
                 "UserDefinedConversion", "FloatingCast", "NullToPointer", "ToVoid", "BitCast", "Dependent"):
            return v
        if c == "IntegralCast":
            return wrap_int(v, n.t) if isinstance(v, (int, Num)) else v
        if c == "IntegralToFloating":
            return num(intval(v))
        if c == "IntegralToBoolean":
            return intval(v) != 0
        if c == "PointerToBoolean":
            return v is not None
        if c == "FloatingToBoolean":
            return truth(num(v) != 0)
        if c == "FloatingToIntegral":
            x = num(v).as_fraction()
            if x is None:
                raise Unsupported("C++ rounding of a symbolic value")
            return wrap_int(math.trunc(x), n.t)
        raise Unsupported(f"C++ cast {c}")

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXFunctionalCastExpr(self, n):
        return self.e_ImplicitCastExpr(n)

    def e_BinaryOperator(self, n):
        op = n.op
        if op == "=":
            r = self.lv(n.inner[0])
            v = self.ev(n.inner[1])
            r.set(copy(v))
            return v
        if op == "&&":
            return truth(self.ev(n.inner[0])) and truth(self.ev(n.inner[1]))
        if op == "||":
            return truth(self.ev(n.inner[0])) or truth(self.ev(n.inner[1]))
        if op == ",":
            self.ev(n.inner[0])
            return self.ev(n.inner[1])
        a, b = self.ev(n.inner[0]), self.ev(n.inner[1])
        return self.arith(op, a, b, n.t)

    def e_CompoundAssignOperator(self, n):
        r = self.lv(n.inner[0])
        v = self.arith(n.op[:-1], r.get(), self.ev(n.inner[1]), n.t)
        r.set(v)
        return v

    def arith(self, op, a, b, t):
        if op in ("==", "!="):
            if a is None or b is None or not isinstance(a, (int, Num)) or not isinstance(b, (int, Num)):
                if hasattr(a, "cxx_pointer") or hasattr(b, "cxx_pointer"):
                    return (a is b) == (op == "==")
                if isinstance(a, (str, tuple, type(None))) or isinstance(b, (str, tuple, type(None))):
                    return (a is b or a == b) == (op == "==")
                raise Unsupported(f"C++ comparison of {type(a).__name__}")
            e = (a == b) if isinstance(a, int) and isinstance(b, int) else None
            if e is None:
                d = num(a) - num(b)
                e = True if d.is_const_zero() else truth(num(a) == num(b))
            return e == (op == "==")
        if op in ("<", ">", "<=", ">="):
            if isinstance(a, int) and isinstance(b, int):
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
            a, b = num(a), num(b)
            return truth({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
        if is_float(t):
            a, b = num(a), num(b)
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return a / b
            raise Unsupported(f"C++ operator {op} on floats")
        a, b = intval(a), intval(b)
        if op == "+":
            v = a + b
        elif op == "-":
            v = a - b
        elif op == "*":
            v = a * b
        elif op in ("/", "%"):
            if b == 0:
                raise CxxError("division by zero")
            q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
            v = q if op == "/" else a - q * b
        elif op == "<<":
            v = a << b
        elif op == ">>":
            v = a >> b
        elif op == "&":
            v = a & b
        elif op == "|":
            v = a | b
        elif op == "^":
            v = a ^ b
        else:
            raise Unsupported(f"C++ operator {op}")
        r = wrap_int(v, t)
        if r != v and (WIDTH.get(base(t)) or 0) < 0:
            raise CxxError("signed overflow")
        return r

    def e_UnaryOperator(self, n):
        op = n.op
        if op in ("++", "--"):
            r = self.lv(n.inner[0])
            old = r.get()
            new = wrap_int(intval(old) + (1 if op == "++" else -1), n.t)
            r.set(new)
            return old if n.post else new
        v = self.ev(n.inner[0])
        if op == "!":
            return not truth(v)
        if op == "-":
            return -num(v) if is_float(n.t) else wrap_int(-intval(v), n.t)
        if op == "+":
            return v
        if op in ("*", "&"):
            return v
        raise Unsupported(f"C++ unary {op}")

    def e_ConditionalOperator(self, n):
        return self.ev(n.inner[1]) if truth(self.ev(n.inner[0])) else self.ev(n.inner[2])

    def e_CXXThrowExpr(self, n):
        if not n.inner:
            if self.throwing:
                raise self.throwing[-1]
            raise Unsupported("rethrow")
        raise CxxError(base(n.inner[0].t))

    def e_CXXDefaultArgExpr(self, n):
        return ("default",)

    def e_ImplicitValueInitExpr(self, n):
        return self.default(n.t)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported("default member initialiser")

    def e_InitListExpr(self, n):
        b = base(n.t)
        h = self.hooks.get("init")
        if h is not None:
            v = h(self, b, n)
            if v is not NotImplemented:
                return v
        if b.startswith("std::array<"):
            a, k = targs(b)
            k = int(k)
            vals = self.ev(n.inner[0]) if n.inner else []
            if not isinstance(vals, list):
                vals = [vals]
            return vals + [self.default(a) for _ in range(k - len(vals))]
        if re.search(r"\[\d+\]$", b):
            k = int(re.search(r"\[(\d+)\]$", b).group(1))
            vals = [copy(self.ev(c)) for c in n.inner]
            el = b[: b.rindex("[")]
            return vals + [self.default(el) for _ in range(k - len(vals))]
        rec = self.record(b)
        if rec is not None:
            f = {}
            for i, fd in enumerate(rec):
                if i < len(n.inner) and n.inner[i].kind != "CXXDefaultInitExpr":
                    f[fd.name] = copy(self.ev(n.inner[i]))
                else:
                    ini = [c for c in fd.inner if c.kind != "FullComment"]
                    f[fd.name] = self.ev(ini[0]) if ini else self.default(fd.t)
            return Struct(b, f)
        if (b in WIDTH or is_float(b)) and len(n.inner) <= 1:
            return self.ev(n.inner[0]) if n.inner else 0
        raise Unsupported("C++ initialiser of " + b)

    def e_CXXConstructExpr(self, n):
        b = base(n.t)
        args = [c for c in n.inner if c.kind != "CXXDefaultArgExpr"]
        h = self.hooks.get("construct")
        if h is not None:
            v = h(self, b, args)
            if v is not NotImplemented:
                return v
        if b.endswith(("invalid_argument", "runtime_error", "out_of_range", "logic_error", "overflow_error")):
            return Opaque(b)
        if "discrete_distribution" in b:
            return Dist(self.ev(args[0]))
        if "mersenne_twister" in b or b.endswith(("mt19937_64", "mt19937", "random_device")):
            return Opaque(b)
        if not args:
            return self.default(n.t)
        if "normal_iterator" in b or "_Rb_tree" in b or b.endswith("iterator"):
            return copy(self.ev(args[0]))
        if b.startswith(("std::vector<", "vector<", "Circuit", "CVec")):
            vs = [self.ev(a) for a in args]
            if len(vs) == 1 and isinstance(vs[0], list):
                return copy(vs[0])
            if isinstance(vs[0], Iter):
                return [copy(x) for x in vs[0].items[vs[0].pos:vs[1].pos]]
            if isinstance(vs[0], int):
                el = targs(b)[0]
                return [copy(vs[1]) if len(vs) > 1 else self.default(el) for _ in range(vs[0])]
            raise Unsupported("C++ vector constructor")
        if b.startswith(("std::set<", "set<")):
            v = self.ev(args[0])
            if isinstance(v, CSet):
                return copy(v)
            if isinstance(v, list):
                return CSet([copy(x) for x in v])
            raise Unsupported("C++ set constructor")
        if b.startswith(("std::variant<", "variant<")):
            v = self.ev(args[0])
            return copy(v) if isinstance(v, Variant) else Variant(copy(v))
        if b.startswith(("std::tuple<", "tuple<", "std::pair<", "pair<")):
            vs = [self.ev(a) for a in args]
            if len(vs) == 1 and isinstance(vs[0], Tup):
                return copy(vs[0])
            return Tup([copy(v) for v in vs])
        if len(args) == 1:
            v = self.ev(args[0])
            if b.split("::")[-1] in ("list", "dict") and ("pybind11" in b or b in ("list", "dict")):
                want = {"list": list, "dict": dict}[b.split("::")[-1]]
                if isinstance(v, PyObj) and not isinstance(v.v, want):
                    raise CxxError("pybind11 conversion")
                return v
            if b.split("::")[-1] in ("float_", "int_"):
                return PyObj(v)
            if isinstance(v, (PyObj, str, Struct, Tup, list, CSet, CMap, Iter, Num, int)) or hasattr(v, "cxx_field"):
                return copy(v)
        raise Unsupported(f"C++ constructor of {b}")

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    # ------------------------------------------------------------ calls
    def text(self, n):
        """source text of a node that does not come from a macro"""
        if not n.b or not n.e or n.b[0] is None or n.e[0] is None:
            return ""
        out = []
        for t in self.p.texts:
            s = t[n.b[0]:n.e[0] + n.e[1]].decode("utf8", "replace")
            out.append(s)
        return out

    def template_args(self, n, name):
        for s in self.text(n):
            m = re.match(r"^(?:\w+::)*" + re.escape(name) + r"\s*<(.*)>$", s, re.S)
            if m:
                return m.group(1).strip()
        return None

    def callee(self, n):
        c = n.inner[0]
        while c.kind in WRAP or c.kind == "ImplicitCastExpr":
            c = c.inner[0]
        return c

    def opname(self, n):
        return self.callee(n).refname

    def e_CallExpr(self, n):
        c = self.callee(n)
        if c.kind != "DeclRefExpr":
            raise Unsupported(f"C++ call of {c.kind}")
        name, args = c.refname, n.inner[1:]
        if name in self.hooks:
            return self.hooks[name](self, None, [self.ev(a) for a in args if a.kind != "CXXDefaultArgExpr"], n)
        d = self.definition(c.ref)
        if d is not None:
            return self.invoke_nodes(d, args, None)
        b = getattr(self, "f_" + name, None)
        if b is None:
            raise Unsupported(f"C++ function {name}")
        return b(n, c, args)

    def invoke_nodes(self, d, args, this):
        ps = self.params(d)
        vals = []
        for i, a in enumerate(args):
            if a.kind == "CXXDefaultArgExpr":
                break
            if i < len(ps) and ps[i].t.rstrip().endswith("&"):
                vals.append(self.bind(a))
            else:
                vals.append(self.ev(a))
        return self.invoke(d, vals, this)

    def math1(self, f, args):
        return f(num(self.ev(args[0])))

    def f_cos(self, n, c, args):
        return self.math1(N.num_cos, args)

    def f_sin(self, n, c, args):
        return self.math1(N.num_sin, args)

    def f_sqrt(self, n, c, args):
        return self.math1(N.num_sqrt, args)

    def f_fabs(self, n, c, args):
        return abs(num(self.ev(args[0])))

    f_abs = f_fabs

    def f_signbit(self, n, c, args):
        return truth(num(self.ev(args[0])) < 0)      # exact numbers have no negative zero

    def f_nearbyint(self, n, c, args):
        x = num(self.ev(args[0])).as_fraction()
        if x is None:
            raise Unsupported("C++ rounding of a symbolic value")
        return Num.lift(round(x))                       # half to even, the default rounding mode

    f_rint = f_nearbyint

    def f_fmod(self, n, c, args):
        a, b = num(self.ev(args[0])).as_fraction(), num(self.ev(args[1])).as_fraction()
        if a is None or b is None or b == 0:
            raise Unsupported("fmod of symbolic values")
        q = math.trunc(a / b)
        return Num.lift(a - b * q)

    def f_pow(self, n, c, args):
        return num(self.ev(args[0])) ** num(self.ev(args[1]))

    def f_max(self, n, c, args):
        a, b = self.ev(args[0]), self.ev(args[1])
        return b if self.arith("<", a, b, n.t) else a

    def f_min(self, n, c, args):
        a, b = self.ev(args[0]), self.ev(args[1])
        return b if self.arith("<", b, a, n.t) else a

    def f_swap(self, n, c, args):
        x, y = self.lv(args[0]), self.lv(args[1])
        a, b = x.get(), y.get()
        x.set(b)
        y.set(a)

    def f_move(self, n, c, args):
        return self.ev(args[0])

    f_forward = f_move

    def f_make_tuple(self, n, c, args):
        return Tup([copy(self.ev(a)) for a in args])

    f_make_pair = f_make_tuple

    def f_get(self, n, c, args):
        v = self.ev(args[0])
        ta = self.template_args(c, "get")
        if isinstance(v, Tup):
            if ta is None or not ta.isdigit():
                raise Unsupported("std::get")
            return v.items[int(ta)]
        if isinstance(v, Variant):
            if not self.alt(v, ta):
                raise CxxError("std::bad_variant_access")
            return v.v
        raise Unsupported("std::get")

    def alt(self, v, ta):
        if ta is None:
            raise Unsupported("variant alternative")
        k = "str" if "string" in ta else "vec" if "vector" in ta else "int" if ta in ("int", "size_t", "unsigned int") else None
        if k is None:
            raise Unsupported("variant alternative " + ta)
        return k == ("str" if isinstance(v.v, str) else "vec" if isinstance(v.v, list) else "int")

    def f_holds_alternative(self, n, c, args):
        return self.alt(self.ev(args[0]), self.template_args(c, "holds_alternative"))

    def f_isinstance(self, n, c, args):
        v = self.ev(args[0]).v
        ta = (self.template_args(c, "isinstance") or "").split("::")[-1]
        if v is PyObj.NULL:
            return False
        from .arr import SArr
        if ta == "int_":
            return isinstance(v, int) or (isinstance(v, Num) and v.int_valued())
        if ta == "float_":
            return isinstance(v, float) or (isinstance(v, Num) and not v.int_valued())
        if ta in ("list", "tuple", "dict", "str", "bool_"):
            return isinstance(v, {"list": list, "tuple": tuple, "dict": dict, "str": str, "bool_": bool}[ta])
        if ta == "none":
            return v is None
        if ta == "sequence":
            return isinstance(v, (list, tuple, str)) or (hasattr(v, "__getitem__") and hasattr(v, "__len__") and not isinstance(v, (dict, SArr)))
        raise Unsupported(f"py::isinstance<{ta}>")

    def f_iter(self, n, c, args):
        return Iter([PyObj(x) for x in self.ev(args[0]).v], 0, "py")

    def f_sentinel(self, n, c, args):
        return Iter([], 0, "sentinel")

    def f_reinterpret_borrow(self, n, c, args):
        return self.ev(args[0])

    def f_cast(self, n, c, args):
        v = self.ev(args[0])
        t = n.t
        if "enable_if_t" in t:
            t = self.template_args(c, "cast") or t
        if not isinstance(v, PyObj):
            return PyObj(topy(v))
        return self.pycast(v, t)

    def pycast(self, o, t):
        v = o.v
        b = base(t)
        if b.split("::")[-1] in ("object", "handle"):
            return o
        if v is PyObj.NULL:
            raise CxxError("pybind11::cast of a null object")
        if b in WIDTH and b != "bool":
            if isinstance(v, float) or isinstance(v, (str, list, tuple, dict, type(None))):
                raise CxxError("pybind11::cast_error")
            k = intval(v)
            if wrap_int(k, b) != k:
                raise CxxError("pybind11::cast_error (range)")
            return k
        if b == "bool":
            if isinstance(v, bool):
                return v
            if isinstance(v, (int, Num, str, list)):
                raise CxxError("pybind11::cast_error")
            return truth(v)
        if is_float(b):
            if isinstance(v, (str, list, tuple, dict, type(None))):
                raise CxxError("pybind11::cast_error")
            return num(v)
        if b.startswith(("std::basic_string", "std::string", "basic_string")):
            if not isinstance(v, str):
                raise CxxError("pybind11::cast_error")
            return v
        if b.startswith(("std::vector<", "vector<")):
            el = targs(b)[0]
            if isinstance(v, (str, dict)) or not (isinstance(v, (list, tuple)) or (hasattr(v, "__len__") and hasattr(v, "__getitem__"))):
                raise CxxError("pybind11::cast_error")
            return [self.pycast(PyObj(x), el) for x in v]
        last = b.split("::")[-1]
        if last in ("list", "dict", "tuple", "str", "sequence"):
            ok = isinstance(v, {"list": list, "dict": dict, "tuple": tuple, "str": str, "sequence": (list, tuple, str)}[last])
            if not ok:
                raise CxxError("pybind11::cast_error")
            return o
        raise Unsupported(f"pybind11 cast to {t}")

    def e_CXXMemberCallExpr(self, n):
        m = n.inner[0]
        while m.kind in WRAP or m.kind == "ImplicitCastExpr":
            m = m.inner[0]
        if m.kind != "MemberExpr":
            raise Unsupported("C++ member call")
        name, args = m.name, n.inner[1:]
        o = self.ev(m.inner[0]) if m.inner else self.this[-1]
        h = self.hooks.get(name)
        d = self.definition(m.member)
        if h is not None and (d is not None or hasattr(o, "cxx_field") or isinstance(o, Opaque)):
            ps = self.params(d) if d is not None else []
            vals = []
            for i, a in enumerate(args):
                if a.kind == "CXXDefaultArgExpr":
                    vals.append(self.ev(ps[i].inner[-1]) if i < len(ps) and ps[i].inner else None)
                else:
                    vals.append(self.ev(a))
            return h(self, o, vals, n)
        if d is not None:
            return self.invoke_nodes(d, args, o)
        return self.method(o, name, args, n)

    def method(self, o, name, args, n):
        a = [self.ev(x) for x in args if x.kind != "CXXDefaultArgExpr"]
        if name.startswith("operator ") and isinstance(o, (PyObj, bool, int, Num)):
            return o
        if isinstance(o, list):
            if name == "size":
                return len(o)
            if name == "empty":
                return not o
            if name in ("at", "back", "front"):
                return self.element(o, a[0] if name == "at" else (-1 if name == "back" else 0), name == "at").get()
            if name in ("push_back", "emplace_back"):
                o.append(copy(a[0]))
                return None
            if name == "pop_back":
                o.pop()
                return None
            if name == "clear":
                o.clear()
                return None
            if name == "reserve":
                return None
            if name == "resize":
                if len(a) > 1:
                    while len(o) < a[0]:
                        o.append(copy(a[1]))
                elif len(o) < a[0]:
                    t = base(n.inner[0].inner[0].t if n.inner and n.inner[0].inner else "")
                    mt = re.search(r"vector<\s*([\w: ]+?)\s*(?:,.*)?>$", t)
                    if mt is None or ALIAS.get(mt.group(1), mt.group(1)) not in WIDTH:
                        raise Unsupported("vector::resize")
                    o.extend([False if mt.group(1) == "bool" else 0] * (intval(a[0]) - len(o)))
                del o[a[0]:]
                return None
            if name in ("begin", "cbegin"):
                return Iter(o, 0, o)
            if name in ("end", "cend"):
                return Iter(o, len(o), o)
            if name == "insert":
                pos = a[0].pos
                if len(a) == 3 and isinstance(a[1], Iter):
                    o[pos:pos] = [copy(x) for x in a[1].items[a[1].pos:a[2].pos]]
                elif len(a) == 2:
                    o.insert(pos, copy(a[1]))
                else:
                    raise Unsupported("vector::insert")
                return Iter(o, pos, o)
            if name == "fill":
                for i in range(len(o)):
                    o[i] = copy(a[0])
                return None
        if isinstance(o, str):
            if name in ("size", "length"):
                return len(o)
            if name == "empty":
                return not o
            if name == "c_str":
                return o
        if isinstance(o, CSet):
            if name == "begin":
                return Iter(o.items, 0, o)
            if name == "end":
                return Iter(o.items, len(o.items), o)
            if name in ("insert", "emplace"):
                o.add(copy(a[0]))
                return None
            if name == "size":
                return len(o.items)
            if name == "empty":
                return not o.items
        if isinstance(o, CMap):
            ent = o.entries()
            if name in ("begin", "cbegin"):
                return Iter(ent, 0, o)
            if name in ("end", "cend"):
                return Iter(ent, len(ent), o)
            if name == "find":
                k = _key(a[0])
                for i, e in enumerate(ent):
                    if _key(e.items[0]) == k:
                        return Iter(ent, i, o)
                return Iter(ent, len(ent), o)
            if name == "count":
                return int(_key(a[0]) in o.d)
            if name == "contains":
                return _key(a[0]) in o.d
            if name == "at":
                return self.element(o, a[0], True).get()
            if name == "size":
                return len(o.d)
            if name == "empty":
                return not o.d
        if isinstance(o, PyObj):
            v = o.v
            if name == "attr":
                try:
                    return PyObj(getattr(pyval(o), a[0]))
                except AttributeError as e:
                    raise CxxError(f"AttributeError: {e}") from None
            if name == "cast":
                return self.pycast(o, n.t)
            if name == "is_none":
                return v is None
            if name == "append":
                if not isinstance(v, list):
                    raise CxxError("append")
                v.append(topy(a[0]))
                return None
            if name == "size":
                return len(v)
            if name == "empty":
                return len(v) == 0
            if name == "contains":
                return topy(a[0]) in v
        if isinstance(o, Opaque):
            if name in ("count", "time_since_epoch"):
                return o if name == "time_since_epoch" else 0
        if hasattr(o, "cxx_method"):
            return o.cxx_method(self, name, a, n)
        raise Unsupported(f"C++ method {name} of {type(o).__name__}")

    def f_now(self, n, c, args):
        return Opaque("time")

    def f_duration_cast(self, n, c, args):
        return Opaque("time")

    def f_to_string(self, n, c, args):
        return str(self.ev(args[0]))

    def e_LambdaExpr(self, n):
        rec = n.inner[0]
        fn, fields = None, []
        for c in rec.inner:
            if c.kind == "FieldDecl":
                fields.append(c.t)
            elif c.kind == "CXXMethodDecl" and c.name == "operator()":
                fn = c
            elif c.kind == "FunctionTemplateDecl" and c.name == "operator()":
                fn = next((m for m in c.inner if m.kind == "CXXMethodDecl"), None)
        if fn is None:
            raise Unsupported("C++ lambda")
        env = dict(self.env[-1])
        caps = [c for c in n.inner[1:] if c.kind != "CompoundStmt"]
        if len(caps) != len(fields):
            raise Unsupported("captures of a C++ lambda")
        for c, t in zip(caps, fields):
            m = c
            while m.kind in WRAP or m.kind in ("ImplicitCastExpr", "CXXConstructExpr") and m.inner:
                m = m.inner[0]
            if m.kind == "CXXThisExpr":
                continue
            if m.kind != "DeclRefExpr":
                raise Unsupported("captures of a C++ lambda")
            if not t.rstrip().endswith("&"):
                cell = self.lookup(m)
                if cell is None:
                    raise Unsupported("captures of a C++ lambda")
                env[m.ref] = Cell(copy(cell.get()))
        return Closure(fn, env, self.this[-1])

    def functor(self, a, n):
        """the Python function of a predicate or operation handed to an algorithm"""
        v = None
        m = a
        while m.kind in WRAP or m.kind in ("ImplicitCastExpr",) and m.inner:
            m = m.inner[0]
        if m.kind in ("DeclRefExpr", "LambdaExpr", "CXXConstructExpr") and not (m.kind == "DeclRefExpr" and m.refkind == "FunctionDecl"):
            try:
                v = self.ev(a)
            except Unsupported:
                v = None
        if isinstance(v, Closure):
            return lambda *xs: self.invoke(v.node, list(xs), v)
        if m.kind == "DeclRefExpr" and m.refkind == "FunctionDecl":
            d = self.definition(m.ref)
            if d is not None:
                return lambda *xs: self.invoke(d, list(xs), None)
        t = a.t + " " + " ".join(self.text(a) or [])
        for name, f in (("logical_not", lambda x: not truth(x)), ("identity", truth), ("multiplies", lambda x, y: self.arith("*", x, y, n.t)), ("plus", lambda x, y: self.arith("+", x, y, n.t)),
                        ("greater<", lambda x, y: x > y), ("less<", lambda x, y: x < y)):
            if name in t:
                return f
        raise Unsupported("C++ predicate " + a.t)

    def slice_(self, args):
        a, b = self.ev(args[0]), self.ev(args[1])
        if not (isinstance(a, Iter) and isinstance(b, Iter) and a.items is b.items and isinstance(a.items, list)):
            raise Unsupported("range of a C++ algorithm")
        return a, b, range(a.pos, b.pos)

    def put(self, out, vals):
        if isinstance(out, BackInserter):
            out.items.extend(copy(v) for v in vals)
            return out
        if isinstance(out, Iter) and isinstance(out.items, list):
            if out.pos + len(vals) > len(out.items):
                raise CxxError("writing past the end of a container")
            for k, v in enumerate(vals):
                out.items[out.pos + k] = copy(v)
            return Iter(out.items, out.pos + len(vals), out.owner)
        raise Unsupported("output of a C++ algorithm")

    def f_back_inserter(self, n, c, args):
        return BackInserter(self.ev(args[0]))

    def f_copy(self, n, c, args):
        a, _b, r = self.slice_(args)
        return self.put(self.ev(args[2]), [a.items[i] for i in r])

    def f_transform(self, n, c, args):
        a, _b, r = self.slice_(args)
        f = self.functor(args[-1], n)
        if len(args) == 4:
            return self.put(self.ev(args[2]), [f(a.items[i]) for i in r])
        b = self.ev(args[2])
        return self.put(self.ev(args[3]), [f(a.items[i], b.items[b.pos + i - a.pos]) for i in r])

    def f_for_each(self, n, c, args):
        a, _b, r = self.slice_(args)
        f = self.functor(args[2], n)
        for i in r:
            f(self.element(a.items, i, False))

    def f_fill(self, n, c, args):
        a, _b, r = self.slice_(args)
        v = self.ev(args[2])
        for i in r:
            a.items[i] = copy(v)

    def f_iota(self, n, c, args):
        a, _b, r = self.slice_(args)
        v = intval(self.ev(args[2]))
        for k, i in enumerate(r):
            a.items[i] = v + k

    def f_reverse(self, n, c, args):
        a, b, _r = self.slice_(args)
        a.items[a.pos:b.pos] = a.items[a.pos:b.pos][::-1]

    def f_count_if(self, n, c, args):
        a, _b, r = self.slice_(args)
        f = self.functor(args[2], n)
        return sum(1 for i in r if truth(f(a.items[i])))

    def f_find_if(self, n, c, args):
        a, b, r = self.slice_(args)
        f = self.functor(args[2], n)
        return Iter(a.items, next((i for i in r if truth(f(a.items[i]))), b.pos), a.owner)

    def f_find(self, n, c, args):
        a, b, r = self.slice_(args)
        v = self.ev(args[2])
        if not isinstance(v, (int, str)) or not all(isinstance(a.items[i], (int, str)) for i in r):
            raise Unsupported("std::find")
        return Iter(a.items, next((i for i in r if a.items[i] == v), b.pos), a.owner)

    def f_distance(self, n, c, args):
        a, b = self.ev(args[0]), self.ev(args[1])
        return b.pos - a.pos

    def quantified(self, args):
        a, _b, r = self.slice_(args)
        f = self.functor(args[2], args[2])
        return [truth(f(a.items[i])) for i in r]

    def f_none_of(self, n, c, args):
        return not any(self.quantified(args))

    def f_all_of(self, n, c, args):
        return all(self.quantified(args))

    def f_any_of(self, n, c, args):
        return any(self.quantified(args))

    def f_accumulate(self, n, c, args):
        a, b, v = (self.ev(x) for x in args[:3])
        f = self.functor(args[3], n) if len(args) > 3 else lambda x, y: self.arith("+", x, y, n.t)
        for x in a.items[a.pos:b.pos]:
            v = f(v, x)
        return v

    def f_cbegin(self, n, c, args):
        return self.f_begin(n, c, args)

    def f_begin(self, n, c, args):
        return self.method(self.ev(args[0]), "begin", [], n)

    def f_cend(self, n, c, args):
        return self.f_end(n, c, args)

    def f_end(self, n, c, args):
        return self.method(self.ev(args[0]), "end", [], n)

    def f_make_unique(self, n, c, args):
        raise Unsupported("make_unique")

    def elements_equal(self, a, b, n):
        """equality of vectors: as long, and equal elements by the operator of the element type"""
        if len(a) != len(b):
            return False
        plain = lambda t: re.sub(r"\b\w+::", "", base(t))
        want = f"bool (const {plain(targs(base(n.t))[0])} &) const"
        fs = [f for f in self.p.funcs.get("operator==", []) if f.mangled and re.sub(r"\b\w+::", "", f.t) == want]
        if len(fs) != 1:
            raise Unsupported("C++ equality of vectors")
        return all(self.invoke(fs[0], [y], x) for x, y in zip(a, b))

    def e_CXXOperatorCallExpr(self, n):
        c = self.callee(n)
        name, args = c.refname, n.inner[1:]
        if name == "operator=":
            r = self.lv(args[0])
            v = self.ev(args[1])
            cur = r.get()
            v = copy(v)
            if isinstance(cur, Variant) and not isinstance(v, Variant):
                v = Variant(v)
            r.set(v)
            return v
        if name == "operator<<":
            s = self.ev(args[0])
            if isinstance(s, Opaque):
                return s
            raise Unsupported("operator<<")
        if name == "operator[]":
            return self.lv(n).get()
        if name in ("operator++", "operator--"):
            r = self.lv(args[0])
            it = r.get()
            if not isinstance(it, Iter):
                raise Unsupported(name)
            old = copy(it)
            it.pos += 1 if name == "operator++" else -1
            return old if len(args) > 1 else it
        if name in self.hooks:
            v = self.hooks[name](self, None, [self.ev(a) for a in args], n)
            if v is not NotImplemented:
                return v
        d = self.definition(c.ref)
        vals = None
        if d is not None:
            if d.kind == "CXXMethodDecl":
                return self.invoke_nodes(d, args[1:], self.ev(args[0]))
            return self.invoke_nodes(d, args, None)
        vals = [self.ev(a) for a in args if a.kind != "CXXDefaultArgExpr"]
        if name in ("operator*", "operator->") and len(vals) == 1:
            v = vals[0]
            if isinstance(v, Iter):
                if v.at_end():
                    raise CxxError("dereferencing the end")
                return v.items[v.pos]
            return v
        if name in ("operator==", "operator!="):
            a, b = vals
            if isinstance(a, Iter) and isinstance(b, Iter):
                if b.owner == "sentinel" or a.owner == "sentinel":
                    e = (a if b.owner == "sentinel" else b).at_end()
                else:
                    e = a.pos == b.pos
                return e == (name == "operator==")
            if isinstance(a, str) and isinstance(b, str):
                return (a == b) == (name == "operator==")
            if isinstance(a, list) and isinstance(b, list) and all(isinstance(x, int) for x in a + b):
                return (a == b) == (name == "operator==")
            if a is None or b is None:
                return (a is b) == (name == "operator==")
            if isinstance(a, list) and isinstance(b, list):
                return self.elements_equal(a, b, args[0]) == (name == "operator==")
            raise Unsupported(f"C++ {name} on {type(a).__name__}")
        if name == "operator+" and all(isinstance(v, str) for v in vals):
            return vals[0] + vals[1]
        if name == "operator+" and isinstance(vals[0], Iter):
            return Iter(vals[0].items, vals[0].pos + intval(vals[1]), vals[0].owner)
        if name == "operator()":
            f = vals[0]
            if isinstance(f, Closure):
                return self.invoke(f.node, vals[1:], f)
            if isinstance(f, Dist):
                if self.draw is None:
                    raise Unsupported("random draw")
                k = self.draw(self, f.weights)
                self.drawn.append((f.weights, k))
                return k
            if isinstance(f, Opaque):
                return 0
        raise Unsupported(f"C++ {name}")


def pyval(o):
    if o.v is PyObj.NULL:
        raise CxxError("null Python object")
    return o.v


def topy(v):
    if isinstance(v, PyObj):
        return None if v.v is PyObj.NULL else v.v
    if isinstance(v, list):
        return [topy(x) for x in v]
    return v


def targs(b):
    s = b[b.index("<") + 1:b.rindex(">")]
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "<" or ch == "(":
            depth += 1
        elif ch == ">" or ch == ")":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return [base(x) for x in out]
