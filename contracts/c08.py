"""C08: the decision-diagram backend.  Python side: the state handed over by the compiled simulator is reordered to the line order of the package."""
from __future__ import annotations

import contextlib
import itertools
import re
from fractions import Fraction

from contracts import dd, dd2
from contracts import spec as spec_
from contracts.c03 import digits, prod, spec
from contracts.c07 import circuit
from pyvc import core as C
from pyvc import cxx, loader
from pyvc import num as N
from pyvc.api import expi, ob
from pyvc.num import Num

P = "C08"
with contextlib.suppress(cxx.Unsupported):
    cxx.load()   # once, before the obligations are distributed over processes
MF = "simulation/backends/misim.py:MISim."


def install(f):
    m = loader.standin_mod("mqt.qudits._qudits")
    del m
    loader.load("")
    q = loader._imp("mqt.qudits._qudits.misim")
    object.__setattr__(q, "state_vector_simulation", f)
    mod = loader.load("simulation.backends.misim")
    mod.state_vector_simulation = f


for ds in ((2,), (5,), (2, 3), (3, 2), (4, 4), (2, 3, 4), (4, 3, 2), (3, 2, 2), (2, 3, 2, 2)):
    @ob(P, f"order of the amplitudes.{'x'.join(map(str, ds))}", [MF + "execute", MF + "run"], bound=f"dimensions {ds}, arbitrary state", case="mi_layout")
    def layout(vc, ds=ds):
        n = prod(ds)
        seen = []

        def sim(circ, noise):
            seen.append((circ, noise))
            # assumed contract of the compiled simulator: amplitude of the basis state (x_0, .., x_n-1) stands at index sum x_i * prod(d_j, j < i)
            return [N.cplx(f"psi{digits(k, ds[::-1])[::-1]}") for k in range(n)]
        install(sim)
        C.ctx().inputs.update(dims=list(ds))
        c = circuit(ds)
        c.x(0)
        b = loader.load("simulation.qudit_provider").MQTQuditProvider().get_backend("misim")
        r = b.run(c).result()
        v = r.get_state_vector()
        vc.ensure(tuple(v.shape) == (1, n), "shape")
        for i in range(n):
            vc.ensure_eq(v[0, i], N.cplx(f"psi{digits(i, ds)}"), "amplitude in line order")
        vc.ensure(len(seen) == 1 and seen[0][0] is c, "the circuit itself is simulated once")
        vc.ensure(len(seen[0][1].basis_gates if hasattr(seen[0][1], 'basis_gates') else []) == 0, "no noise")
        vc.ensure(list(r.get_counts()) == [] and len(c.instructions) == 1, "no shots without noise, circuit unchanged")


# ------------------------------------------------------------------ C++ side: readCircuit, getGate, cex, csum and the gate tables
CX = "cpp:src/python/bindings.cpp:"
DDP = "cpp:include/dd/MDDPackage.hpp:MDDPackage."
GMD = "cpp:include/dd/GateMatrixDefinitions.hpp:"
EMB = {2: (2,), 3: (2, 3, 2), 4: (2, 4), 5: (5, 2), 6: (3, 6), 7: (7, 2)}


def instructions(machine, c):
    info = machine.call("readCircuit", cxx.PyObj(c))
    return cxx.intval(info.items[0]), [cxx.intval(d) for d in info.items[1]], info.items[2]


def gate_of(vc, dims, build, dag):
    """the edge getGate makes for the gate `build` adds to a circuit over the dimensions"""
    c = circuit(dims)
    g = build(c)
    if dag:
        g.dag()
    pkg = dd.Pkg(dims)
    m = cxx.Machine(dd.hooks(pkg))
    n, ds, ins = instructions(m, c)
    vc.ensure(n == len(dims) and ds == list(dims) and len(ins) == 1, "the circuit as read from Python")
    e = m.call("getGate", pkg, ins[0])
    vc.ensure(not e.null and e.level == len(dims) - 1, "a diagram over all lines")
    return e


def matches(vc, e, M, targets, dims, dag, label, ctl=None):
    """the diagram stands for the matrix on the target lines (rows and columns of M over the targets ascending), line 0 least significant"""
    n = len(dims)
    f = spec(M, targets, list(dims)[::-1], list(range(n))[::-1], ctl, dag)
    for r in range(prod(dims)):
        for k in range(prod(dims)):
            want = Num.lift(f(r, k))
            got = e.data.get((r, k), N.ZERO)
            if not (got - want).is_const_zero():
                vc.ensure_eq(got, want, f"{label}: entry {r},{k}")
    vc.ok(label)


class Mat:
    """a matrix over several lines given by its entry function"""
    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        return self.f(*i)


def pairs(d):
    return [(a, b) for a in range(d) for b in range(d) if a != b]


def sites(d):
    """(dimensions, line) where a gate on a line of dimension d is tried: alone, and between other lines"""
    return [((d,), 0), ((2, d, 3), 1)] if d <= 4 else [((d,), 0), ((d, 2), 0), ((2, d), 1)]


def variants(d):
    return [(ds, q, dag) for ds, q in sites(d) for dag in (False, True)]


def single(kind, d, build, mat, funcs, case="mi_gate"):
    @ob(P, f"C++ {kind} on dimension {d}", [CX + "readCircuit", CX + "getGate"] + [GMD + f for f in funcs], bound=f"dimension {d}, all levels, symbolic angles, one and up to three lines, with and without dagger",
        case="mi_gate", fixed={"gate": kind})
    def gate(vc):
        dd.guard(vc, lambda: body(vc))

    def body(vc):
        angles(vc)
        for ds, q, dag in variants(d):
            for lv in (pairs(d) if kind in ("rxy", "rz", "rh") else range(d) if kind == "virtrz" else [()]):
                C.ctx().inputs.update(dims=list(ds), line=q, dag=dag, levels=lv)
                M = Mat(mat(d, lv))
                matches(vc, gate_of(vc, ds, lambda c: build(c, q, lv), dag), M, [q], ds, dag, f"{kind} {lv} on line {q} of {ds}{' dag' if dag else ''}")


def ang(vc, name):
    a = vc.angle(name)
    vc.assume(a >= 0)
    vc.assume(a <= 2 * N.PI)
    return a


def table(name, d):
    return {"rxy": "RXY", "rz": "RZ", "rh": "RH", "virtrz": "VirtRZ", "x": "Xmat" if d == 2 else "X", "s": "Smat" if d == 2 else "S", "z": "Zmat" if d == 2 else "Z", "h": "H"}[name] + ("" if d == 2 else str(d))


ANG: list = []


def angles(vc):
    ANG[:] = [ang(vc, "theta"), ang(vc, "phi")]


def plain():
    for d in range(2, 8):
        for kind in ("x", "z", "h") + (("s",) if d in (2, 3, 5, 7) else ()):
            single(kind, d, lambda c, q, lv, k=kind: getattr(c, k)(q), lambda d, lv, k=kind: getattr(spec_, k)(d), [table(kind, d)])
        single("rh", d, lambda c, q, lv: c.rh(q, list(lv)), lambda d, lv: spec_.rh(d, *lv), [table("rh", d)])
        single("rxy", d, lambda c, q, lv: c.r(q, [*lv, *ANG]), lambda d, lv: spec_.r(d, *lv, *ANG), [table("rxy", d)])
        single("rz", d, lambda c, q, lv: c.rz(q, [*lv, ANG[1]]), lambda d, lv: spec_.rz(d, *lv, ANG[1]), [table("rz", d)])
        single("virtrz", d, lambda c, q, lv: c.virtrz(q, [lv, ANG[1]]), lambda d, lv: spec_.virtrz(d, lv, ANG[1]), [table("virtrz", d)])


plain()


# two-line gates: control and target ascending and descending, next to each other and with lines around them
def layouts(dc, dt):
    return [((dc, dt), 0, 1), ((dt, dc), 1, 0)] + ([((dc, 2, dt), 0, 2), ((2, dt, dc), 2, 1)] if dc * dt <= 12 else [])


def two(kind, dc, dt, funcs):
    @ob(P, f"C++ {kind} on dimensions {dc},{dt}", [CX + "readCircuit", CX + "getGate"] + funcs,
        bound=f"control dimension {dc}, target dimension {dt}, all levels, symbolic angle, control above and below the target, with and without dagger", case="mi_gate", fixed={"gate": kind})
    def gate(vc):
        dd.guard(vc, lambda: body(vc))

    def body(vc):
        angles(vc)
        for ds, cq, tq in layouts(dc, dt):
            for dag in (False, True):
                for lv in ([(a, b, l) for a, b in itertools.combinations(range(dt), 2) for l in range(dc)] if kind == "cx" else [()]):
                    C.ctx().inputs.update(dims=list(ds), control=cq, target=tq, dag=dag, levels=lv)
                    e = gate_of(vc, ds, (lambda c: c.cx([cq, tq], [*lv, ANG[1]])) if kind == "cx" else (lambda c: c.csum([cq, tq])), dag)
                    if kind == "cx":
                        a, b, l = lv
                        blk = spec_.two_level(dt, a, b, [[N.ZERO, -N.I * expi(-ANG[1])], [-N.I * expi(ANG[1]), N.ZERO]])
                    f = {}
                    for r in range(dc * dt):
                        for k in range(dc * dt):
                            # rows and columns over the two lines ascending
                            (ci, ti), (cj, tj) = (divmod(r, dt), divmod(k, dt)) if cq < tq else (divmod(r, dc)[::-1], divmod(k, dc)[::-1])
                            if ci != cj:
                                f[r, k] = N.ZERO
                            elif kind == "cx":
                                f[r, k] = blk(ti, tj) if ci == l else (N.ONE if ti == tj else N.ZERO)
                            else:
                                f[r, k] = N.ONE if ti == (tj + ci) % dt else N.ZERO
                    matches(vc, e, f, [cq, tq], ds, dag, f"{kind} {lv} control {cq} target {tq} of {ds}{' dag' if dag else ''}")


for dt in range(2, 8):
    for dc in sorted({2, 3, min(dt, 5)}):
        two("cx", dc, dt, [DDP + "cex", GMD + f"embX{dt}"])
        two("csum", dc, dt, [DDP + "csum", GMD + (f"X{dt}" if dt > 2 else "Xmat")])


# ------------------------------------------------------------------ C++ side: makeGateDD and makeIdent over makeDDNode
def values(d, pattern):
    """the entries of a d x d matrix: arbitrary where the pattern has a 1 (real and imaginary part nonzero), zero elsewhere"""
    out, num_ = [], []
    for i in range(d * d):
        if pattern(i // d, i % d):
            r, im = Num.var(f"re{i}", "pos"), Num.var(f"im{i}", "pos")
        else:
            r, im = N.ZERO, N.ZERO
        out.append(cxx.Struct("ComplexValue", {"r": r, "i": im}))
        num_.append(r + N.I * im)
    return out, num_


PATTERNS = {"full": lambda r, c: True, "diagonal": lambda r, c: r == c, "first row": lambda r, c: r == 0, "off": lambda r, c: r != c}


def overloads(m):
    """instances of makeGateDD with the control set (the one that builds the diagram)"""
    out = {}
    for f in m.p.funcs.get("makeGateDD", []):
        ps = m.params(f)
        k = {"GateMatrix": 2, "TritMatrix": 3, "QuartMatrix": 4, "QuintMatrix": 5, "SextMatrix": 6, "SeptMatrix": 7}
        if len(ps) == 5:
            for name, d in k.items():
                if name in ps[0].t:
                    out[d] = f
            mm = re.search(r"array<.*?, (\d+)>", ps[0].t)
            if mm:
                out[int(int(mm.group(1)) ** 0.5 + 0.5)] = f
    return out


def make_gate_ob(ds):
    @ob(P, f"C++ makeGateDD on {'x'.join(map(str, ds))}", [DDP + "makeGateDD", DDP + "makeIdent"], bound=f"dimensions {ds}, every target, every control line and level, arbitrary entries over four zero patterns",
        case="mi_embed")
    def gate(vc):
        dd.guard(vc, lambda: body(vc))

    def body(vc):
        n = len(ds)
        C.ctx().inputs.update(dims=list(ds))
        for t in range(n):
            d = ds[t]
            for name, pat in PATTERNS.items():
                vals, mat = values(d, pat)
                for ctl in [[]] + [[(q, l)] for q in range(n) if q != t for l in range(ds[q])]:
                    pkg = dd.Pkg(ds)
                    m = cxx.Machine(dd.hooks(pkg, "makeGateDD", "makeIdent"))
                    f = overloads(m).get(d)
                    if f is None:
                        raise C.Unsupported("instance of makeGateDD")
                    C.ctx().inputs.update(target=t, controls=ctl)
                    cs = cxx.CSet([cxx.Struct("Control", {"quantumRegister": q, "type": l}) for q, l in ctl])
                    e = m.invoke(f, [cxx.copy(vals), n, cs, t, 0], pkg)
                    vc.ensure(not e.null and e.level == n - 1, "over all lines")
                    want = dd.embed(list(ds), mat, t, ctl)
                    for k in set(want) | set(e.data):
                        if not (e.data.get(k, N.ZERO) - want.get(k, N.ZERO)).is_const_zero():
                            vc.ensure_eq(e.data.get(k, N.ZERO), want.get(k, N.ZERO), f"target {t}, controls {ctl}, {name}: entry {k}")
        vc.ok("every entry")


for ds_ in ((2,), (3, 2), (2, 3), (2, 2, 2), (3, 2, 4), (2, 4, 3), (5, 2), (2, 6), (7, 2), (2, 2, 3, 2)):
    make_gate_ob(ds_)


@ob(P, "C++ makeIdent", [DDP + "makeIdent"], bound="every list of up to 4 lines of dimensions 2..4, every order of up to three requests (the table of identities is kept between them)", case="mi_embed")
def make_ident(vc):
    def body():
        for n in (1, 2, 3, 4):
            for ds in itertools.product((2, 3) if n > 2 else (2, 3, 4), repeat=n):
                C.ctx().inputs.update(dims=list(ds))
                for order in itertools.product(range(-1, n), repeat=2 if n > 3 else 3):
                    pkg = dd.Pkg(ds)
                    m = cxx.Machine(dd.hooks(pkg, "makeIdent"))
                    two_ = [f for f in m.p.funcs["makeIdent"] if len(m.params(f)) == 2][0]
                    for hi in order:
                        e = m.invoke(two_, [0, hi], pkg)
                        k = prod(ds[:hi + 1])
                        d = dd.below(e, hi, False)
                        if len(d) != k or any(d.get((i, i)) is None or not (d[i, i] - 1).is_const_zero() for i in range(k)):
                            vc.fail(f"identity over lines 0..{hi} of {ds} after the requests {order}")
        vc.ok("identity")
    dd.guard(vc, body)


# ------------------------------------------------------------------ C++ side: ddsimulator, stateVectorSimulation
class Gates:
    """arbitrary operators, one for each instruction"""
    def __init__(self, n, k):
        self.m = [{(r, c): N.cplx(f"g{i}.{r}.{c}") for r in range(n) for c in range(n)} for i in range(k)]


def sim_ob(ds, k):
    @ob(P, f"C++ ddsimulator, {k} instructions on {'x'.join(map(str, ds))}", [CX + "ddsimulator", CX + "stateVectorSimulation", CX + "readCircuit", CX + "parse_noise_model", CX + "generateCircuit",
                                                                             CX + "complex_vector_to_list", DDP + "makeZeroState"],
        bound=f"dimensions {ds}, {k} arbitrary operators in order", case="mi_sequence")
    def sim(vc):
        dd.guard(vc, lambda: body(vc))

    def body(vc):
        n = prod(ds)
        C.ctx().inputs.update(dims=list(ds))
        c = circuit(ds)
        for i in range(k):
            c.x(i % len(ds))
        pkg = dd.Pkg(ds)
        h = dd.hooks(pkg)
        G = Gates(n, k)
        seen = []

        def get_gate(m, this, a, node):
            seen.append(a[1])
            i = len(seen) - 1
            vc.ensure(i < k and a[0] is pkg, "one operator for each instruction")
            vc.ensure([cxx.intval(x) for x in a[1].items[4]] == [i % len(ds)] and a[1].items[0] == "x", "the instruction in its place")
            return dd.Edge(len(ds) - 1, dict(G.m[i]))
        h["getGate"] = get_gate
        made = []

        def make_pkg(m, this, args, node):
            made.append([cxx.intval(args[0]), [cxx.intval(x) for x in args[1]]])
            return pkg
        h["make_unique"] = make_pkg
        m = cxx.Machine(h)
        NM = loader.load("simulation.noise_tools.noise").NoiseModel
        got = cxx.pyval(m.call("stateVectorSimulation", cxx.PyObj(c), cxx.PyObj(NM())))
        vc.ensure(made == [[len(ds), list(ds)]], "the package has the lines of the circuit")
        vc.ensure(len(seen) == k and len(got) == n, "every instruction once, every amplitude")
        psi = {0: N.ONE}
        for g in G.m:
            psi = dd.mul(g, psi)
        for i in range(n):
            if not (Num.lift(got[i]) - psi.get(i, N.ZERO)).is_const_zero():
                vc.ensure_eq(got[i], psi.get(i, N.ZERO), f"amplitude {i}")
        vc.ensure(not m.drawn, "no randomness without noise")


for ds_, k_ in (((2,), 0), ((3,), 2), ((2, 3), 0), ((2, 3), 2), ((3, 2), 1), ((2, 2, 2), 1), ((2, 2), 3), ((2, 3, 2), 1)):
    sim_ob(ds_, k_)


# ------------------------------------------------------------------ C++ side: the recursions of the diagrams, one level with arbitrary diagrams below
def body_of(m, name, kind):
    fs = [f for f in m.p.funcs.get(name, []) if f"{kind}Node" in f.t.split("(")[0] or (name in ("conjugateTranspose",) and kind == "m")]
    if len(fs) != 1:
        raise C.Unsupported(f"{len(fs)} instances of {name}")
    return fs[0]


def fill(heap, kind, level, name):
    """a node over the lines 0..level known by the matrix (vector) it stands for only"""
    if level < 0:
        return dd2.TERM[kind]
    k = prod(heap.dims[:level + 1])
    keys = range(k) if kind == "v" else itertools.product(range(k), repeat=2)
    return dd2.Node(kind, level, None, {i: N.cplx(f"{name}{i}") for i in keys})


def node(heap, kind, q, name, pattern, weights, identity=False):
    d = heap.dims[q]
    edges = []
    if identity:
        for i in range(d):
            for j in range(d):
                if i != j:
                    edges.append(dd2.zero("m"))
                elif q == 0:
                    edges.append(dd2.E(dd2.TERM["m"], dd2.ONE))
                else:
                    edges.append(dd2.E(dd2.Node("m", q - 1, None, {(r, r): N.ONE for r in range(prod(heap.dims[:q]))}, True), dd2.ONE))
        return dd2.Node("m", q, edges, heap.blocks("m", q, edges), True)
    for k in range(d if kind == "v" else d * d):
        if not (pattern(k, 0) if kind == "v" else pattern(k // d, k % d)):
            edges.append(dd2.zero(kind))
            continue
        w = dd2.ONE if weights == "one" or (weights == "mixed" and k % 2 == 0) else dd2.W(N.cplx(f"{name}w{k}"), "table")
        edges.append(dd2.E(fill(heap, kind, q - 1, f"{name}n{k}."), w))
    return dd2.Node(kind, q, edges, heap.blocks(kind, q, edges))


def weight(mode, name):
    return dd2.ONE if mode == "one" else dd2.W(N.cplx(name), mode)


def same(vc, heap, e, level, want, label):
    got = heap.value(e, level)
    for k in set(got) | set(want):
        a, b = got.get(k, N.ZERO), want.get(k, N.ZERO)
        if not (a - b).is_const_zero():
            vc.ensure_eq(a, b, f"{label}: entry {k}")


PAT = {"full": lambda r, c: True, "diagonal": lambda r, c: r == c, "lower": lambda r, c: r >= c, "one": lambda r, c: r == 1 and c == 0, "none in row 0": lambda r, c: r > 0}
SHAPES = [((2,), 0), ((3,), 0), ((2, 2), 1), ((2, 3), 1), ((3, 2), 1)]


def settings():
    for (ds, q) in SHAPES:
        for pa, pb in (("full", "full"), ("diagonal", "full"), ("full", "lower"), ("lower", "none in row 0"), ("one", "one"), ("one", "full")) if prod(ds) <= 4 else (("full", "diagonal"), ("lower", "one"), ("diagonal", "full")):
            for wa, wb, ws in (("one", "one", "one"), ("table", "cached", "mixed"), ("one", "table", "table")):
                for scale in (1, 2):
                    yield ds, q, pa, pb, wa, wb, ws, scale


@ob(P, "C++ multiply2 with a matrix", [DDP + "multiply2"], bound="a line of dimension 2 or 3 over arbitrary diagrams of the lines below, six patterns of zero edges, weights one or arbitrary, result of makeDDNode with weight one or not; recursive calls by contract",
    case="mi_embed", budget=150, fixed={"dims": [2, 3, 2]})
def multiply_m(vc):
    dd.guard(vc, lambda: multiplied(vc, "m"))


@ob(P, "C++ multiply2 with a state", [DDP + "multiply2"], bound="a line of dimension 2 or 3 over arbitrary diagrams of the lines below, six patterns of zero edges, weights one or arbitrary, result of makeDDNode with weight one or not; recursive calls by contract",
    case="mi_embed", budget=150, fixed={"dims": [2, 3, 2]})
def multiply_v(vc):
    dd.guard(vc, lambda: multiplied(vc, "v"))


def multiplied(vc, kind):
    for ds, q, pa, pb, wa, wb, ws, scale in settings():
        for ia, ib in ((False, False), (True, False)) + (((False, True), (True, True)) if kind == "m" else ()):
            for hit in (False, True):
                heap = dd2.Heap(ds, scale)
                x = dd2.E(node(heap, "m", q, "x", PAT[pa], ws, ia), weight(wa, "wx"))
                y = dd2.E(node(heap, kind, q, "y", PAT[pb], ws, ib), weight(wb, "wy"))
                want = heap.product(x, y, q)
                if hit:
                    def known(a, heap=heap):
                        need_one(a)
                        p = {k: v / 3 for k, v in heap.product(a[0], a[1], q).items() if v.t}
                        return dd2.E(dd2.Node(kind, q, None, p), dd2.W(3, "table")) if p else dd2.E(dd2.TERM[kind], dd2.ZERO)
                    heap.hit = known
                m = cxx.Machine(heap.hooks())
                e = m.invoke(body_of(m, "multiply2", kind), [x.cxx_copy(), y.cxx_copy(), q, 0], heap)
                lab = f"{ds} {pa}/{pb} {wa}/{wb}/{ws}{' identity' if ia or ib else ''}{' known' if hit else ''}"
                same(vc, heap, e, q, want, lab)
                dd.need(e.w in (dd2.ZERO, dd2.ONE) or e.w.state == "cached", "the weight of a product is borrowed")
                for a, b, r in heap.inserted:
                    same(vc, heap, r, q, heap.product(a, b, q), lab + ": entry of the table of products")
    for ds in ((2,), (3, 2)):
        heap = dd2.Heap(ds)
        for q in range(len(ds)):
            f = fill(heap, "m", q, "x")
            g = fill(heap, kind, q, "y")
            for x, y in ((dd2.zero("m"), dd2.E(g, weight("table", "w"))), (dd2.E(f, weight("table", "w")), dd2.zero(kind)), (dd2.zero("m"), dd2.zero(kind))):
                m = cxx.Machine(heap.hooks())
                same(vc, heap, m.invoke(body_of(m, "multiply2", kind), [x, y, q, 0], heap), q, {}, "product with zero")
        x, y = dd2.E(dd2.TERM["m"], weight("table", "wx")), dd2.E(dd2.TERM[kind], weight("cached", "wy"))
        m = cxx.Machine(heap.hooks())
        want = heap.product(x, y, -1)
        same(vc, heap, m.invoke(body_of(m, "multiply2", kind), [x, y, -1, 0], heap), -1, want, "product of numbers")
    vc.ok("products")


def need_one(a):
    dd.need(all(x.w is dd2.ONE for x in a), "products are looked up without the weights")


def adding(vc, kind):
    for ds, q, pa, pb, wa, wb, ws, scale in settings():
        for case_ in ("plain", "same node", "known", "zero left", "zero right", "both zero"):
            heap = dd2.Heap(ds, scale)
            x = dd2.E(node(heap, kind, q, "x", PAT[pa], ws), weight(wa, "wx"))
            y = dd2.E(x.node if case_ == "same node" else node(heap, kind, q, "y", PAT[pb], ws), weight(wb, "wy"))
            if case_ in ("zero left", "both zero"):
                x = dd2.zero(kind)
            if case_ in ("zero right", "both zero"):
                y = dd2.zero(kind)
            want = heap.total(x, y, q)
            if case_ == "known":
                def known(a, heap=heap):
                    p = {k: v / 3 for k, v in heap.total(a[0], a[1], q).items()}
                    return dd2.E(dd2.Node(kind, q, None, p), dd2.W(3, "table")) if p else dd2.E(dd2.TERM[kind], dd2.ZERO)
                heap.hit = known
            m = cxx.Machine(heap.hooks())
            e = m.invoke(body_of(m, "add2", kind), [x.cxx_copy(), y.cxx_copy()], heap)
            lab = f"{ds} {pa}+{pb} {wa}/{wb}/{ws} {case_}"
            same(vc, heap, e, q, want, lab)
            dd.need(e.w in (dd2.ZERO, dd2.ONE) or e.w.state == "cached", "the weight of a sum is borrowed")
            dd.need(all(w.state in ("const", "table", "cached") for w in (x.w, y.w)), "the weights of the summands are not given away")
            for a, b, r in heap.inserted:
                same(vc, heap, r, q, heap.total(a, b, q), lab + ": entry of the table of sums")
    # cancellation, and numbers
    heap = dd2.Heap((2,))
    nd = fill(heap, kind, 0, "x")
    m = cxx.Machine(heap.hooks())
    e = m.invoke(body_of(m, "add2", kind), [dd2.E(nd, dd2.W(N.cplx("w"), "cached")), dd2.E(nd, dd2.W(-N.cplx("w"), "cached"))], heap)
    same(vc, heap, e, 0, {}, "opposite summands")
    for a, b in ((N.cplx("a"), N.cplx("b")), (N.ONE, N.cplx("b")), (N.cplx("a"), N.ZERO)):
        x, y = (dd2.E(dd2.TERM[kind], dd2.W(v, "cached") if v.t else dd2.ZERO) for v in (a, b))
        m = cxx.Machine(heap.hooks())
        want = heap.total(x, y, -1)
        same(vc, heap, m.invoke(body_of(m, "add2", kind), [x, y], heap), -1, want, "sum of numbers")
    vc.ok("sums")


for kd in ("m", "v"):
    @ob(P, f"C++ add2 of {'matrices' if kd == 'm' else 'states'}", [DDP + "add2"], bound="a line of dimension 2 or 3 over arbitrary diagrams of the lines below, six patterns of zero edges, weights one or arbitrary, one node or two, zero summands; recursive calls by contract",
        case="mi_embed", budget=150, fixed={"dims": [2, 3, 2]})
    def add_(vc, kd=kd):
        dd.guard(vc, lambda: adding(vc, kd))


@ob(P, "C++ conjugateTranspose", [DDP + "conjugateTranspose"], bound="a line of dimension 2 or 3 over arbitrary diagrams of the lines below, five patterns of zero edges, weights one or arbitrary; recursive calls by contract",
    case="mi_gate", budget=100, fixed={"gate": "csum", "dims": [2, 3], "control": 0, "target": 1, "dag": True})
def transpose(vc):
    def body():
        for ds, q in SHAPES:
            for pa in PAT:
                for wa, ws in (("one", "one"), ("table", "mixed"), ("one", "table")):
                    for scale in (1, 2):
                        heap = dd2.Heap(ds, scale)
                        x = dd2.E(node(heap, "m", q, "x", PAT[pa], ws), weight(wa, "wx"))
                        want = {(c, r): v.conjugate() for (r, c), v in heap.value(x, q).items()}
                        m = cxx.Machine(heap.hooks())
                        e = m.invoke(body_of(m, "conjugateTranspose", "m"), [x.cxx_copy()], heap)
                        same(vc, heap, e, q, want, f"{ds} {pa} {wa}/{ws}")
                        dd.need(e.w.state in ("const", "table"), "the weight of an operator is in the table")
                        for a, r in heap.inserted:
                            same(vc, heap, r, q, {(c, r_): v.conjugate() for (r_, c), v in heap.value(a, q).items()}, "entry of the table")
        heap = dd2.Heap((2,))
        for e in (dd2.zero("m"), dd2.E(dd2.TERM["m"], dd2.W(N.cplx("w"), "table"))):
            m = cxx.Machine(heap.hooks())
            same(vc, heap, m.invoke(body_of(m, "conjugateTranspose", "m"), [e], heap), -1, {k: v.conjugate() for k, v in heap.value(e, -1).items()}, "a number")
        vc.ok("adjoints")
    dd.guard(vc, body)


@ob(P, "C++ multiply", [DDP + "multiply"], bound="edges to any level with weight zero, one or arbitrary", case="mi_embed", fixed={"dims": [2, 3, 2]})
def multiply_top(vc):
    def body():
        for ds in ((2,), (2, 3), (3, 2)):
            for kind in ("m", "v"):
                for wa, wb in (("one", "table"), ("table", "one"), ("table", "table"), ("one", "one")):
                    heap = dd2.Heap(ds)
                    q = len(ds) - 1
                    x, y = dd2.E(fill(heap, "m", q, "x"), weight(wa, "wx")), dd2.E(fill(heap, kind, q, "y"), weight(wb, "wy"))
                    want = heap.product(x, y, q)
                    m = cxx.Machine(heap.hooks())
                    e = m.invoke(body_of(m, "multiply", kind), [x, y, 0], heap)
                    same(vc, heap, e, q, want, f"{ds} {kind}")
                    dd.need(e.w.state in ("const", "table"), "the weight of the product is in the table")
        vc.ok("products")
    dd.guard(vc, body)


@ob(P, "C++ getVector", [DDP + "getVector"], bound="up to three lines of dimensions 2 to 4, complete diagrams with arbitrary weights and with zero edges", case="mi_layout")
def get_vector(vc):
    def tree(heap, q, name, drop):
        if q < 0:
            return dd2.TERM["v"]
        edges = []
        for k in range(heap.dims[q]):
            key = f"{name}{k}"
            if drop(q, k):
                edges.append(dd2.zero("v"))
            else:
                edges.append(dd2.E(tree(heap, q - 1, key + ".", drop), dd2.ONE if k == 0 and q == 1 else dd2.W(N.cplx("w" + key), "table")))
        return dd2.Node("v", q, edges, heap.blocks("v", q, edges))

    def body():
        for ds in ((2,), (3,), (2, 3), (3, 2), (4, 3), (2, 3, 4), (4, 3, 2), (3, 2, 2), (2, 2, 3)):
            C.ctx().inputs.update(dims=list(ds))
            for drop in (lambda q, k: False, lambda q, k: q == 0 and k == 1, lambda q, k: q == len(ds) - 1 and k == 0, lambda q, k: q == 1 and k == 1):
                for w in ("one", "table"):
                    heap = dd2.Heap(ds)
                    q = len(ds) - 1
                    e = dd2.E(tree(heap, q, "", drop), weight(w, "top"))
                    want = heap.value(e, q)
                    m = cxx.Machine(heap.hooks())
                    f = [f for f in m.p.funcs["getVector"] if len(m.params(f)) == 1 and "vEdge" in f.t]
                    got = m.invoke(f[0], [e], heap)
                    vc.ensure(len(got) == prod(ds), "number of amplitudes")
                    for i in range(prod(ds)):
                        a, b = Num.lift(got[i]), want.get(i, N.ZERO)
                        if not (a - b).is_const_zero():
                            vc.ensure_eq(a, b, f"{ds}: amplitude {i}")
        vc.ok("amplitudes")
    dd.guard(vc, body)


# ------------------------------------------------------------------ C++ side: makeDDNode, normalize, checkSpecialMatrices
def cnum(a, b=0):
    return Num.lift(a) + N.I * Num.lift(b)


WEIGHTS = {"ones": [cnum(1), cnum(1), cnum(1)], "phases": [cnum(0, 1), cnum(-1), cnum(1)], "rising": [cnum(Fraction(1, 2)), cnum(0, -1), cnum(3, 4)], "falling": [cnum(2, 1), cnum(Fraction(1, 3), 1), cnum(Fraction(-1, 5))],
           "equal size": [cnum(Fraction(3, 5), Fraction(4, 5)), cnum(Fraction(-4, 5), Fraction(3, 5)), cnum(0, 1)], "zeros": [N.ZERO, cnum(2), N.ZERO], "first": [cnum(0, 2), N.ZERO, N.ZERO], "last": [N.ZERO, N.ZERO, cnum(1, 1)],
           "one and more": [cnum(1), N.ZERO, cnum(0, Fraction(1, 2))], "nothing": [N.ZERO, N.ZERO, N.ZERO]}


def child_weight(heap, v, cached):
    if not v.t:
        return dd2.ZERO
    return dd2.W(v, "cached") if cached else heap.looked_up(v)


@ob(P, "C++ makeDDNode of matrices", [DDP + "makeDDNode", DDP + "normalize", DDP + "checkSpecialMatrices"], bound="lines of dimension 2 and 3 over arbitrary diagrams below, ten patterns of weights (numbers), shared and different subdiagrams, borrowed or not",
    case="mi_embed", budget=150, fixed={"dims": [2, 3, 2]})
def node_m(vc):
    dd.guard(vc, lambda: made(vc, "m"))


@ob(P, "C++ makeDDNode of states", [DDP + "makeDDNode", DDP + "normalize"], bound="lines of dimension 2 and 3 over arbitrary diagrams below, ten patterns of weights (numbers), borrowed; not borrowed with one nonzero edge",
    case="mi_embed", budget=150, fixed={"dims": [2, 3, 2]})
def node_v(vc):
    dd.guard(vc, lambda: made(vc, "v"))


def made(vc, kind):
    for ds, q in SHAPES:
        d = ds[q]
        for name, ws in WEIGHTS.items():
            for shape in ("plain", "diagonal", "shared", "identity below", "symmetric below") if kind == "m" else ("plain", "shared"):
                for cached in (True, False):
                    heap = dd2.Heap(ds)
                    edges = []
                    common = fill(heap, kind, q - 1, "n")
                    if shape == "identity below" and q:
                        common = dd2.Node("m", q - 1, None, {(r, r): N.ONE for r in range(prod(ds[:q]))}, True)
                    if shape == "symmetric below" and q:
                        common = fill(heap, "m", q - 1, "n")
                        common.data = {(r, c): N.cplx(f"s{min(r, c)}.{max(r, c)}") for r, c in common.data}
                        common.symmetric = True
                    for k in range(d if kind == "v" else d * d):
                        w = ws[k % 3] if kind == "v" else ws[(k // d + 2 * (k % d)) % 3]
                        if shape == "diagonal":
                            w = ws[0] if k // d == k % d else N.ZERO
                        if shape in ("identity below", "symmetric below"):
                            w = ws[0] if k // d == k % d else ws[1] if name in ("zeros", "first") else N.ZERO if name != "phases" else ws[2]
                        e = dd2.E(common if shape != "plain" else fill(heap, kind, q - 1, f"n{k}."), child_weight(heap, w, cached))
                        edges.append(e if w.t else dd2.zero(kind))
                    if kind == "v" and not cached and sum(1 for e in edges if e.w is not dd2.ZERO) > 1:
                        continue    # only built from one edge in this program
                    flat = [e.node.var < 0 or bool(e.node.symmetric) for e in edges]
                    if kind == "m" and all(flat[k * d + k] for k in range(d)) and not all(flat):
                        continue    # precondition: transpose() cannot take a block that is not symmetric
                    want = heap.blocks(kind, q, edges)
                    m = cxx.Machine(heap.hooks("makeDDNode"))
                    e = m.invoke(body_of(m, "makeDDNode", kind), [q, edges, cached], heap)
                    lab = f"{ds} {name} {shape} {'borrowed' if cached else 'table'}"
                    same(vc, heap, e, q, want, lab)
                    if not want:
                        dd.need(e.w is dd2.ZERO, "the zero diagram")
                        continue
                    dd.need(e.w.state in (("const", "table", "cached") if cached else ("const", "table")), f"{lab}: the weight of the node is {e.w.state}")
                    dd.need(all(x.w.state in ("const", "table") for x in e.node.edges), f"{lab}: the weights in a node are in the table")
                    if kind == "m" and e.node.identity:
                        n = prod(ds[:q + 1])
                        one = heap.value(dd2.E(e.node, dd2.ONE), q)
                        dd.need(set(one) == {(i, i) for i in range(n)} and all((v - 1).is_const_zero() for v in one.values()), f"{lab}: a node is marked as the identity")
    vc.ok("nodes")


from contracts import c08n  # noqa: E402, F401  number layer and tables
