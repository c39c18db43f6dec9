"""C03: embedding of an arbitrary matrix at arbitrary lines, with and without controls."""
from __future__ import annotations

import itertools

from pyvc import arr as A
from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import FakeCircuit, fake_matrix, ob
from pyvc.num import Num

P = "C03"
MF = "quantum_circuit/components/extensions/matrix_factory.py:MatrixFactory."
FUNCS = [MF + "generate_matrix", MF + "apply_identities_and_controls", MF + "wrap_in_identities", "quantum_circuit/gate.py:Gate.to_matrix", "quantum_circuit/gate.py:Gate.reference_lines"]


def mods():
    return (loader.load("quantum_circuit.gate"), loader.load("quantum_circuit.components.extensions.gate_types").GateTypes,
            loader.load("quantum_circuit.components.extensions.controls").ControlData)


def any_gate(circ, targets, M, controls=None):
    gm, GT, CD = mods()

    class Any(gm.Gate):
        def __array__(self):
            return M.copy()
    k = 1 if isinstance(targets, int) else len(targets)
    dims = circ.dimensions[targets] if k == 1 and isinstance(targets, int) else [circ.dimensions[t] for t in targets]
    g = Any(circ, "any", GT.SINGLE if k == 1 else GT.TWO if k == 2 else GT.MULTI, targets, dims)
    if controls:
        g.control(list(controls[0]), list(controls[1]))
    return g


def digits(i, dims):
    out = []
    for d in reversed(dims):
        i, r = divmod(i, d)
        out.append(r)
    return out[::-1]


def spec(M, targets, dims, lines, controls=None, adj=False):
    """entry function over the lines (ascending) with dimensions dims"""
    T = sorted([targets] if isinstance(targets, int) else targets)
    pos = {q: k for k, q in enumerate(lines)}

    def f(r, c):
        a, b = digits(r, dims), digits(c, dims)
        if controls is not None:
            fire = all(a[pos[q]] == l and b[pos[q]] == l for q, l in zip(*controls))
            if not fire:
                return N.ONE if r == c else N.ZERO
        rest = [k for k, q in enumerate(lines) if q not in T]
        if any(a[k] != b[k] for k in rest):
            return N.ZERO
        ri = ci = 0
        for q in T:
            ri = ri * dims[pos[q]] + a[pos[q]]
            ci = ci * dims[pos[q]] + b[pos[q]]
        return Num.lift(M[ci, ri]).conjugate() if adj else M[ri, ci]
    return f


def compare(vc, got, f, n, label):
    vc.ensure(tuple(got.shape) == (n, n), label + ": shape")
    for r in range(n):
        for c in range(n):
            if not (Num.lift(got[r, c]) - f(r, c)).is_zero():
                vc.ensure_eq(got[r, c], f(r, c), f"{label}: entry {r},{c}")
    vc.ok(label)


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def run(vc, dims, targets, controls=None, dag=False, flags=(0, 1, 2)):
    T = [targets] if isinstance(targets, int) else list(targets)
    asc = sorted(T)
    m = prod(dims[t] for t in asc)
    M = fake_matrix("u", m)
    circ = FakeCircuit(dims)
    g = any_gate(circ, targets if isinstance(targets, int) else list(targets), M, controls)
    if dag:
        g.dag()
    lab = f"dims {list(dims)} targets {targets} controls {controls}{' dag' if dag else ''}"
    C.ctx().inputs.update(dims=list(dims), targets=targets if isinstance(targets, int) else list(targets), ctl=[list(controls[0]), list(controls[1])] if controls else None, dag=dag)
    used = T + (list(controls[0]) if controls else [])
    lo, hi = min(used), max(used)
    for flag in flags:
        if flag == 0 and not controls:
            lines = asc
        elif flag == 2:
            lines = list(range(len(dims)))
        else:
            lines = list(range(lo, hi + 1))
        got = g.to_matrix(flag)
        ds = [dims[q] for q in lines]
        compare(vc, got, spec(M, targets, ds, lines, controls, dag), prod(ds), f"{lab} identities={flag}")
    vc.ensure(circ.dimensions == list(dims), "the circuit is not changed")
    vc.ensure(g.target_qudits == (targets if isinstance(targets, int) else list(targets)), "the target list is not changed")


DIMS = {1: [(2,), (3,), (5,)], 2: [(2, 3), (3, 2), (2, 2), (4, 3)], 3: [(2, 3, 4), (3, 2, 2), (2, 2, 3), (4, 2, 3)], 4: [(2, 3, 2, 3), (3, 2, 2, 2), (2, 2, 3, 2)]}

for n in (1, 2, 3, 4):
    for k in range(1, n + 1):
        if n == 4 and k in (3, 4):
            groups = [d for d in DIMS[4][1:]]
        else:
            groups = DIMS[n]
        for ds in groups:
            @ob(P, f"embed.{k} of {n}.{'x'.join(map(str, ds))}", FUNCS, bound=f"{n} lines of dimensions {ds}, every ordered choice of {k} targets, arbitrary matrix", case="embed", budget=120)
            def embed(vc, n=n, k=k, ds=ds):
                for T in itertools.permutations(range(n), k):
                    run(vc, ds, list(T))
                    if k == 1:
                        run(vc, ds, T[0])
                if k <= 2:
                    run(vc, ds, list(range(k)), dag=True)

for n in (2, 3, 4):
    for ds in DIMS[n]:
        @ob(P, f"controlled.{n}.{'x'.join(map(str, ds))}", FUNCS + ["quantum_circuit/gate.py:Gate.control"], bound=f"{n} lines of dimensions {ds}, every target and ordered control list, arbitrary matrix", case="embed", budget=150)
        def controlled(vc, n=n, ds=ds):
            for t in range(n):
                others = [q for q in range(n) if q != t]
                for k in range(1, n):
                    for cs in itertools.permutations(others, k):
                        if n == 4 and list(cs) != sorted(cs) and k == 2:
                            levels = [[ds[c] - 1 for c in cs]]
                        elif n == 4:
                            levels = [[(c + 1) % ds[c] for c in cs], [ds[c] - 1 for c in cs]][: 1 if k == 3 else 2]
                        else:
                            levels = list(itertools.product(*[range(ds[c]) for c in cs]))
                        for ls in levels:
                            run(vc, ds, t, (list(cs), list(ls)), flags=(0, 2) if n > 2 else (0, 1, 2))
            run(vc, ds, 0, ([n - 1], [1]), dag=True)


@ob(P, "controlled custom target list", FUNCS, bound="three lines, single target given as a list", case="embed")
def listed(vc):
    for t in range(3):
        run(vc, (2, 3, 2), [t])


def radix(v, ds):
    r = N.ZERO
    for x, d in zip(v, ds):
        r = r * d + x
    return r


for n in (1, 2, 3, 4, 5):
    @ob(P, f"wrap_in_identities, any dimensions.{n}", [MF + "wrap_in_identities"], bound=f"{n} line(s), every range of lines; arbitrary dimensions, arbitrary matrix on the range", case="embed", budget=100, tier="quick" if n < 5 else "thorough")
    def wrap(vc, n=n):
        """the matrix of lines lo to hi, embedded: the identity on the lines before and after them"""
        _, _, _ = mods()
        cls = loader.load("quantum_circuit.components.extensions.matrix_factory").MatrixFactory
        ds = [vc.int(f"d{q}_", 2) for q in range(n)]
        ranges = [(lo, hi, given) for lo in range(n) for hi in range(lo, n) for given in ([lo, hi] if hi > lo else [lo], [hi, lo], list(range(lo, hi + 1)))]
        lo, hi, given = ranges[vc.choose("range", len(ranges))]
        size = Num.lift(prod(ds[lo:hi + 1]))
        M = A.SArr((size, size), lambda i, j: Num.opaque("m_re", C.ctx().norm(Num.lift(i)), C.ctx().norm(Num.lift(j))) + N.I * Num.opaque("m_im", C.ctx().norm(Num.lift(i)), C.ctx().norm(Num.lift(j))))
        lines, sizes = list(given), list(ds)
        got = cls.wrap_in_identities(M, lines, sizes)
        vc.ensure(len(sizes) == n and all(a is b for a, b in zip(sizes, ds)), "the dimensions are not changed")
        vc.ensure(len(got.shape) == 2 and all((Num.lift(x) - prod(ds)).is_zero() for x in got.shape), f"{lo} to {hi}: shape")
        a, b = [], []
        for q in range(n):
            for v in (a, b):
                x = vc.int(C.ctx().fresh("x"), 0)
                vc.assume(x < ds[q])
                v.append(x)
        same = all(bool(a[q] == b[q]) for q in range(n) if q < lo or q > hi)
        want = M.at(radix(a[lo:hi + 1], ds[lo:hi + 1]), radix(b[lo:hi + 1], ds[lo:hi + 1])) if same else N.ZERO
        vc.ensure_eq(got[radix(a, ds), radix(b, ds)], want, f"{lo} to {hi}: identity on the other lines")


def sym_digits(vc, name, ds):
    out = []
    for q, d in enumerate(ds):
        x = vc.int(f"{name}{q}_", 0)
        vc.assume(x < d)
        out.append(x)
    return out


def radix_unique(a, b, ds):
    """instances of the lemmas `unique digits` and `index range` for the digit strings a and b: equal indices have equal digits"""
    z, zr = C.z3, C.zreal
    for v in (a, b):
        for k in range(1, len(ds) + 1):
            C.ctx().add(z.And(zr(Num.lift(radix(v[:k], ds[:k]))) >= 0, zr(Num.lift(radix(v[:k], ds[:k]))) < zr(Num.lift(prod(ds[:k])))))
    for k in range(1, len(ds)):
        x, y = Num.lift(radix(a[:k], ds[:k])), Num.lift(radix(b[:k], ds[:k]))
        C.ctx().add(z.Implies(zr(x * ds[k] + a[k]) == zr(y * ds[k] + b[k]), z.And(zr(x) == zr(y), zr(Num.lift(a[k])) == zr(Num.lift(b[k])))))


@ob(P, "lemma: index range", [], case="embed")
def index_range(vc):
    """0 <= q < n and 0 <= x < d imply 0 <= q d + x < n d"""
    d, q, t, x = vc.int("d", 1), vc.int("q", 0), vc.int("t", 0), vc.int("x", 0)
    vc.assume(x < d)
    n = q + 1 + t
    vc.ensure(q * d >= 0, "product of non-negative numbers")
    vc.ensure(t * d >= 0, "product of non-negative numbers")
    vc.ensure(q * d + x >= 0, "not negative")
    vc.ensure(q * d + x < n * d, "below the size")


@ob(P, "lemma: unique digits", [], case="embed")
def unique_digits(vc):
    """q d + x = q' d + x' with 0 <= x, x' < d implies q = q' and x = x'"""
    d, q, t, x, y = vc.int("d", 1), vc.int("q"), vc.int("t", 0), vc.int("x", 0), vc.int("y", 0)
    vc.assume(x < d)
    vc.assume(y < d)
    # either the quotients agree, or without loss of generality q' = q + 1 + t
    vc.ensure(t * d >= 0, "product of non-negative numbers")
    vc.ensure((q + 1 + t) * d + y > q * d + x, "a larger quotient gives a larger index")


def any_matrix(ds):
    size = Num.lift(prod(ds))
    return A.SArr((size, size), lambda i, j: Num.opaque("m_re", C.ctx().norm(Num.lift(i)), C.ctx().norm(Num.lift(j))) + N.I * Num.opaque("m_im", C.ctx().norm(Num.lift(i)), C.ctx().norm(Num.lift(j))))


def cases(n):
    """(targets, controls) on n lines: every set of targets without controls, in one other order too; every single target with every set of controls, ascending and descending (only single-qudit gates can be controlled)"""
    out = []
    for k in range(1, n + 1):
        for T in itertools.combinations(range(n), k):
            out.append((list(T), None))
            if k > 1:
                out.append((list(T)[1:] + [T[0]], None))
    for T in [[t] for t in range(n)]:
        for k in range(1, n - len(T) + 1):
            for cs in itertools.combinations([q for q in range(n) if q not in T], k):
                out.append((T, list(cs)))
                if k > 1:
                    out.append((T, list(cs)[::-1]))
    return out


for n in (1, 2, 3, 4):
    for num, (T, cs) in enumerate(cases(n)):
        @ob(P, f"embed, any dimensions.{n}.{''.join(map(str, T))}{'' if cs is None else ' controlled by ' + ''.join(map(str, cs))}", FUNCS + ([] if cs is None else ["quantum_circuit/gate.py:Gate.control"]),
            bound=f"{n} line(s); arbitrary dimensions, control levels and matrix", case="embed", budget=100 if n < 4 else 500, tier="quick" if n < 4 or cs is None and max(T) - min(T) < len(T) else "thorough")
        def embed_any(vc, n=n, T=T, cs=cs):
            ds = [vc.int(f"d{q}_", 2) for q in range(n)]
            asc = sorted(T)
            M = any_matrix([ds[t] for t in asc])
            circ = FakeCircuit(ds)
            ctl = None
            if cs is not None:
                levels = []
                for q in cs:
                    l = vc.int(f"l{q}_", 0)
                    vc.assume(l < ds[q])
                    levels.append(l)
                ctl = (cs, levels)
            g = any_gate(circ, T[0] if n < 3 and len(T) == 1 else list(T), M, ctl)
            dag = n < 3 and vc.choose("dag", 2)
            if dag:
                g.dag()
            used = T + (cs or [])
            for flag in [vc.choose("identities", 3)]:
                lines = asc if flag == 0 and cs is None else list(range(n)) if flag == 2 else list(range(min(used), max(used) + 1))
                got = g.to_matrix(flag)
                dl = [ds[q] for q in lines]
                vc.ensure(len(got.shape) == 2 and all((Num.lift(x) - prod(dl)).is_zero() for x in got.shape), f"identities={flag}: shape")
                a, b = sym_digits(vc, f"a{flag}", dl), sym_digits(vc, f"b{flag}", dl)
                radix_unique(a, b, dl)
                pos = {q: k for k, q in enumerate(lines)}
                fire = ctl is None or all(bool(a[pos[q]] == l) and bool(b[pos[q]] == l) for q, l in zip(*ctl))
                rest = [k for k, q in enumerate(lines) if q not in asc]
                if not fire:
                    want = N.ONE if all(bool(x == y) for x, y in zip(a, b)) else N.ZERO
                elif all(bool(a[k] == b[k]) for k in rest):
                    i, j = (radix([v[pos[q]] for q in asc], [ds[q] for q in asc]) for v in (a, b))
                    want = M.at(j, i).conjugate() if dag else M.at(i, j)
                else:
                    want = N.ZERO
                vc.ensure_eq(got[radix(a, dl), radix(b, dl)], want, f"identities={flag}: entry")
            vc.ensure(len(circ.dimensions) == n and all(x is y for x, y in zip(circ.dimensions, ds)), "the circuit is not changed")
