"""C12: the two-qudit building blocks and the entangled QR decomposition.

The blocks are proved for arbitrary dimensions: the gates they emit act on a handful of levels, by their contracts (C01) as the identity on all others, so the product is taken
on the levels named and one further level of each qudit.  Levels are symbolic; which of them coincide is decided by the path."""
from __future__ import annotations

import itertools
import types

import numpy as np

from pyvc import arr as A
from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import FakeCircuit, ob
from pyvc.builtins_ import fl
from pyvc.num import Num

from . import spec
from .c11 import dag, eye, mul, regs, restore, same
from .c15 import matrix as gate_matrix
from .ghost import Ghost, NP, lazy

P = "C12"
CR = "compiler/twodit/blocks/crot.py:CRotGen."
PS = "compiler/twodit/blocks/pswap.py:PSwapGen."
CZ = "compiler/twodit/blocks/czrot.py:CZRotGen."
QR = "compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py:"


def load(f):
    return loader.load(f.split(".py")[0].replace("/", "."))


def angle(vc, name):
    return fl(vc.angle(name))


def block(g):
    """a gate on one qudit by its contract: its levels (ascending for two) and the matrix on them"""
    G = loader.load("quantum_circuit.gates")
    if isinstance(g, G.VirtRz):
        lev, f = [g.lev_a], spec.virtrz(2, 0, Num.lift(g.phi))
    else:
        lo, hi = spec.order(g.lev_a, g.lev_b)
        lev = [lo, hi]
        if isinstance(g, G.Rz):
            f = spec.rz(2, 0, 1, Num.lift(g.phi))
        elif isinstance(g, G.Rh):
            f = spec.rh(2, 0, 1)
        elif isinstance(g, G.R):
            f = spec.r(2, 0, 1, Num.lift(g.theta), Num.lift(g.phi))
        else:
            raise AssertionError(f"a block emits a gate of type {type(g).__name__}")
    m = [[Num.lift(f(i, j)) for j in range(len(lev))] for i in range(len(lev))]
    if g.dagger:
        m = [[m[j][i].conjugate() for j in range(len(lev))] for i in range(len(lev))]
    return lev, m


def cex_block(g):
    a, b, lc, ang = g._params
    e = N.num_exp(N.I * Num.lift(ang))
    m = [[N.ZERO, -N.I * e.conjugate()], [-N.I * e, N.ZERO]]
    if g.dagger:
        m = [[m[j][i].conjugate() for j in range(2)] for i in range(2)]
    return lc, [a, b], m


class Levels:
    """the levels of one qudit that matter; the last index stands for any other level"""

    def __init__(self):
        self.reps = []

    def __call__(self, x):
        for k, r in enumerate(self.reps):
            if A.eqi(x, r):
                return k
        self.reps.append(x)
        return len(self.reps) - 1


def product(vc, gates, ctrl, tgt, dims, named):
    """the product of the gates over (level of the control, level of the target)"""
    G = loader.load("quantum_circuit.gates")
    lev = {ctrl: Levels(), tgt: Levels()}
    for q, xs in named.items():
        for x in xs:
            lev[q](x)
    ops = []
    for g in gates:
        vc.ensure(g.control_info["controls"] is None, "gates without controls")
        if isinstance(g, G.CEx):
            vc.ensure(list(g.target_qudits) == [ctrl, tgt] and all(bool(Num.lift(a) == b) for a, b in zip(g.dimensions, [dims[ctrl], dims[tgt]])), "the entangling gate is on the two qudits")
            lc, ls, m = cex_block(g)
            ops.append((tgt, [lev[tgt](x) for x in ls], m, lev[ctrl](lc)))
        else:
            q = g.target_qudits
            vc.ensure(q in (ctrl, tgt) and bool(Num.lift(g.dimensions) == dims[q]), "gates on the two qudits, with their dimensions")
            ls, m = block(g)
            for x in ls:
                vc.ensure(Num.lift(x) < dims[q], "the levels exist")
            ops.append((q, [lev[q](x) for x in ls], m, None))
    nc, nt = len(lev[ctrl].reps) + 1, len(lev[tgt].reps) + 1
    u = {(c, t): {(c, t): N.ONE} for c in range(nc) for t in range(nt)}        # rows
    for q, ls, m, lc in ops:
        for o in [lc] if lc is not None else range(nc if q == tgt else nt):
            keys = [(o, x) if q == tgt else (x, o) for x in ls]
            rows = [u[k] for k in keys]
            for i, k in enumerate(keys):
                new = {}
                for j, row in enumerate(rows):
                    if m[i][j].is_zero():
                        continue
                    for col, v in row.items():
                        new[col] = new.get(col, N.ZERO) + m[i][j] * v
                u[k] = {col: C.fold(v) for col, v in new.items() if not v.is_zero()}
    return u, lev[ctrl], lev[tgt], nc, nt


def expect_two_level(vc, got, s0, s1, m, label):
    """the product is m on the states s0, s1 and the identity on all others"""
    u, lc, lt, nc, nt = got
    states = list(itertools.product(range(nc), range(nt)))
    for r in states:
        for c in states:
            if r in (s0, s1) and c in (s0, s1):
                want = m[(s0, s1).index(r)][(s0, s1).index(c)]
            else:
                want = N.ONE if r == c else N.ZERO
            v = u[r].get(c, N.ZERO)
            if not (v - want).is_zero():
                vc.ensure_eq(v, want, f"{label}: entry {r},{c}")
    vc.ok(label)


def rot(t, p):
    c, s = N.num_cos(Num.lift(t) / 2), N.num_sin(Num.lift(t) / 2)
    e = N.num_exp(N.I * Num.lift(p))
    return [[c, -N.I * s * e.conjugate()], [-N.I * s * e, c]]


def zrot(t):
    e = N.num_exp(N.I * Num.lift(t) / 2)
    return [[e.conjugate(), N.ZERO], [N.ZERO, e]]


class Blocks:
    """two qudits of arbitrary dimension, the block generators on them"""

    def __init__(self, vc, rev):
        self.vc = vc
        self.dc, self.dt = vc.int("dc", 2), vc.int("dt", 2)
        self.q = [2, 0] if rev else [0, 2]
        dims = [None, vc.int("dm", 2), None]
        dims[self.q[0]], dims[self.q[1]] = self.dc, self.dt
        self.dims = dims
        self.c = FakeCircuit(dims)
        self.regs = regs()

    def gen(self, f, cls):
        return getattr(load(f), cls)(self.c, list(self.q))

    def product(self, gates, cl=(), tl=()):
        ctrl, tgt = self.q
        return product(self.vc, gates, ctrl, tgt, self.dims, {ctrl: list(cl), tgt: list(tl)})

    def position(self, last):
        """a position: q0 * dt + q1, the next one in the same block of the control or in the next one"""
        vc = self.vc
        q0, q1 = vc.int("q0", 0), self.dt - 1 if last else vc.int("q1", 0)
        if last:
            vc.assume(q0 + 1 < self.dc)
        else:
            vc.assume(q0 < self.dc)
            vc.assume(q1 < self.dt - 1)
        return q0, q1, q0 * self.dt + q1

    def close(self):
        restore(self.regs)


for rev in (False, True):
    o = "descending" if rev else "ascending"

    @ob(P, f"crot_101.{o}", [CR + "__init__", CR + "crot_101_as_list"], case="blocks", fixed={"kind": "crot", "rev": rev}, budget=200)
    def crot101(vc, rev=rev):
        """the rotation on levels 0 and 1 of the target if the control is in level 1, for every angle and dimension"""
        b = Blocks(vc, rev)
        try:
            t, p = angle(vc, "theta"), angle(vc, "phi")
            got = b.product(b.gen(CR, "CRotGen").crot_101_as_list(t, p), [1], [0, 1])
            c1 = got[1](1)
            expect_two_level(vc, got, (c1, got[2](0)), (c1, got[2](1)), rot(t, p), "the controlled rotation")
        finally:
            b.close()

    @ob(P, f"crot.{o}", [CR + "permute_crot_101_as_list", CR + "crot_101_as_list"], case="blocks", fixed={"kind": "crot", "rev": rev}, budget=300)
    def crot(vc, rev=rev):
        """the rotation of the states at a position and the next one, within one level of the control"""
        b = Blocks(vc, rev)
        try:
            t, p = angle(vc, "theta"), angle(vc, "phi")
            q0, q1, i = b.position(False)
            got = b.product(b.gen(CR, "CRotGen").permute_crot_101_as_list(i, t, p), [q0], [q1, q1 + 1])
            c = got[1](q0)
            expect_two_level(vc, got, (c, got[2](q1)), (c, got[2](q1 + 1)), rot(t, p), "the rotation of two neighbouring states")
        finally:
            b.close()

    @ob(P, f"pswap.{o}", [PS + "__init__", PS + "permute_pswap_101_as_list", PS + "pswap_101_as_list_no_phases", PS + "pswap_101_as_list_phases"], case="blocks", fixed={"kind": "pswap", "rev": rev}, budget=400)
    def pswap(vc, rev=rev):
        """the rotation of the last state of a level of the control and the first of the next one"""
        b = Blocks(vc, rev)
        try:
            t, p = angle(vc, "theta"), angle(vc, "phi")
            q0, q1, i = b.position(True)
            got = b.product(b.gen(PS, "PSwapGen").permute_pswap_101_as_list(i, t, p), [q0, q0 + 1], [q1, 0])
            expect_two_level(vc, got, (got[1](q0), got[2](q1)), (got[1](q0 + 1), got[2](0)), rot(t, p), "the rotation of two neighbouring states")
        finally:
            b.close()

    @ob(P, f"czrot.crot.{o}", [CZ + "__init__", CZ + "z_from_crot_101_list", CR + "permute_crot_101_as_list"], case="blocks", fixed={"kind": "zcrot", "rev": rev}, budget=400)
    def zcrot(vc, rev=rev):
        """opposite phases on the states at a position and the next one, within one level of the control"""
        b = Blocks(vc, rev)
        try:
            t = angle(vc, "theta")
            q0, q1, i = b.position(False)
            got = b.product(b.gen(CZ, "CZRotGen").z_from_crot_101_list(i, t), [q0], [q1, q1 + 1])
            c = got[1](q0)
            expect_two_level(vc, got, (c, got[2](q1)), (c, got[2](q1 + 1)), zrot(t), "opposite phases on two neighbouring states")
        finally:
            b.close()

    @ob(P, f"czrot.pswap.{o}", [CZ + "__init__", CZ + "z_pswap_101_as_list", PS + "permute_pswap_101_as_list"], case="blocks", fixed={"kind": "zpswap", "rev": rev}, budget=400)
    def zpswap(vc, rev=rev):
        """opposite phases on the last state of a level of the control and the first of the next one"""
        b = Blocks(vc, rev)
        try:
            t = angle(vc, "theta")
            q0, q1, i = b.position(True)
            got = b.product(b.gen(CZ, "CZRotGen").z_pswap_101_as_list(i, t), [q0, q0 + 1], [q1, 0])
            expect_two_level(vc, got, (got[1](q0), got[2](q1)), (got[1](q0 + 1), got[2](0)), zrot(t), "opposite phases on two neighbouring states")
        finally:
            b.close()


# ------------------------------------------------------------------ the entangled QR decomposition

class Block:
    """what a block generator returns by its contract: a matrix on the states i and i + 1"""

    def __init__(self, n, i, m):
        self.gate_type = loader.load("quantum_circuit.components.extensions.gate_types").GateTypes.TWO
        self.m = eye(n)
        for a, b in itertools.product(range(2), range(2)):
            self.m[i + a, i + b] = m[a][b]

    def to_matrix(self, identities=0):
        return self.m


class TwoGate:
    def __init__(self, u, lines, dims):
        self.u, self.target_qudits, self.parent_circuit = u, list(lines), FakeCircuit(dims)
        self.reference_lines = list(lines)
        self.dimensions = [dims[q] for q in lines]
        self.gate_type = loader.load("quantum_circuit.components.extensions.gate_types").GateTypes.TWO

    def to_matrix(self, identities=0):
        return self.u


def generators(vc, gate, dt, n):
    """the block generators by the contracts proved above"""
    calls = []

    class Gen:
        def __init__(self, circuit, indices):
            vc.ensure(circuit is gate.parent_circuit and list(indices) == sorted(gate.reference_lines), "blocks on the lines of the gate, in the order of its matrix")

        def add(self, i, m, last):
            i = A.as_index(i)
            vc.ensure(isinstance(i, int) and 0 <= i < n - 1 and ((i + 1) % dt == 0) == last, "the block acts within one level of the control, or between two of them")
            calls.append((i, last))
            return [Block(n, i, m)]

    class Crot(Gen):
        def permute_crot_101_as_list(self, i, theta, phase):
            return self.add(i, rot(theta, phase), False)

    class Pswap(Gen):
        def permute_pswap_101_as_list(self, pos, theta, phase, with_phase=False):
            vc.ensure(not with_phase, "the rotation without phases")
            return self.add(pos, rot(theta, phase), True)

    class Czrot(Gen):
        def z_from_crot_101_list(self, i, phase):
            return self.add(i, zrot(phase), False)

        def z_pswap_101_as_list(self, i, phase):
            return self.add(i, zrot(phase), True)
    return Crot, Pswap, Czrot, calls


def ent_qr(vc, dims, lines, zeros, pattern):
    m = load(QR)
    a, b = sorted(lines)
    dt, n = dims[b], dims[a] * dims[b]
    u = lazy(vc, n, zeros == "one")
    if zeros == "none":
        u.reads = [0, -1]
    # the phases left: differences of the halves of the phases of the blocks, and a global phase
    x = []
    for i in range(n - 1):
        v = N.ZERO
        if pattern[i]:
            v = vc.real(f"x{i}_")
            vc.assume(v > N.ONE / 100)
            v = v if pattern[i] > 0 else -v
        x.append(v)
    mu = vc.real("mu")
    delta = [mu + (x[i] if i < n - 1 else N.ZERO) - (x[i - 1] if i else N.ZERO) for i in range(n)]
    proxy = NP(m.np, vc, u, delta)
    gate = TwoGate(u, lines, dims)
    crot_, pswap_, czrot_, calls = generators(vc, gate, dt, n)
    old = {k: vars(m).get(k) for k in ("np", "CRotGen", "PSwapGen", "CZRotGen", "round", "pi_mod")}
    try:
        m.np, m.CRotGen, m.PSwapGen, m.CZRotGen = proxy, crot_, pswap_, czrot_
        m.round = lambda y, k=0: y               # FLOAT: rounding is exact
        m.pi_mod = lambda y: fl(Num.lift(y) + 2 * N.PI * Num.var(C.ctx().fresh("turns"), "int"))
        e = m.EntangledQRCEX(gate)
        got = e.execute()[0]
    finally:
        for k, v in old.items():
            if v is None:
                vars(m).pop(k, None)
            else:
                setattr(m, k, v)
    vc.ensure(e.decomposition is got, "the decomposition is kept")
    h = proxy.final.history
    vc.ensure(len(got) >= len(h) and all(g.m is y for g, y in zip(got, h)), "the sequence begins with the rotations the matrix was reduced with, in their order")
    ph = [N.ONE] * n
    for g in got[len(h):]:
        for i, j in itertools.product(range(n), range(n)):
            if i != j:
                vc.ensure(Num.lift(g.m[i, j]).is_zero(), "phases follow")
        ph = [p * g.m[i, i] for i, p in enumerate(ph)]
    for i in range(n):
        vc.ensure_eq(ph[i] * N.num_exp(N.I * delta[i]), N.num_exp(N.I * mu), "the phases undo the diagonal, up to a global phase")


SIZES = [([2, 2], "none", "quick"), ([2, 2], "one", "quick"), ([2, 2], "every", "thorough"), ([2, 3], "one", "quick"), ([3, 2], "one", "quick"), ([3, 3], "none", "quick"), ([2, 4], "none", "quick"), ([4, 2], "none", "thorough"),
         ([3, 3], "one", "thorough"), ([3, 4], "none", "thorough"), ([4, 4], "none", "thorough")]
for dims, zeros, tier in SIZES:
    t = {"every": "every pattern of zeros", "one": "at most one zero among the entries read", "none": "no zero among the entries read"}[zeros]

    @ob(P, f"EntangledQRCEX.execute.{dims}.{zeros}", [QR + "EntangledQRCEX.__init__", QR + "EntangledQRCEX.execute"], case="entqr", tier=tier, budget=600,
        bound=f"dimensions {dims}; arbitrary unitary, {t}; phases nonzero, or one of them zero")
    def execute(vc, dims=dims, zeros=zeros):
        """the rotations reduce the matrix to a diagonal, the phases undo the diagonal: the sequence inverts the matrix up to a global phase"""
        n = dims[0] * dims[1]
        rev = vc.choose("descending", 2)
        k = vc.choose("pattern", n + 1) if zeros == "none" else n - 1
        full = [dims[0], 5, dims[1]]
        ent_qr(vc, full, [2, 0] if rev else [0, 2], zeros, [0 if i == k or k == n else 1 - 2 * ((i + k) % 2) for i in range(n - 1)])


@ob(P, "get_gate_matrix", [QR + "EntangledQRCEX.get_gate_matrix", "compiler/compilation_minitools:on0", "compiler/compilation_minitools:on1"], case="entqr", bound="dimensions 2 to 4, arbitrary matrices")
def get_matrix(vc):
    """a gate on one of the two qudits acts on its factor"""
    from pyvc.api import fake_matrix
    m = load(QR)
    GT = loader.load("quantum_circuit.components.extensions.gate_types").GateTypes
    for d0, d1 in itertools.product((2, 3, 4), repeat=2):
        for k in (0, 1):
            d = (d0, d1)[k]
            x = np.asarray(fake_matrix("m", d), dtype=object)
            g = types.SimpleNamespace(gate_type=GT.SINGLE, target_qudits=(1, 3)[k], to_matrix=lambda identities=0, x=x: x)
            y = m.EntangledQRCEX.get_gate_matrix(g, [1, 3], [d0, d1])
            vc.ensure(tuple(y.shape) == (d0 * d1, d0 * d1), "the shape")
            for i, j in itertools.product(range(d0 * d1), repeat=2):
                (a, b), (a2, b2) = divmod(i, d1), divmod(j, d1)
                w = (x[a, a2] if b == b2 else N.ZERO) if k == 0 else (x[b, b2] if a == a2 else N.ZERO)
                vc.ensure((Num.lift(y[i, j]) - w).is_zero(), "the gate on its factor")
        x = np.asarray(fake_matrix("m", d0 * d1), dtype=object)
        g = types.SimpleNamespace(gate_type=GT.TWO, target_qudits=[1, 3], to_matrix=lambda identities=0, x=x: x)
        y = m.EntangledQRCEX.get_gate_matrix(g, [1, 3], [d0, d1])
        same(vc, np.asarray(y, dtype=object), x, "a gate on both qudits")


@ob(P, "LogEntQRCEXPass.transpile_gate", [QR + "LogEntQRCEXPass.transpile_gate"], case="entqr", bound="dimensions 3 and 3, a sequence of the gates blocks are made of, with arbitrary angles")
def transpile_gate(vc):
    """the decomposition inverts the gate; the pass returns its inverse"""
    m = load(QR)
    old = m.EntangledQRCEX
    rg = regs()
    try:
        G = loader.load("quantum_circuit.gates")
        dims = {0: 3, 1: 3}
        c = FakeCircuit([3, 3])
        found = [G.R(c, "R", 0, [0, 1, angle(vc, "t0"), angle(vc, "f0")], 3), G.CEx(c, "CEx", [0, 1], None, [3, 3], None), G.VirtRz(c, "V", 1, [0, angle(vc, "v")], 3),
                 G.R(c, "R", 1, [2, 1, angle(vc, "t1"), angle(vc, "f1")], 3).dag(), G.Rz(c, "Rz", 1, [0, 1, angle(vc, "z")], 3), G.Rh(c, "Rh", 0, [0, 1], 3)]
        found.insert(3, found[1])               # one object twice
        gate = object()

        class E:
            def __init__(self, g):
                vc.ensure(g is gate, "the gate is decomposed")

            def execute(self):
                return list(found), 1, 2
        m.EntangledQRCEX = E
        before = [g.dagger for g in found]
        got = m.LogEntQRCEXPass.transpile_gate(gate)
        vc.ensure([g.dagger for g in found] == before, "the gates of the decomposition are not modified")
        named = {0: [0, 1, 2], 1: [0, 1, 2]}
        u = product(vc, [*found, *got], 0, 1, dims, named)[0]
        for r, row in u.items():
            for k, v in row.items():
                vc.ensure_eq(v, N.ONE if k == r else N.ZERO, "the sequence returned is the inverse of the decomposition")
    finally:
        m.EntangledQRCEX = old
        restore(rg)


@ob(P, "LogEntQRCEXPass.transpile", [QR + "LogEntQRCEXPass.transpile"], case="entqr", bound="circuits of at most four gates on three lines")
def transpile(vc):
    """every two-qudit gate is replaced by its sequence at its place, every other gate stays, the circuit is not modified"""
    from .c14 import gates_of, same_seq, words
    m = load(QR)
    if "gc" in vars(m):
        m.gc = types.SimpleNamespace(collect=lambda: 0)
    qc = loader.load("quantum_circuit.circuit").QuantumCircuit
    for w in words(4, [(0,), (1,), (0, 1), (2, 0), (0, 1, 2)]):
        for shared in (False, True):
            gs = gates_of(w, shared)
            c = qc(3, [2, 3, 2], 0)
            c.set_instructions(gs)
            p = m.LogEntQRCEXPass(types.SimpleNamespace(energy_level_graphs=[1, 2, 3]))
            calls = []

            def gate(g):
                calls.append(g)
                return [(g, k) for k in range(len(calls) % 3)]
            p.transpile_gate = gate
            t = p.transpile(c)
            want, n = [], 0
            for g in gs:
                if len(g.lines) != 2:
                    want.append(g)
                else:
                    n += 1
                    want += [(g, k) for k in range(n % 3)]
            vc.ensure(t is not c and same_seq(c.instructions, gs) and c.number_gates == len(gs), "the circuit is not modified")
            vc.ensure(len(t.instructions) == len(want) and all(x == y if isinstance(x, tuple) else x is y for x, y in zip(t.instructions, want)), "every two-qudit gate is replaced at its place")
            vc.ensure(t.number_gates == len(want), "the gate count")


@ob(P, "EntangledQRCEX.matrix", [QR + "EntangledQRCEX.__init__"], case="entqr", bound="dimensions 2 and 3, up to two lines between, arbitrary matrices of the two lines; matrix with or without the lines between")
def init(vc):
    """the matrix decomposed is the one of the two lines: the matrix of a gate with a control includes the lines between, on which it is the identity (C03)"""
    from pyvc.api import fake_matrix
    m = load(QR)
    for d0, d1, mid in itertools.product((2, 3), (2, 3), ([], [2], [3], [2, 3])):
        n, k = d0 * d1, int(np.prod(mid, dtype=int))
        x = np.asarray(fake_matrix("m", n), dtype=object)
        big = np.empty((n * k, n * k), dtype=object)
        big.fill(N.ZERO)
        for a, c, b, a2, b2 in itertools.product(range(d0), range(k), range(d1), range(d0), range(d1)):
            big[(a * k + c) * d1 + b, (a2 * k + c) * d1 + b2] = x[a * d1 + b, a2 * d1 + b2]
        dims = [5, d0, *mid, d1]
        last = len(dims) - 1
        for u in [x] + ([big] if mid else []):
            for lines in ([1, last], [last, 1]):
                e = m.EntangledQRCEX(TwoGate(u, lines, dims))
                vc.ensure(list(e.dimensions) == [d0, d1] and list(e.qudit_indices) == [1, last], "lines and dimensions in the order of the matrix")
                vc.ensure(tuple(e.u.shape) == (n, n), "the matrix of the two lines")
                same(vc, np.asarray(e.u, dtype=object), x, "the matrix of the two lines")
