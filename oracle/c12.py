"""C12 at run time: the two-qudit blocks and the entangled QR decomposition on random angles, dimensions and unitaries."""
from __future__ import annotations

import math

import numpy as np

from .base import SEARCHES, case, expect, gen
from .c09 import KINDS, unitary
from .comp import deviation, quiet
from .sim import gate_unitary, snapshot


def rot(n, i, t, p):
    m = np.eye(n, dtype=complex)
    m[i, i] = m[i + 1, i + 1] = math.cos(t / 2)
    m[i, i + 1] = -1j * math.sin(t / 2) * np.exp(-1j * p)
    m[i + 1, i] = -1j * math.sin(t / 2) * np.exp(1j * p)
    return m


def zrot(n, i, t):
    m = np.eye(n, dtype=complex)
    m[i, i], m[i + 1, i + 1] = np.exp(-1j * t / 2), np.exp(1j * t / 2)
    return m


def embed(m, dims, q):
    """m on the lines q (the first one is the more significant), on all lines"""
    a = [dims[x] for x in q]
    n = int(np.prod(dims))
    u = np.eye(n, dtype=complex).reshape(*dims, n)
    return np.moveaxis(np.tensordot(m.reshape(*a, *a), u, axes=((2, 3), q)), (0, 1), q).reshape(n, n)


def product(c, gates):
    u = np.eye(int(np.prod(c.dimensions)), dtype=complex)
    for g in gates:
        u = gate_unitary(list(c.dimensions), g) @ u
    return u


SEARCHES.update(entqr=100, entqr_circuit=100)


@case("blocks")
def blocks(kind="crot", dc=2, dt=2, dm=2, theta=0.7, phi=0.4, q0=0, q1=None, rev=False, lines=None):
    from mqt.qudits.compiler.twodit.blocks.crot import CRotGen
    from mqt.qudits.compiler.twodit.blocks.czrot import CZRotGen
    from mqt.qudits.compiler.twodit.blocks.pswap import PSwapGen
    from mqt.qudits.quantum_circuit import QuantumCircuit
    q = lines or ([2, 0] if rev else [0, 2])
    dims = [dm] * (max(q) + 1)
    dims[q[0]], dims[q[1]] = dc, dt
    if int(np.prod(dims)) > 400:
        return
    c = QuantumCircuit(len(dims), dims, 0)
    n = dc * dt
    if kind.endswith("pswap"):
        q1 = dt - 1
        if q0 + 1 >= dc:
            return
    elif q1 is None or q1 + 1 >= dt:
        q1 = 0
    i = q0 * dt + q1
    if kind == "crot":
        gs, m = CRotGen(c, list(q)).permute_crot_101_as_list(i, theta, phi), rot(n, i, theta, phi)
    elif kind == "pswap":
        gs, m = PSwapGen(c, list(q)).permute_pswap_101_as_list(i, theta, phi), rot(n, i, theta, phi)
    elif kind == "zcrot":
        gs, m = CZRotGen(c, list(q)).z_from_crot_101_list(i, theta), zrot(n, i, theta)
    else:
        gs, m = CZRotGen(c, list(q)).z_pswap_101_as_list(i, theta), zrot(n, i, theta)
    expect(not c.instructions, "the block changes the circuit")
    x = float(np.abs(product(c, gs) - embed(m, dims, q)).max())
    expect(x < 1e-8, f"{kind} at {i} on dimensions {dc} and {dt}: the sequence differs from the rotation by {x:.3g}")


def one(dims, lines, kind, useed, controlled=False, as_pass=True):
    from mqt.qudits.compiler.twodit.entanglement_qr import LogEntQRCEXPass
    from mqt.qudits.compiler.twodit.entanglement_qr.log_ent_qr_cex_decomp import EntangledQRCEX
    from mqt.qudits.quantum_circuit import QuantumCircuit
    c = QuantumCircuit(len(dims), list(dims), 0)
    a, b = lines
    n = dims[a] * dims[b]
    if kind in ("csum", "ls", "ms", "cx"):
        g = {"csum": lambda: c.csum(list(lines)), "ls": lambda: c.ls(list(lines), [0.3 + useed % 5]), "ms": lambda: c.ms(list(lines), [0.3 + useed % 5]),
             "cx": lambda: c.cx(list(lines), [0, 1, useed % dims[a], (useed % 6) * 1.0])}[kind]()
    elif controlled:
        g = c.cu_one(b, unitary(kind, dims[b], useed)).control([a], [useed % dims[a]])
    else:
        g = c.cu_two(list(lines), unitary(kind, n, useed))
    before = snapshot(c)
    want = gate_unitary(list(dims), g)
    if as_pass:
        got = quiet(LogEntQRCEXPass(None).transpile_gate, g)
    else:
        got = quiet(EntangledQRCEX(g).execute)[0]
        want = want.conj().T
    expect(snapshot(c) == before, "the circuit is changed")
    for x in got:
        t = x.target_qudits if isinstance(x.target_qudits, list) else [x.target_qudits]
        expect(set(t) <= {a, b} and x.control_info["controls"] is None and type(x).__name__ in ("R", "Rz", "Rh", "VirtRz", "CEx"), "a gate that is no local rotation, phase or CEx of the two lines")
    x = deviation(product(c, got), want)
    expect(x < 1e-3 * n, f"dimensions {dims}, lines {lines}: the sequence differs from the gate by {x:.3g}")


@case("entqr")
def entqr(dims=None, lines=None, kind=None, useed=1, controlled=False, as_pass=True, **_):
    if kind is not None:
        return one(dims, lines, kind, useed, controlled, as_pass)
    for ds in ([2, 2], [2, 3], [3, 2], [3, 3], [2, 4]):
        for k in ("haar", "perm", "phaseperm", "diag", "block", "identity"):
            for p in (True, False):
                one([ds[0], 2, ds[1]], [2, 0], k, 3, False, p)
                one(ds, [0, 1], k, 4, False, p)
    mixed(3)


def mixed(seed):
    """whole circuits: the two-qudit gates are replaced at their places"""
    import random

    from mqt.qudits.compiler.twodit.entanglement_qr import LogEntQRCEXPass
    from mqt.qudits.quantum_circuit.components.extensions.gate_types import GateTypes

    from .c14 import make
    from .sim import circuit_unitary, random_circuit
    r = random.Random(seed)
    dims, gs = random_circuit(r, maxlines=3, maxdim=3, maxsize=18, gates=4, kinds=["r", "h", "csum", "cx", "cu_one", "cu_two", "virtrz", "ls"], dag=0.2)
    c = make(dims, gs)
    u, before = circuit_unitary(c), snapshot(c)
    t = quiet(LogEntQRCEXPass(None).transpile, c)
    expect(snapshot(c) == before, "the circuit is changed")
    expect(t.number_gates == len(t.instructions), "gate count")
    others = [g for g in c.instructions if g.gate_type != GateTypes.TWO]
    left = [g for g in t.instructions if any(g is x for x in c.instructions)]
    expect(len(others) == len(left) and all(x is y for x, y in zip(others, left)), "other gates are changed")
    x = deviation(circuit_unitary(t), u)
    expect(x < 1e-3 * len(u), f"the circuit differs by {x:.3g}")


@case("entqr_circuit")
def entqr_circuit(seed):
    mixed(seed)


@gen("C12")
def g(r, budget):
    while True:
        for _ in range(6):
            dc, dt = r.randint(2, 5), r.randint(2, 5)
            ang = lambda: r.choice([r.uniform(-30, 30), r.uniform(-math.pi, math.pi), math.pi / r.choice([1, 2, 3, -4]), 0.0, 2 * math.pi * r.randint(-2, 2)])
            yield "blocks", dict(kind=r.choice(["crot", "pswap", "zcrot", "zpswap"]), dc=dc, dt=dt, dm=r.randint(2, 3), theta=ang(), phi=ang(), q0=r.randrange(dc), q1=r.randrange(dt),
                                 lines=r.choice([[0, 1], [1, 0], [0, 2], [2, 0]]))
        n = r.choice([2, 3])
        dims = [r.randint(2, 4) for _ in range(n)]
        ls = r.sample(range(n), 2)
        if int(np.prod(dims)) > 24:
            continue
        kind = r.choice([*KINDS, "csum", "cx", "ls", "ms"])
        yield "entqr", dict(dims=dims, lines=ls, kind=kind, useed=r.randrange(10 ** 6), controlled=kind in KINDS and r.random() < 0.3, as_pass=r.random() < 0.6)
        if r.random() < 0.2:
            yield "entqr_circuit", dict(seed=r.randrange(10 ** 6))
