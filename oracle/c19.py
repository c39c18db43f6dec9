"""C19 at run time: shots, options, saved results, jobs."""
from __future__ import annotations

import contextlib
import io
import math
import os
import tempfile

import numpy as np

from .base import case, expect, gen
from .c05 import build
from .c07 import simulate
from .c18 import make_model, tag_of
from .sim import random_circuit, unitary_of


class Pool:
    """the process pool, in this process: every argument reaches its worker as a copy"""
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, args, chunksize=None):
        return [f(a) for a in args]


@contextlib.contextmanager
def local_pool():
    from mqt.qudits.simulation.backends import stochastic_sim as s
    old = s.mp.Pool
    s.mp.Pool = Pool
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        s.mp.Pool = old


def far(k, n, w):
    return abs(k - n * w) > 6.5 * math.sqrt(max(0.0, n * w * (1 - w))) + 8


def chi2(counts, probs, n):
    s, dof, rest_k, rest_w = 0.0, -1, 0, 0.0
    for k, w in zip(counts, probs):
        if n * w >= 5:
            s += (k - n * w) ** 2 / (n * w)
            dof += 1
        else:
            rest_k, rest_w = rest_k + k, rest_w + w
    if n * rest_w >= 5:
        s += (rest_k - n * rest_w) ** 2 / (n * rest_w)
        dof += 1
    elif rest_k > n * rest_w + 8 + 6.5 * math.sqrt(n * rest_w):
        return math.inf
    return (s - dof) / math.sqrt(2 * max(dof, 1)) if dof > 0 else 0.0


def check_counts(counts, v, shots, dims, what):
    expect(len(counts) == shots, f"{what}: {len(counts)} outcomes for {shots} shots")
    n = int(np.prod(dims))
    expect(all(0 <= int(k) < n and int(k) == k for k in counts), f"{what}: outcomes outside the state space")
    w = np.abs(v) ** 2
    k = np.bincount([int(x) for x in counts], minlength=n)
    c = chi2(k, w, shots)
    expect(c < 9 and not any(far(a, shots, b) for a, b in zip(k, w)), f"{what}: outcomes {k.tolist()} do not follow {np.round(w * shots, 1).tolist()}")


@case("shots")
def shots(name="tnsim", dims=(3, 2), gates=None, shots=120, pool=False, **_):
    """without errors in the noise model the outcomes follow the state of the circuit"""
    dims, gates = list(dims), gates if gates is not None else [dict(kind="h", lines=[0]), dict(kind="csum", lines=[0, 1])]
    shots = max(50, min(int(shots), 400))
    c = build([("q", dims)], gates)
    m = make_model([["pm", "local", ["math", 0.5, 0.5]]])
    with contextlib.nullcontext() if pool else local_pool():
        r = simulate(c, name, noise_model=m, shots=shots)
    v = unitary_of(c, gates)[:, 0]
    expect(np.allclose(np.asarray(r.get_state_vector())[0], v, atol=1e-6), "state vector of the result")
    check_counts(r.get_counts(), v, shots, dims, name)


@case("full_states")
def full_states(name="tnsim", shots=60, pool=False, **_):
    """with full_state_memory every result is the state of one noisy circuit"""
    c = build([("q", [3])], [dict(kind="h", lines=[0]), dict(kind="rz", lines=[0], params=[0, 1, 0.7])])
    noise = make_model([["rz", "local", ["math", 1.0, 0.0]]])
    with contextlib.nullcontext() if pool else local_pool():
        r = simulate(c, name, noise_model=noise, shots=shots, full_state_memory=True)
    out = r.get_counts()
    expect(len(out) == shots, f"{len(out)} results for {shots} shots")
    for v in out:
        expect(np.asarray(v).size == 3 and abs(np.linalg.norm(v) - 1) < 1e-6, "a result is not a state")
    base = np.asarray(r.get_state_vector()).ravel()
    if name == "tnsim":
        x, z = np.roll(np.eye(3), 1, axis=0), np.diag(np.exp(2j * np.pi * np.arange(3) / 3))
        allowed = [np.linalg.matrix_power(z, b) @ np.linalg.matrix_power(x, a) @ base for a in range(3) for b in range(3)]
        k = [0] * 9
        for v in out:
            hit = [i for i, s in enumerate(allowed) if np.allclose(s, np.asarray(v).ravel(), atol=1e-6)]
            expect(hit, "a result is not the state of a noisy circuit the model declares")
            k[hit[0]] += 1
        expect(chi2(k, [1 / 9] * 9, shots) < 9, f"errors drawn {k} times: not independent of each other")
    else:
        x = np.eye(3, dtype=complex)
        x[:2, :2] = [[0, -1], [1, 0]]
        expect(all(abs(abs(np.vdot(x @ base, np.asarray(v).ravel())) - 1) < 1e-6 for v in out), "the certain error is not applied in every shot")


@case("pool")
def pool(name="tnsim", shots=400, **_):
    """the real process pool: the errors and the outcomes of the shots are independent"""
    c = build([("q", [5])], [dict(kind="h", lines=[0]), dict(kind="rz", lines=[0], params=[0, 1, 0.7])])
    noise = make_model([["rz", "local", ["math", 1.0, 0.0]]])
    r = simulate(c, "tnsim", noise_model=noise, shots=shots, full_state_memory=True)
    keys, k = {}, []
    for v in r.get_counts():
        key = tuple(np.round(np.asarray(v).ravel(), 5) + 0.0)
        keys[key] = keys.get(key, 0) + 1
    k = [*keys.values()]
    expect(len(r.get_counts()) == shots and len(k) <= 25, "errors outside the model")
    k += [0] * (25 - len(k))
    expect(chi2(k, [1 / 25] * 25, shots) < 9, f"errors drawn {k} times: the shots are not independent")
    u = build([("q", [7])], [dict(kind="h", lines=[0])])
    for b in ("tnsim", "misim"):
        r = simulate(u, b, noise_model=make_model([["pm", "local", ["math", 0.5, 0.5]]]), shots=shots)
        check_counts(r.get_counts(), np.full(7, 7 ** -0.5), shots, [7], b + " in a pool")
    many = 1 + max(200, shots)
    r = simulate(build([("q", [2])], [dict(kind="x", lines=[0])]), "tnsim", noise_model=make_model([]), shots=many)
    expect([int(x) for x in r.get_counts()] == [1] * many, "outcomes of a basis state")


@case("measure")
def measure(n=4, seed=1, amps=None, **_):
    from mqt.qudits.simulation.backends.stochastic_sim import measure_state
    r = np.random.default_rng(seed)
    v = r.normal(size=(1, n)) + 1j * r.normal(size=(1, n))
    if n > 2:
        v[0, seed % n] = 0
    v /= np.linalg.norm(v)
    check_counts([measure_state(v) for _ in range(1500)], v[0], 1500, [n], "measure_state")


@case("options")
def options(name="tnsim", how=2, given=None, **_):
    from mqt.qudits.simulation import MQTQuditProvider
    given = dict(given or {})
    if given.get("noise_model"):
        given["noise_model"] = make_model([["x", "local", ["math", 0.1, 0.0]]])
    if "shots" in given:
        given["shots"] = max(50, min(int(given["shots"]), 90))
    with tempfile.TemporaryDirectory() as tmp:
        if "file_path" in given:
            given["file_path"] = tmp
        p = MQTQuditProvider()
        b = p.get_backend(name, **(given if how == 0 else {}))
        if how == 1:
            b.set_options(**given)
        c = build([("q", [2])], [dict(kind="x", lines=[0])])
        with local_pool():
            job = b.run(c, **(given if how == 2 else {}))
    want = {"shots": 50, "memory": False, "noise_model": None, "file_path": None, "file_name": None, "full_state_memory": False, **given}
    for f, w in want.items():
        expect(getattr(b, f) is w or getattr(b, f) == w, f"{f} is {getattr(b, f)!r} instead of {w!r}")
    expect(job.backend() is b, "the job names another backend")
    k = job.result().get_counts()
    expect(len(k) == (want["shots"] if want["noise_model"] is not None else 0), f"{len(k)} outcomes")
    expect(all((np.asarray(x).size == 2) == bool(want["full_state_memory"]) for x in k), "states instead of outcomes, or the other way round")
    try:
        b.set_options(nonsense=1)
        expect(False, "an unknown option is accepted")
    except AttributeError:
        pass
    for n in (51, 60):
        with local_pool():
            b.set_options(shots=n, full_state_memory=False, memory=False, noise_model=make_model([]))
            expect(len(b.run(c).result().get_counts()) == n, "options set before the run")
            expect(len(b.run(c, shots=n + 3).result().get_counts()) == n + 3, "options of the run")


@case("few")
def few(name="tnsim", n=49, **_):
    c = build([("q", [2])], [])
    for k in {int(n), 49, 1, 0}:
        try:
            with local_pool():
                simulate(c, name, noise_model=make_model([]), shots=min(k, 49))
            expect(False, f"{k} shots accepted")
        except AssertionError:
            pass


@case("saving")
def saving(full=True, mem=True, path=True, name=True, backend="tnsim", shots=55, **_):
    import h5py
    c = build([("q", [3])], [dict(kind="h", lines=[0])])
    with tempfile.TemporaryDirectory() as tmp:
        opts = dict(shots=shots, memory=mem, full_state_memory=full, noise_model=make_model([]))
        if path:
            opts["file_path"] = tmp
        if name:
            opts["file_name"] = "out.h5"
        with local_pool():
            k = simulate(c, backend, **opts).get_counts()
        files = os.listdir(tmp)
        due = path and name and (full or mem)
        expect(files == (["out.h5"] if due else []), f"files {files}")
        if due:
            with h5py.File(os.path.join(tmp, "out.h5")) as f:
                if full:
                    d = f["vectors"]["vector_data"]
                    expect(d.shape == (shots, *np.asarray(k[0]).shape) and np.allclose(d, np.asarray(k)), "saved states differ from the results")
                    expect(len(set(f["vectors"]["name"])) == shots, "names of the saved states")
                else:
                    expect(list(f["shots"]["shot"]) == [int(x) for x in k] and list(f["shots"]["nr"]) == list(range(shots)), "saved outcomes differ from the results")


@case("job")
def job(**_):
    from mqt.qudits.simulation.jobs import Job, JobStatus as S
    for st in S:
        class J(Job):
            def status(self):
                return st
        j = J(None, "id")
        expect((j.done(), j.running(), j.cancelled(), j.in_final_state()) == (st == S.DONE, st == S.RUNNING, st == S.CANCELLED, st in (S.DONE, S.ERROR)), f"questions about {st!r}")
        expect(S.from_string(st.value.upper()) is st and st.is_final == (st in (S.DONE, S.CANCELLED, S.ERROR)), "states")


@gen("C19")
def g(r, budget):
    yield "job", {}
    yield "pool", {}
    for name in ("tnsim", "misim"):
        for full in (False, True):
            for mem in (False, True):
                yield "saving", dict(full=full, mem=mem, backend=name)
        yield "full_states", dict(name=name, shots=200)
        yield "few", dict(name=name)
    if budget > 30:
        for _ in range(8):
            yield "pool", dict(shots=r.choice([400, 1000]))
            yield "shots", dict(pool=True, name=r.choice(["tnsim", "misim"]))
    while True:
        k = r.random()
        name = r.choice(["tnsim", "misim"])
        if k < 0.3:
            kinds = ["x", "z", "h", "r", "rz", "rh", "virtrz", "csum"]
            dims, gates = random_circuit(r, maxlines=3, maxdim=4, maxsize=30, gates=4, kinds=kinds, control=0 if name == "misim" else 0.3)
            yield "shots", dict(name=name, dims=dims, gates=gates, shots=r.choice([50, 100, 201]))
        elif k < 0.6:
            yield "measure", dict(n=r.randint(1, 12), seed=r.randrange(10 ** 6))
        elif k < 0.9:
            opts = {"shots": r.randint(50, 80), "memory": True, "noise_model": True, "file_path": True, "file_name": "n.h5", "full_state_memory": True}
            yield "options", dict(name=name, how=r.randrange(3), given={f: v for f, v in opts.items() if r.random() < 0.5})
        else:
            yield "saving", dict(full=r.random() < 0.5, mem=r.random() < 0.5, path=r.random() < 0.7, name=r.random() < 0.7, backend=name, shots=r.randint(50, 60))
