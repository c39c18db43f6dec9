"""C19: shots, options and results.  The process pool is used through its contract (map applies the function to every argument, in order),
the generator through the contract of numpy's choice; execute and stochastic_simulation are replaced by their contracts in the callers."""
from __future__ import annotations

import types

from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import fake_matrix, ob
from pyvc.num import Num, Unsupported

P = "C19"
SF = "simulation/backends/stochastic_sim.py:"
BF = "simulation/backends/backendv2.py:Backend."
TF = "simulation/backends/tnsim.py:TNSim."
MF = "simulation/backends/misim.py:MISim."
JF = "simulation/jobs/job.py:Job."


def mods():
    return loader.load("simulation.backends.stochastic_sim"), loader.load("simulation.backends")


def seq(x):
    """a list, or a sequence of symbolic length with one arbitrary element"""
    return x


class Pool:
    """contract of multiprocessing.Pool: map applies the function to every argument, in the order of the arguments"""
    def __init__(self, log):
        self.log = log

    def __call__(self, *a, **k):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, args, chunksize=None):
        self.log.append((f, args))
        return Result(f, args)

    def __getattr__(self, n):
        raise Unsupported("process pool: " + n)


class Result:
    def __init__(self, f, args):
        self.f, self.args = f, args


def length(x):
    return Num.lift(x.n) if hasattr(x, "n") else Num.lift(len(x))


def with_pool(sm, log, f):
    old = sm.mp
    sm.mp = types.SimpleNamespace(Pool=Pool(log), cpu_count=lambda: 4)
    try:
        return f()
    finally:
        sm.mp = old


def with_random(sm, random, f):
    old = sm.np.random
    sm.np.random = random
    try:
        return f()
    finally:
        sm.np.random = old


@ob(P, "one argument per shot", [SF + "stochastic_simulation"], case="shots")
def shots(vc):
    """for every number of shots: the pool gets exactly that many arguments, each the backend with the circuit and the noise model"""
    sm, bm = mods()
    n = vc.int("shots", 50)
    which = ["tn", "mi"][vc.choose("backend", 2)]
    given = bool(vc.choose("noise", 2))
    C.ctx().inputs["name"] = {"tn": "tnsim", "mi": "misim"}[which]
    backend = (bm.TNSim if which == "tn" else bm.MISim)(object())
    backend.shots = n
    model = loader.load("simulation.noise_tools").NoiseModel()
    backend.noise_model = model if given else None
    saved, log, made = [], [], []
    circuit = object()

    class Factory:
        def __init__(self, m, c):
            self.m, self.c = m, c
            made.append(self)
    keep = sm.NoisyCircuitFactory, sm.save_results
    sm.NoisyCircuitFactory, sm.save_results = Factory, lambda b, r: saved.append((b, r))
    try:
        got = with_pool(sm, log, lambda: sm.stochastic_simulation(backend, circuit))
    finally:
        sm.NoisyCircuitFactory, sm.save_results = keep
    vc.ensure(len(log) == 1 and isinstance(got, Result), "the results of the workers are returned")
    f, args = log[0]
    vc.ensure(f is (sm.stochastic_execution_tn if which == "tn" else sm.stochastic_execution_mi), "the workers run one shot of the backend")
    vc.ensure(length(args) == n, "one argument per shot")
    i = vc.int("i", 0)
    vc.assume(i < n)
    a = args[i]
    vc.ensure(a[0] is backend, "each shot uses the backend")
    if which == "tn":
        vc.ensure(isinstance(a[1], Factory) and a[1].c is circuit, "each shot uses the circuit")
        m = a[1].m
    else:
        vc.ensure(a[1] is circuit, "each shot uses the circuit")
        m = a[2]
    vc.ensure(m is model if given else m.quantum_errors == {}, "each shot uses the noise model")
    vc.ensure(saved == [(backend, got)], "the results are handed to the saving function")


@ob(P, "an unknown backend is an error", [SF + "stochastic_simulation"], case=None)
def unknown(vc):
    sm, bm = mods()
    b = bm.Innsbruck01(object())
    vc.ensure_raises(TypeError, lambda: with_pool(sm, [], lambda: sm.stochastic_simulation(b, object())), "a backend that cannot simulate is an error")


@ob(P, "one shot", [SF + "stochastic_execution_tn", SF + "stochastic_execution_mi"], case="full_states")
def shot(vc):
    sm, bm = mods()
    full = bool(vc.choose("full", 2))
    which = vc.choose("backend", 2)
    ops = []
    state, noisy, circuit, model = object(), object(), object(), object()

    def execute(*a):
        ops.append(("execute", *a))
        return state

    class Factory:
        def reset_rng(self):
            ops.append(("reset",))

        def generate_circuit(self):
            ops.append(("generate",))
            return noisy
    backend = types.SimpleNamespace(full_state_memory=full, execute=execute)
    keep = sm.measure_state
    sm.measure_state = lambda v: ("outcome", v)
    try:
        got = sm.stochastic_execution_tn((backend, Factory())) if which == 0 else sm.stochastic_execution_mi((backend, circuit, model))
    finally:
        sm.measure_state = keep
    if which == 0:
        vc.ensure(ops == [("reset",), ("generate",), ("execute", noisy)], "the shot draws its own noise and runs its own noisy circuit")
    else:
        vc.ensure(ops == [("execute", circuit, model)], "the shot runs the circuit with the noise model")
    vc.ensure(got is state if full else got == ("outcome", state), "the state, or an outcome measured in this state")


@ob(P, "the noise of a shot is drawn from a new generator", ["simulation/noise_tools/noisy_circuit_factory.py:NoisyCircuitFactory.reset_rng"], case="pool")
def reset(vc):
    fm = loader.load("simulation.noise_tools.noisy_circuit_factory")
    made = []

    def rng(seed=None):
        made.append(seed)
        return ("generator", len(made))
    f = with_random(fm, types.SimpleNamespace(default_rng=rng), lambda: fm.NoisyCircuitFactory(object(), object()))
    a = f.rng
    with_random(fm, types.SimpleNamespace(default_rng=rng), f.reset_rng)
    vc.ensure(f.rng != a and made[0] is None and made[-1] is None or len(set(made)) == len(made), "a new generator with its own seed")


for n in (1, 2, 3, 4, 6):
    @ob(P, f"measure_state.{n} amplitudes", [SF + "measure_state", SF + "generate_seed"], bound=f"state of {n} amplitudes, arbitrary values", case="measure")
    def measure(vc, n=n):
        sm, bm = mods()
        v = fake_matrix("psi", 1, n)
        tot = N.ZERO
        for i in range(n):
            tot = tot + v[0, i] * Num.lift(v[0, i]).conjugate()
        seeds, asked = [], []
        pick = vc.choose("pick", n)
        C.ctx().inputs.update(n=n)

        class Rng:
            def choice(self, a, size=None, replace=True, p=None):
                asked.append((a, size, p))
                return pick

            def __getattr__(self, k):
                raise Unsupported("random generator: " + k)

        def rng(seed=None):
            seeds.append(seed)
            return Rng()
        from pyvc import arr
        state = sm.np.array(v.tolist())
        outs = with_random(sm, types.SimpleNamespace(default_rng=rng), lambda: [sm.measure_state(state), sm.measure_state(state)])
        vc.ensure(len(asked) == 2, "one draw per measurement")
        for o in outs:
            vc.ensure(Num.lift(o) == pick, "the drawn outcome is returned")
        for a, size, p in asked:
            vc.ensure(Num.lift(a) == n if not hasattr(a, "__len__") else list(a) == list(range(n)), "the outcomes are the basis states")
            vc.ensure(size is None and p is not None and len(p) == n, "one probability per basis state")
            for i in range(n):
                vc.ensure_eq(p[i], v[0, i] * Num.lift(v[0, i]).conjugate(), "the probability is the squared modulus of the amplitude")
        vc.ensure(all(s is None for s in seeds) or (len(seeds) == 2 and len(set(map(str, seeds))) == 2), "each measurement has its own seed")


FIELDS = ["shots", "memory", "noise_model", "file_path", "file_name", "full_state_memory"]
DEFAULT = {"shots": 50, "memory": False, "noise_model": None, "file_path": None, "file_name": None, "full_state_memory": False}


def value(vc, f):
    return {"shots": vc.int("shots", 50), "memory": True, "noise_model": ("model",), "file_path": "path", "file_name": "name", "full_state_memory": True}[f]


for name in ("TNSim", "MISim"):
    @ob(P, f"run.{name}", [(TF if name == "TNSim" else MF) + "run", BF + "__init__", BF + "set_options", BF + "options", BF + "provider", JF + "__init__", JF + "set_result", JF + "result", JF + "backend",
                           "simulation/jobs/job_result.py:JobResult.get_counts", "simulation/jobs/job_result.py:JobResult.get_state_vector"], case="options")
    def run(vc, name=name):
        """options given to the constructor, to set_options or to the run take effect, the last one counts; the result holds what was computed"""
        sm, bm = mods()
        module = loader.load("simulation.backends." + name.lower())
        how = vc.choose("how", 3)                   # options at construction, by set_options, by run
        given = {f: value(vc, f) for f in FIELDS if vc.choose("give_" + f, 2)}
        provider = object()
        C.ctx().inputs.update(name=name.lower(), how=how, given={k: (v if k != "noise_model" else True) for k, v in given.items()})
        seen = {}
        cls = getattr(bm, name)

        class B(cls):
            def execute(self, c, *a):
                return ("state", c, *a)
        b = B(provider, **given) if how == 0 else B(provider)
        if how == 1:
            b.set_options(**given)
        circuit = object()

        def sim(backend, c):
            seen.update(shots=backend.shots, memory=backend.memory, noise_model=backend.noise_model, file_path=backend.file_path, file_name=backend.file_name,
                        full_state_memory=backend.full_state_memory, backend=backend, circuit=c)
            return ["counts", backend.shots]
        keep = module.stochastic_simulation
        module.stochastic_simulation = sim
        try:
            job = b.run(circuit, **(given if how == 2 else {}))
        finally:
            module.stochastic_simulation = keep
        r = job.result()
        vc.ensure(job.backend() is b and b.provider is provider, "the job names its backend")
        want = {**DEFAULT, **given}
        for f in FIELDS:
            vc.ensure(getattr(b, f) is want[f] or bool(getattr(b, f) == want[f]), "the option takes effect: " + f)
        vc.ensure(r.get_state_vector() == ("state", circuit), "the state vector is that of the circuit without noise")
        if want["noise_model"] is None:
            vc.ensure(r.get_counts() == [] and not seen, "no outcomes without noise")
        else:
            vc.ensure(seen["backend"] is b and seen["circuit"] is circuit, "the shots are of the circuit")
            vc.ensure(r.get_counts()[0] == "counts" and r.get_counts()[1] is want["shots"] or bool(r.get_counts()[1] == want["shots"]), "the result holds the outcomes")
            for f in FIELDS:
                vc.ensure(seen[f] is want[f] or bool(seen[f] == want[f]), "the option holds during the simulation: " + f)

    @ob(P, f"an option given twice.{name}", [(TF if name == "TNSim" else MF) + "run", BF + "set_options"], case="options")
    def twice(vc, name=name):
        sm, bm = mods()
        module = loader.load("simulation.backends." + name.lower())
        cls = getattr(bm, name)

        class B(cls):
            def execute(self, c, *a):
                return ("state", c)
        x, y, z = vc.int("x", 50), vc.int("y", 50), vc.int("z", 50)
        b = B(object(), shots=x, noise_model="m")
        got = []
        keep = module.stochastic_simulation
        module.stochastic_simulation = lambda backend, c: got.append(backend.shots)
        try:
            b.run(object())
            b.set_options(shots=y)
            b.run(object())
            b.run(object(), shots=z)
        finally:
            module.stochastic_simulation = keep
        for a, w, t in zip(got, (x, y, z), ("construction", "set_options", "run")):
            vc.ensure_eq(a, w, "the last value given counts: " + t)
        vc.ensure(len(got) == 3, "each run simulates")

    @ob(P, f"few shots are rejected.{name}", [(TF if name == "TNSim" else MF) + "run"], case="few")
    def few(vc, name=name):
        sm, bm = mods()
        cls = getattr(bm, name)

        class B(cls):
            def execute(self, c, *a):
                return None
        n = vc.int("shots")
        vc.assume(n < 50)
        C.ctx().inputs.update(name=name.lower())
        vc.ensure_raises(AssertionError, lambda: B(object()).run(object(), shots=n, noise_model="m"), "fewer than 50 shots are rejected")


@ob(P, "set_options rejects unknown options", [BF + "set_options"], case="options")
def unknown_option(vc):
    sm, bm = mods()
    b = bm.TNSim(object())
    before = dict(b.options)
    vc.ensure_raises(AttributeError, lambda: b.set_options(shotz=3), "an option that does not exist is rejected")
    vc.ensure_raises(AttributeError, lambda: b.set_options(shots=70, shotz=3), "an option that does not exist is rejected")
    vc.ensure(b.options == before, "and nothing is set")


@ob(P, "save_results", [SF + "save_results"], case="saving")
def save(vc):
    sm, bm = mods()
    full, mem, path, name = (bool(vc.choose(x, 2)) for x in ("full", "mem", "path", "name"))
    C.ctx().inputs.update(full=full, mem=mem, path=path, name=name)
    b = types.SimpleNamespace(full_state_memory=full, memory=mem, file_path="p" if path else None, file_name="n" if name else None)
    log = []
    keep = sm.save_full_states, sm.save_shots
    sm.save_full_states, sm.save_shots = lambda *a: log.append(("full", *a)), lambda *a: log.append(("shots", *a))
    res = object()
    try:
        sm.save_results(b, res)
    finally:
        sm.save_full_states, sm.save_shots = keep
    want = [("full", res, "p", "n")] if full and path and name else [("shots", res, "p", "n")] if mem and path and name else []
    vc.ensure(log == want, "states or outcomes are saved exactly if asked for, with a path and a name")


@ob(P, "job states", [JF + x for x in ("done", "running", "cancelled", "in_final_state", "job_id", "backend")], case="job")
def job(vc):
    jm = loader.load("simulation.jobs")
    S = jm.JobStatus
    st = list(S)[vc.choose("status", len(list(S)))]

    class J(jm.Job):
        def status(self):
            return st
    b = object()
    j = J(b, "id")
    vc.ensure(j.job_id() == "id" and j.backend() is b, "identifier and backend")
    vc.ensure(j.done() is (st == S.DONE) and j.running() is (st == S.RUNNING) and j.cancelled() is (st == S.CANCELLED), "each question is about its own state")
    vc.ensure(j.in_final_state() is (st in (S.DONE, S.ERROR)), "final states")
    vc.ensure(st.is_final is (st in (S.DONE, S.CANCELLED, S.ERROR)), "final states")
    vc.ensure(S.from_string(st.value.upper()) is st and isinstance(str(st), str), "reading a state")
    vc.ensure_raises(ValueError, lambda: S.from_string("nothing"), "a text that is no state")
    vc.ensure([s for s in S if not s.is_final] == S.non_final_states(), "states that are not final")
    vc.ensure_raises(loader.load("exceptions").JobError, lambda: J(None, "id").backend(), "a job without backend")
    vc.ensure(J(b).job_id() != "", "jobs get an identifier")


@ob(P, "waiting for a job", [JF + "wait_for_final_state"], bound="up to three polls", case="job")
def wait(vc):
    jm = loader.load("simulation.jobs")
    job_mod = loader.load("simulation.jobs.job")
    S = jm.JobStatus
    k = vc.choose("polls", 4)
    final = [S.DONE, S.ERROR][vc.choose("final", 2)]
    timeout = [None, 2, 100][vc.choose("timeout", 3)]
    seen, clock = [], [0]

    class J(jm.Job):
        n = 0

        def status(self):
            self.n += 1
            return final if self.n > k else S.RUNNING

    class Time:
        @staticmethod
        def time():
            return clock[0]

        @staticmethod
        def sleep(w):
            clock[0] += w
    old = job_mod.time
    job_mod.time = Time
    try:
        j = J(None, "id")

        def go():
            j.wait_for_final_state(timeout, 1, lambda i, s, jj: seen.append((i, s)))
        if timeout is not None and k > timeout:
            vc.ensure_raises(loader.load("exceptions").JobTimeoutError, go, "a job that takes too long is an error")
        else:
            go()
            vc.ensure(seen == [("id", S.RUNNING)] * k and clock[0] == k, "the callback is called once per poll")
    finally:
        job_mod.time = old
