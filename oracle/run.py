"""/opt/venv/bin/python -m oracle.run PROP OUT SEED BUDGET [REPLAY.json]"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

import warnings

warnings.filterwarnings("ignore")


CASE_CPU = 150     # seconds of processor time for one case; the slowest case of any property takes a sixth of it on the unchanged tree


GAVE_UP = "gave up"


class Slow(BaseException):
    pass


def too_slow(*_):
    raise Slow


def run_case(base, name, kw):
    signal.signal(signal.SIGVTALRM, too_slow)
    signal.setitimer(signal.ITIMER_VIRTUAL, base.SEARCHES.get(name, CASE_CPU))
    try:
        base.CASES[name](**kw)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return None
    except Slow:
        if name in base.SEARCHES:
            return GAVE_UP
        return f"no result after {CASE_CPU} s of processor time"
    except base.Violation as e:
        return f"contract violated: {e}"
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if "/src/mqt/" in f.filename or "_qudits" in f.filename]
        if inside:
            return f"raised {type(e).__name__}: {e} at {inside[-1].filename.split('/src/')[-1]}:{inside[-1].name}"
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def main():
    prop, out, seed, budget = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
    replay = sys.argv[5] if len(sys.argv) > 5 else None
    from . import base
    res = {"evaluations": 0, "distinct": 0, "violations": [], "samples": [], "error": None, "findings": [], "by_case": {}}
    t0 = time.time()
    try:
        base.setup()
        import numpy as np
        mod = importlib.import_module(f"oracle.{prop.lower()}")
        if replay:
            for r in json.load(open(replay)):
                random.seed(1)
                np.random.seed(1)
                v = run_case(base, r["case"], r["inputs"])
                res["evaluations"] += 1
                if v and v != GAVE_UP:
                    res["violations"].append({**r, "what": v})
        else:
            for ident, f in base.FINDINGS.get(prop, []):
                res["findings"].append([ident, bool(f())])
            rnd = random.Random(seed)
            seen = set()
            shown = {}
            last = {}
            gave_up = res["gave_up"] = {}
            for name, kw in base.GENS[prop](rnd, budget):
                random.seed(seed + res["evaluations"])
                np.random.seed((seed + res["evaluations"]) % 2 ** 31)
                js = json.dumps([name, kw], sort_keys=True, default=str)
                last = {"case": name, "inputs": kw}
                c0 = time.process_time()
                v = run_case(base, name, kw)
                c1 = round(time.process_time() - c0, 3)
                if c1 > res.get("slowest_s", 0):
                    res["slowest_s"], res["slowest"] = c1, last
                res["evaluations"] += 1
                res["by_case"][name] = res["by_case"].get(name, 0) + 1
                seen.add(hashlib.md5(js.encode()).hexdigest())
                if shown.get(name, 0) < 1:
                    shown[name] = 1
                    if len(res["samples"]) < 12:
                        res["samples"].append(json.loads(js))
                if v == GAVE_UP:
                    # a search is exponential on a few inputs; that it does not end on a large part of them is a violation
                    gave_up[name] = gave_up.get(name, 0) + 1
                    v = None
                    if gave_up[name] >= 4 and gave_up[name] * 5 >= res["by_case"][name]:
                        v = f"no result within {base.SEARCHES[name]} s of processor time on {gave_up[name]} of {res['by_case'][name]} inputs"
                if v:
                    res["violations"].append({"case": name, "inputs": json.loads(js)[1], "what": v})
                    if len(res["violations"]) >= 3:
                        break
                if time.time() - t0 > budget:
                    break
            res["distinct"] = len(seen)
    except BaseException as e:  # noqa: BLE001
        res["error"] = f"{type(e).__name__}: {e} | " + traceback.format_exc()[-1500:]
    res["wall"] = round(time.time() - t0, 2)
    with open(out, "w") as f:
        json.dump(res, f, default=str)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
