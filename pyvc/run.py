"""python3-vt -m pyvc.run PROP OUT  : generate and discharge the obligations of one property from /repo's current source."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.setrecursionlimit(20000)


def work(k):
    from . import api, core
    prop, i, scale = k
    o = api.OBS[prop][i]
    try:
        r = core.explore(o.name, o.fn, budget=o.budget * scale)
    except BaseException as e:  # noqa: BLE001
        r = {"name": o.name, "status": "unsupported", "paths": 0, "vcs": 1, "discharged": 0,
             "detail": f"engine: {type(e).__name__}: {e} " + traceback.format_exc()[-400:], "inputs": None, "time": 0, "z3_calls": 0,
             "z3_time": 0, "goals": {}}
    r["functions"], r["bound"], r["case"], r["fixed"] = o.functions, o.bound, o.case, o.fixed
    return r


def main():
    prop, out = sys.argv[1], sys.argv[2]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    res = {"prop": prop, "obligations": [], "error": None}
    try:
        importlib.import_module(f"contracts.{prop.lower()}")
        from . import api
        obs = api.OBS.get(prop, [])
        jobs = [(prop, i, 1.0 if tier == "quick" else 6.0) for i, o in enumerate(obs) if (tier == "thorough" or o.tier == "quick") and (only is None or only in o.name)]
        jobs.sort(key=lambda j: -obs[j[1]].budget)
        with mp.get_context("fork").Pool(min(7, max(1, len(jobs))), maxtasksperchild=8) as pool:
            res["obligations"] = pool.map(work, jobs, chunksize=1)
    except BaseException as e:  # noqa: BLE001
        res["error"] = f"{type(e).__name__}: {e} | " + traceback.format_exc()[-1500:]
    res["wall"] = round(time.time() - t0, 2)
    with open(out, "w") as f:
        json.dump(res, f, default=str)


if __name__ == "__main__":
    main()
