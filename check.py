"""python3-vt check.py PROP : decide one property on /repo's current tree (tier from VERIF_TIER, seed from VERIF_SEED).

1. pyvc generates the obligations of the property's contracts from the current source and discharges them.
2. The same contracts run as oracles over the real package (CPython, numpy) on generated inputs: the cross-check of the engine and
   its stand-ins, the bounded stand-in for obligations that could not be discharged, and the replay of counterexamples.
Exit 0: nothing violated.  Exit 1: VIOLATION line.  Exit 2: undecided (machinery failure).
"""
from __future__ import annotations

import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"

from props import PROPS  # noqa: E402


def build_so(tmp):
    so = os.path.join(tmp, "_qudits.so")
    inc = subprocess.run([VENV, "-c", "import sysconfig,pybind11;print(sysconfig.get_path('include'));print(pybind11.get_include())"],
                         capture_output=True, text=True).stdout.split()
    if len(inc) < 2:
        inc = ["/usr/include/python3.12", "/opt/venv/lib/python3.12/site-packages/pybind11/include"]
    cmd = ["g++", "-shared", "-fPIC", "-std=c++17", "-O1", "-DNDEBUG", "-fvisibility=hidden", f"-I{REPO}/include", *[f"-I{i}" for i in inc],
           "-I/opt/mqt-core/install/include/mqt-core", f"{REPO}/src/python/bindings.cpp", "-o", so]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=tmp)
    return (so, None) if r.returncode == 0 else (None, r.stderr[-1500:])


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
               PYTHONPATH=HERE, VERIF_REPO=REPO)
    known = load_known(prop)
    with tempfile.TemporaryDirectory(prefix=f"verif-{prop}-") as tmp:
        scratch = os.path.join(tmp, "cwd")
        os.mkdir(scratch)
        env["TMPDIR"] = tmp
        budget = cfg.get("fuzz", {}).get(tier, 40 if tier == "quick" else 300)
        plimit = 420 if tier == "quick" else 3000
        pout, oout = os.path.join(tmp, "p.json"), os.path.join(tmp, "o.json")
        pr = subprocess.Popen(["python3-vt", "-m", "pyvc.run", prop, pout], env=env, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        so_err = None
        if cfg.get("cpp"):
            so, so_err = build_so(tmp)
            if so:
                env["VERIF_SO"] = so
        orr = subprocess.Popen([VENV, "-m", "oracle.run", prop, oout, str(seed), str(budget)], env={**env, "PYTHONPATH": HERE}, cwd=scratch,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        ol = wait(orr, budget * 3 + 120)
        pl = wait(pr, max(30, plimit - (time.time() - t0)))
        proof, fuzz = load(pout), load(oout)
        extra = []
        for fn in cfg.get("extra", []):
            extra.append(run_extra(fn, env, tmp, tier, seed))

        violations = []      # (text, replay payload, noinput)
        for v in (fuzz or {}).get("violations", []):
            violations.append((v["what"], {"case": v["case"], "inputs": v["inputs"], "what": v["what"], "by": "run-time contract"}, False))
        for e in extra:
            for v in e.get("violations", []):
                violations.append((v["what"], v, v.get("noinput", False)))
        # replay of counterexamples
        obs = (proof or {}).get("obligations", [])
        cand = []
        for o in obs:
            if o["status"] in ("refuted", "raised", "unknown") and o.get("case") and o.get("inputs") is not None:
                cand.append({"case": o["case"], "inputs": {**o["inputs"], **o.get("fixed", {})}, "obligation": o["name"], "detail": o["detail"]})
        if cand:
            rfile, rout = os.path.join(tmp, "r.json"), os.path.join(tmp, "ro.json")
            json.dump(cand, open(rfile, "w"))
            rp = subprocess.Popen([VENV, "-m", "oracle.run", prop, rout, str(seed), "120", rfile], env=env, cwd=scratch,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            wait(rp, 240)
            r = load(rout) or {}
            for v in r.get("violations", []):
                violations.insert(0, (f"obligation {v['obligation']} refuted and replayed: {v['what']}", v, False))
            replayed = {v["obligation"] for v in r.get("violations", [])}
        else:
            replayed = set()
        for o in obs:
            # the counterexample was not reproduced on the real code, or there is none to replay: the refuted obligation itself is the report
            if o["status"] == "refuted" and o["name"] not in replayed:
                violations.append((f"obligation {o['name']} refuted: {o['detail']}", {"obligation": o["name"], "detail": o["detail"], "inputs": o.get("inputs")}, True))

        n_ob = sum(o.get("vcs", 0) for o in obs if not o.get("bound")) + sum(e.get("obligations", 0) for e in extra)
        n_dis = sum(o.get("discharged", 0) for o in obs if not o.get("bound") ) + sum(e.get("discharged", 0) for e in extra)
        # an obligation that is not closed does not count what it had proved so far as closed
        open_ = [o for o in obs if o["status"] != "discharged"]
        bounded = [o for o in obs if o.get("bound")]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
            "coverage": {
                "obligations": n_ob, "discharged": n_dis,
                "checker_cmd": f"python3-vt -m pyvc.run {prop} OUT (in /verif; regenerates every obligation from {REPO}/src)",
                "trusted_base": cfg["trusted"].split("; "),
                "contracts": len(obs), "contracts_closed": len(obs) - len(open_),
                "functions_under_contract": sorted({f for o in obs for f in o["functions"]} | {f for e in extra for f in e.get("functions", [])}),
                "back_end": "normal form of exponential polynomials (pyvc.num) and z3 " + z3_version(),
                "solver_calls": sum(o.get("z3_calls", 0) for o in obs), "solver_seconds": round(sum(o.get("z3_time", 0) for o in obs), 2),
                "paths": sum(o.get("paths", 0) for o in obs),
                "bounded_obligations": sum(o.get("vcs", 0) for o in bounded), "bounded_discharged": sum(o.get("discharged", 0) for o in bounded),
                "bounded_contracts": [{"name": o["name"], "bound": o["bound"], "status": o["status"], "vcs": o.get("vcs")} for o in bounded],
                "open_contracts": [{"name": o["name"], "status": o["status"], "detail": o["detail"][:400]} for o in open_],
                "per_contract": [{"name": o["name"], "status": o["status"], "vcs": o.get("vcs"), "paths": o.get("paths"), "s": o.get("time")} for o in obs][:300],
                "evaluations": (fuzz or {}).get("evaluations", 0), "distinct_nontrivial": (fuzz or {}).get("distinct", 0),
                "rule": "run-time evaluation of the same contracts over the real package, seeded generator per case (oracle/%s.py); distinct by case and inputs" % prop.lower(),
                "samples": (fuzz or {}).get("samples", []), "by_case": (fuzz or {}).get("by_case", {}),
                "extra": [{k: v for k, v in e.items() if k != "violations"} for e in extra],
                "explanation": cfg["note"],
            },
            "assumptions": cfg["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(violations),
        }
        if proof is None or proof.get("error"):
            ev["coverage"]["generator_error"] = (proof or {}).get("error") or (pl or "no result")[-800:]
        if so_err:
            ev["coverage"]["build_error"] = so_err
        json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, default=str)

        present = {i: p for i, p in (fuzz or {}).get("findings", [])}
        for k in known:
            if k.get("status") == "known" and present.get(k["id"], False):
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        unlisted = [i for i, p in present.items() if p and i not in {k["id"] for k in known if k.get("status") == "known"}]
        for i in unlisted:
            violations.append((f"finding {i}", {"finding": i}, False))
        print(f"{prop} {tier}: {n_dis}/{n_ob} obligations discharged ({len(obs) - len(open_)}/{len(obs)} contracts closed, "
              f"{sum(o.get('discharged', 0) for o in bounded)}/{sum(o.get('vcs', 0) for o in bounded)} bounded), "
              f"{(fuzz or {}).get('evaluations', 0)} run-time evaluations, {time.time() - t0:.0f} s")
        for o in open_[:12]:
            print(f"  open: {o['name']}: {o['status']}: {o['detail'][:300]}")
        if violations:
            what, payload, noinput = violations[0]
            path = os.path.join(HERE, "evidence", f"replay-{prop}.json")
            json.dump([{**payload, "property": prop, "how": f"cd /verif && {VENV} -m oracle.run {prop} OUT 1 60 {path}"}], open(path, "w"), indent=1, default=str)
            print("  " + what[:600])
            print(f"VIOLATION property={prop} replay={path}" + (" no-failing-input-found" if noinput else ""))
            return 1
        if fuzz is None or fuzz.get("error"):
            print("undecided: the run-time oracle failed: " + str((fuzz or {}).get("error") or ol)[-1500:])
            return 2
        if not obs and not extra and (proof is None or proof.get("error")):
            print("undecided: no obligation was generated and: " + str((proof or {}).get("error") or pl)[-1500:])
            return 0 if fuzz.get("evaluations", 0) > 0 and n_ob == 0 and cfg.get("tolerate", True) else 2
    return 0


def run_extra(fn, env, tmp, tier, seed):
    import importlib
    m = importlib.import_module(fn)
    try:
        return m.run(env, tmp, tier, seed)
    except Exception as e:  # noqa: BLE001
        import traceback
        return {"name": fn, "error": f"{type(e).__name__}: {e} " + traceback.format_exc()[-600:], "obligations": 0, "discharged": 0}


def wait(p, limit):
    try:
        out, _ = p.communicate(timeout=limit)
        return out
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            p.kill()
        try:
            out, _ = p.communicate(timeout=10)
        except Exception:  # noqa: BLE001
            out = ""
        return (out or "") + " [time limit]"


def load(p):
    try:
        return json.load(open(p))
    except (OSError, ValueError):
        return None


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and json.loads(line).get("property") == prop:
                out.append(json.loads(line))
    return out


def z3_version():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
