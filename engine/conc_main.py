"""Concrete conformance runner (runs under /opt/venv/bin/python with the real library).

usage: conc_main JOB.json OUT.json
JOB: {"units": [name...], "seed": n, "n": k, "budget_s": s, "models": {unit: [[case, values, obligation], ...]}}
"""
import importlib
import json
import os
import pkgutil
import sys
import time
import traceback
import warnings

warnings.filterwarnings("ignore")
REPO = os.environ.get("SOEPY_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def load_all():
    import contracts

    for m in pkgutil.iter_modules(contracts.__path__):
        importlib.import_module("contracts." + m.name)


def main():
    import hashlib

    import jax

    jax.config.update("jax_enable_x64", True)
    load_all()
    from engine.base import REGISTRY
    from engine.conc import run_once

    job = json.load(open(sys.argv[1]))
    out = {}
    for item in job["units"]:
        name, only = item if isinstance(item, list) else (item, None)
        u = REGISTRY[name]
        t0 = time.time()
        r = dict(ok=0, reject=0, error=0, checks=0, skipped=0, violations=[], errors=[], distinct=0, samples=[])
        seen = set()
        budget = job["budget_s"] * getattr(u, "weight", 1.0)
        for case, values, obl in job.get("models", {}).get(name, []):
            s, info = run_once(u, case, 12345, values)
            if s == "violation":
                r["violations"].append(dict(case=case, seed=12345, model=values, obligation=obl, source="counter-model", **info))
            elif s == "error":
                r["errors"].append(info)
        cases = u.conc_cases or u.cases
        if not u.concrete:
            cases = []
        n = int(u.n_random * job.get("n", 1))
        done = False
        for k in range(n):
            for ci, case in enumerate(cases):
                if only is not None and ci not in only:
                    continue
                if k > 0 and time.time() - t0 > budget:
                    done = True
                    break
                h = hashlib.sha256(f"{name}|{ci}|{k}|{job['seed']}".encode()).digest()
                seed = int.from_bytes(h[:6], "big")
                s, info = run_once(u, case, seed)
                if s == "ok":
                    r["ok"] += 1
                    r["checks"] += info["n"]
                    r["skipped"] += info.get("skipped", 0)
                    txt = json.dumps(info.get("inputs", {}), default=str)
                    seen.add(hash((ci, txt)) if len(txt) > 2 else (ci, seed))
                    if len(r["samples"]) < 1:
                        r["samples"].append(dict(unit=name, case=case, seed=seed, inputs=txt[:400]))
                elif s == "reject":
                    r["reject"] += 1
                elif s == "error":
                    r["error"] += 1
                    if len(r["errors"]) < 3:
                        r["errors"].append(info)
                    if r["error"] > 5:
                        done = True
                        break
                else:
                    r["violations"].append(dict(case=case, seed=seed, model=None, source="search", **info))
                    if len(r["violations"]) >= job.get("max_viol", 4):
                        done = True
                        break
            if done:
                break
        r["wall"] = round(time.time() - t0, 2)
        r["distinct"] = len(seen)
        if name in out:
            p = out[name]
            for k in ("ok", "reject", "error", "checks", "skipped", "wall", "distinct"):
                p[k] += r[k]
            p["samples"] += r["samples"]
            p["violations"] += r["violations"]
            p["errors"] += r["errors"]
        else:
            out[name] = r
    with open(sys.argv[2], "w") as f:
        json.dump(out, f, default=str)


if __name__ == "__main__":
    try:
        main()
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
