#!/opt/veriftools/pyvenv/bin/python
"""Decide one property.

  python3-vt check.py --property C01 [--tier quick|thorough]
  python3-vt check.py --replay replay/C01-....json

Symbolic (deciding): every unit in the property's cone is executed symbolically from
/repo's current source and every obligation is discharged for all inputs.
Concrete (never counted as proof): the same contracts on the real code for sampled
inputs; replays verifier counter-models; stands in (bounded) where a unit is out of reach.
"""
from __future__ import annotations

import argparse
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from tools import lemmas, library_check  # noqa: E402

REPO = os.environ.get("SOEPY_REPO", "/repo")
REALPY = os.environ.get("SOEPY_PYTHON", "/opt/venv/bin/python")
NPROC = min(8, os.cpu_count() or 4)

TRUSTED = [
    "z3 (and cvc5 where named), the ite-splitter and polynomial normaliser in engine/solver.py",
    "the symbolic executor (engine/*.py): CPython runs the repository's own statements over symbolic values",
    "engine/shadow.py: assumed contracts of numpy, jax (jit=identity, vmap=pointwise map, scan=recurrence), pandas, scipy (compared with the libraries on small inputs: library_models)",
    "machine integers/floats treated as mathematical integers/reals with a definedness flag; float32/float64 rounding ignored",
    "exp/log/pow: uninterpreted functions with the ground axiom instances of engine/solver.py (each axiom a theorem of lemmas/Engine.lean)",
]


def load_contracts():
    import importlib
    import pkgutil

    import contracts

    for m in pkgutil.iter_modules(contracts.__path__):
        importlib.import_module("contracts." + m.name)
    from engine.base import REGISTRY
    from contracts.props import PROPS

    return REGISTRY, PROPS


def cone(reg, names):
    out, todo = [], list(names)
    while todo:
        n = todo.pop(0)
        if n in out:
            continue
        out.append(n)
        todo.extend(reg[n].uses)
    return out


AUDIT = (1.0, 0.5, False)  # seconds per unit case and per query for the second solver; every answer?


def _sym_worker(args):
    name, ci, budget = args
    signal.alarm(int(budget * 3 + 60))  # hard stop: reported as unknown by the parent
    from engine.base import REGISTRY
    from engine import solver
    from engine.contract import run_unit, stubs_for

    solver.Audit.budget_s, solver.Audit.query_s, solver.Audit.every = AUDIT
    u = REGISTRY[name]
    stubs = stubs_for(u, REGISTRY)
    try:
        return name, ci, run_unit(u, u.cases[ci], stubs, budget)
    except BaseException as e:
        return name, ci, dict(
            unit=name, verdict="unsupported", unsupported=f"engine: {type(e).__name__}: {e}",
            obligations=0, discharged=0, backends={}, refuted=[], unknown=[], models=[],
            notes=[], paths=0, stubs=[], solver_calls=0, solver_s=0.0, wall=0.0,
        )


def _sym_child(conn, job):
    try:
        conn.send(_sym_worker(job))
    finally:
        conn.close()


def _no_result(name, why):
    return dict(
        unit=name, verdict="unknown", unsupported=why, obligations=1,
        discharged=0, backends={}, refuted=[], unknown=[dict(name="(all)", kind="", goal="", t=0)],
        models=[], notes=[], paths=0, stubs=[], solver_calls=0, solver_s=0.0, wall=0.0,
    )


def run_symbolic(reg, units, tier, deadline, found=lambda: False):
    """One process per unit case, at most NPROC at a time; nothing here waits on a killed process."""
    from multiprocessing.connection import wait

    global AUDIT
    AUDIT = (1.0, 0.5, False) if tier == "quick" else (120.0, 3.0, True)
    jobs = []
    for n in units:
        u = reg[n]
        if not u.symbolic:
            continue
        b = u.budget * (2 if tier == "thorough" else 1)
        for ci in range(len(u.cases)):
            jobs.append((n, ci, b))
    jobs.sort(key=lambda j: -getattr(reg[j[0]], "cost", 1))
    res, running, todo = {}, {}, list(jobs)
    ctx = mp.get_context("fork")
    t0, settled, looked = time.time(), None, 0.0
    put = lambda j, rep: res.setdefault(j[0], []).append((j[1], rep))
    try:
        while todo or running:
            now = time.time()
            if settled is None and now - looked > 2:
                looked = now
                if found():
                    settled = "not run: a failing input was found first"
            if now > deadline and settled is None:
                settled = "time limit"
            if settled is not None:
                for c, (p, j, _) in running.items():
                    put(j, _no_result(j[0], settled))
                for j in todo:
                    put(j, _no_result(j[0], settled))
                break
            while todo and len(running) < NPROC:
                j = todo.pop(0)
                rd, wr = ctx.Pipe(duplex=False)
                p = ctx.Process(target=_sym_child, args=(wr, j), daemon=True)
                p.start()
                wr.close()
                running[rd] = (p, j, time.time() + j[2] * 3 + 70)
            for c in wait(list(running), timeout=1.0):
                p, j, _ = running.pop(c)
                try:
                    _, _, rep = c.recv()
                except Exception:
                    rep = _no_result(j[0], "time limit of the unit")
                c.close()
                p.join(5)
                put(j, rep)
                if rep["verdict"] == "refuted":  # settled too, up to the replay
                    deadline = min(deadline, max(time.time(), t0 + (90 if tier == "quick" else 900)))
            for c in [c for c, (p, j, lim) in running.items() if time.time() > lim]:
                p, j, _ = running.pop(c)
                p.kill()
                put(j, _no_result(j[0], "time limit of the unit"))
    finally:
        for p, _, _ in running.values():
            p.kill()
    for v in res.values():
        v.sort(key=lambda x: x[0])
    return res


def start_concrete(units, reg, seed, n, budget, models=None, max_viol=3, procs=4):
    units = [u for u in units if reg[u].concrete or (models and u in models)]
    items = []
    for u in units:
        cs = range(len(reg[u].conc_cases or reg[u].cases)) if reg[u].concrete else []
        w = getattr(reg[u], "weight", 1.0)
        if w >= 3 and len(cs) > 1:  # slow units: one job per case
            items += [(u, [c], w) for c in cs]
        else:
            items.append((u, list(cs), w))
    items.sort(key=lambda i: -i[2])
    bins = [[] for _ in range(max(1, min(procs, len(items))))]
    load = [0.0] * len(bins)
    for it in items:
        k = load.index(min(load))
        bins[k].append(it)
        load[k] += it[2]
    out = []
    env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="2", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false")
    models = dict(models or {})
    for b in bins:
        if not b:
            continue
        d = tempfile.mkdtemp(prefix="vconc")
        jp, op = os.path.join(d, "job.json"), os.path.join(d, "out.json")
        mine = {u: models.pop(u) for u, _, _ in b if u in models}
        with open(jp, "w") as f:
            json.dump(dict(units=[[u, cs] for u, cs, _ in b], seed=seed, n=n, budget_s=budget, models=mine, max_viol=max_viol), f)
        p = subprocess.Popen(
            [REALPY, "-m", "engine.conc_main", jp, op], cwd=d, env=env,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
        out.append((p, d, op, [u for u, _, _ in b]))
    return out


def _merge(conc, new):
    for u, r in new.items():
        if u in conc:
            for k in ("ok", "reject", "error", "checks", "skipped", "distinct"):
                conc[u][k] += r[k]
            conc[u]["samples"] += r["samples"]
            conc[u]["violations"] += r["violations"]
            conc[u]["errors"] += r["errors"]
        else:
            conc[u] = r


def collect_concrete(procs, deadline):
    import shutil

    res, errs = {}, []
    for p, d, op, b in procs:
        try:
            txt, _ = p.communicate(timeout=max(5, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            txt, _ = p.communicate()
            errs.append(f"concrete runner timed out on {b}")
        if os.path.exists(op):
            _merge(res, json.load(open(op)))
        else:
            errs.append(f"concrete runner failed on {b}: {txt[-1500:]}")
        shutil.rmtree(d, ignore_errors=True)
    return res, errs


def early(procs, findings):
    """Has a finished concrete run found a violation that is not a known finding?"""
    for p, d, op, b in procs:
        if p.poll() is None or not os.path.exists(op):
            continue
        for u, r in json.load(open(op)).items():
            for v in r["violations"]:
                if not any(f["unit"] == u and f["obligation"] == v["name"] for f in findings):
                    return True
    return False


def load_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get("status") == "open"]


def decide(pid, tier, seed):
    t0 = time.time()
    reg, props = load_contracts()
    prop = props[pid]
    units = cone(reg, prop["units"])
    own = list(prop["units"])
    findings = [f for f in load_findings() if f["property"] == pid]
    fu = [f["unit"] for f in findings]
    limit = 600 if tier == "quick" else 3000
    n, budget = (1, 12.0) if tier == "quick" else (12, 240.0)
    conc_units = [u for u in units + fu]
    lem, lib = lemmas.start(), library_check.start(seed, 1 if tier == "quick" else 6)
    cproc = start_concrete(conc_units, reg, seed, n, budget, procs=4 if tier == "quick" else 6)
    sym = run_symbolic(reg, units, tier, t0 + limit * 0.6, lambda: early(cproc, findings))
    conc, cerrs = collect_concrete(cproc, t0 + limit * 0.75)

    # replay verifier counter-models / intensify the search for refuted units
    refuted = {}
    for nme, reps in sym.items():
        for ci, rep in reps:
            if rep["verdict"] == "refuted":
                refuted.setdefault(nme, []).append((ci, rep))
    undecided = {
        nme: [(ci, rep) for ci, rep in reps if rep["verdict"] in ("unknown", "unsupported")]
        for nme, reps in sym.items()
    }
    undecided = {k: v for k, v in undecided.items() if v}
    have = any(r["violations"] for u, r in conc.items() if u not in fu)
    if (refuted or undecided) and not have:
        models = {}
        for nme, reps in list(refuted.items()) + list(undecided.items()):
            for ci, rep in reps:
                for m in rep["models"]:
                    models.setdefault(nme, []).append([reg[nme].cases[ci], m["values"], m["obligation"]])
        again = list(dict.fromkeys(list(refuted) + list(undecided) + own))
        again = [u for u in again if reg[u].concrete or u in models]
        c2, e2 = collect_concrete(
            start_concrete(again, reg, seed + 1000, 6 * n, 45.0 if tier == "quick" else 400.0, models, procs=6),
            t0 + limit,
        )
        cerrs += e2
        _merge(conc, c2)

    violations = []
    known_hit = set()
    for u, r in conc.items():
        for v in r["violations"]:
            f = next((f for f in findings if f["unit"] == u and f["obligation"] == v["name"]), None)
            if f is not None:
                known_hit.add(f["id"])
                continue
            violations.append(dict(unit=u, target=reg[u].target, **v))
    if not violations:
        for nme, reps in refuted.items():
            for ci, rep in reps:
                x = rep["refuted"][0]
                violations.append(
                    dict(
                        unit=nme, target=reg[nme].target, case=reg[nme].cases[ci], name=x["name"],
                        source="verifier", detail="obligation refuted by the solver; no failing input found by replay or search",
                        verifier_output=rep["refuted"], models=rep["models"],
                    )
                )
    # ---- evidence
    obl = sum(rep["obligations"] for reps in sym.values() for _, rep in reps)
    dis = sum(rep["discharged"] for reps in sym.values() for _, rep in reps)
    back = {}
    for reps in sym.values():
        for _, rep in reps:
            for k, v in rep["backends"].items():
                back[k] = back.get(k, 0) + v
    audit = dict(what="z3 'unsat' answers put to cvc5 as well; a contradicted answer is not used")
    for reps in sym.values():
        for _, rep in reps:
            for k, v in rep.get("audit", {}).items():
                audit[k] = round(audit.get(k, 0) + v, 2)
    lm, lib = lemmas.finish(lem), library_check.finish(lib, 60 if tier == "quick" else 600)
    ev = dict(
        property=pid, tier=tier, seed=seed, level=prop.get("level", "proof"),
        coverage=dict(
            obligations=obl, discharged=dis,
            evaluations=sum(r["ok"] for r in conc.values()),
            distinct_nontrivial=sum(r["distinct"] for r in conc.values()),
            rule="bounded, not proof: one evaluation = one complete sampled input (for pipe.* units a whole random model: "
            "specification, parameters, exogenous tables) run through the real code and compared with the contract's "
            "specification; non-trivial = accepted by the precondition and compared; distinct = differing inputs",
            samples=[s for r in conc.values() for s in r["samples"][:1]][:4],
            checker_cmd=f"python3-vt check.py --property {pid} --tier {tier}",
            engine_lemmas=lm,
            second_solver=audit,
            library_models=lib,
            trusted_base=TRUSTED + prop.get("trusted", []),
            functions_under_contract={
                u: dict(
                    target=reg[u].target,
                    callee_contracts=list(reg[u].uses),
                    cases=len(sym[u]),
                    verdicts=[rep["verdict"] for _, rep in sym[u]],
                    obligations=sum(rep["obligations"] for _, rep in sym[u]),
                    discharged=sum(rep["discharged"] for _, rep in sym[u]),
                    paths=sum(rep["paths"] for _, rep in sym[u]),
                    solver_s=round(sum(rep["solver_s"] for _, rep in sym[u]), 2),
                )
                for u in units if u in sym
            },
            backends=back,
            solver_calls=sum(rep["solver_calls"] for reps in sym.values() for _, rep in reps),
            solver_s=round(sum(rep["solver_s"] for reps in sym.values() for _, rep in reps), 2),
            undischarged=[
                dict(unit=k, verdict=rep["verdict"], reason=rep["unsupported"], obligations=[x["name"] for x in rep["unknown"]][:5])
                for k, v in undecided.items() for _, rep in v
            ],
            bounded_not_proved={
                u: dict(target=reg[u].target, why=reg[u].doc or "outside the verifier's reach")
                for u in units if not reg[u].symbolic
            },
            concrete_conformance={
                u: dict(inputs=r["ok"], rejected=r["reject"], comparisons=r["checks"], errors=r["error"])
                for u, r in conc.items()
            },
            concrete_errors=[e[-800:] for r in conc.values() for e in r["errors"]][:4] + cerrs[:3],
        ),
        assumptions=sorted(
            {x for reps in sym.values() for _, rep in reps for x in rep["notes"]}
        ) + prop.get("assumptions", []) + ["engine lemma not accepted by Lean in this run: " + x for x in lm["problems"]]
        + ["library model not confirmed in this run: " + x for x in lib["problems"]],
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for f in findings:
        print(f"KNOWN-FINDING: property={pid} {f['what']}" + ("" if f["id"] in known_hit else " (not re-observed in this run)"))
    # ---- usable at all?
    proved = sum(1 for reps in sym.values() for _, rep in reps if rep["verdict"] == "proved")
    total = sum(len(reps) for reps in sym.values())
    ran = sum(r["ok"] for r in conc.values())
    print(f"{pid}: {dis}/{obl} obligations discharged, {proved}/{total} unit cases proved, {ran} concrete inputs, {ev['wall_s']} s")
    for k, v in undecided.items():
        for ci, rep in v:
            print(f"  undecided (bounded stand-in used): {k} {reg[k].cases[ci]}: {rep['unsupported'] or [x['name'] for x in rep['unknown']][:3]}")
    for u, r in conc.items():
        if r["errors"]:
            print(f"  harness error in {u}: {r['errors'][0][-400:]}")
    for e in cerrs:
        print("  " + e[-600:])
    if violations:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        shown = violations[:1]
        for k, v in enumerate(shown):
            path = os.path.join(HERE, "replay", f"{pid}-{k}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, **v), f, indent=1, default=str)
            tail = "" if v["source"] != "verifier" else " no-failing-input-found"
            print(f"  failed obligation: {v['unit']} ({v['target']}): {v['name']}: {str(v.get('detail'))[:600]}")
            print(f"VIOLATION property={pid} replay={path}{tail}")
        return 1
    if ran == 0 and proved == 0:
        print("  nothing could be checked: the code under contract is unreachable")
        return 2
    return 0


def replay(path):
    v = json.load(open(path))
    if v["source"] == "verifier":
        print(json.dumps(v, indent=1))
        return 1
    d = tempfile.mkdtemp(prefix="vreplay")
    code = (
        "import sys,json;sys.path[:0]=[%r,%r]\n"
        "import jax;jax.config.update('jax_enable_x64',True)\n"
        "from engine.conc_main import load_all;load_all()\n"
        "from engine.base import REGISTRY\nfrom engine.conc import run_once\n"
        "v=json.load(open(%r))\n"
        "s,i=run_once(REGISTRY[v['unit']],v['case'],v['seed'],v.get('model'))\n"
        "print(s,i if isinstance(i,str) else json.dumps(i,default=str)[:3000]);sys.exit(1 if s=='violation' else 0)\n"
        % (REPO, HERE, os.path.abspath(path))
    )
    env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([REALPY, "-c", code], cwd=d, env=env)
    os.rmdir(d) if not os.listdir(d) else None
    return r.returncode


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(decide(a.property, a.tier, seed))
