"""Systematic mutants of the code under contract: which ones do the checks let pass?

  python3-vt tools/mutate.py FILE[:function] ...  [--workers 2] [--sample N SEED] [--list]
Every mutant is run in a scratch copy against the checks of the properties its function serves,
until one of them reports it.  Survivors are printed for review (equivalent, or a gap).
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    "exogenous_processes/children.py": {"define_child_age_update_rule": "C10 C09", "": "C11"},
    "exogenous_processes/education.py": {"": "C11"},
    "exogenous_processes/experience.py": {"": "C11"},
    "exogenous_processes/partner.py": {"": "C11"},
    "pre_processing/model_processing.py": {"": "C23 C03"},
    "pre_processing/tax_and_transfers_params.py": {"": "C03 C01"},
    "shared/experience_stock.py": {"": "C05"},
    "shared/interpolation.py": {"": "C25"},
    "shared/non_consumption_utility.py": {"": "C07"},
    "shared/non_employment.py": {"": "C04"},
    "shared/numerical_integration.py": {"": "C12"},
    "shared/tax_and_transfers.py": {"": "C01 C02"},
    "shared/tax_and_transfers_jax.py": {"": "C01 C02"},
    "shared/wages.py": {"": "C06"},
    "shared/constants_and_indices.py": {"": "C08 C09 C04 C13"},
    "simulate/constants_sim.py": {"": "C22 C20"},
    "simulate/income_sim.py": {"": "C18"},
    "simulate/initial_states.py": {"": "C19"},
    "simulate/simulate_auxiliary.py": {"get_child_care_cost_for_choice": "C18", "_interp_exp_grid": "C25", "pyth_simulate": "C20 C22 C21 C18",
                                       "": "C17 C18 C16 C22"},
    "simulate/simulate_python.py": {"": "C21 C20 C22"},
    "solve/continuous_continuation.py": {"": "C14"},
    "solve/covariates.py": {"": "C10"},
    "solve/create_state_space.py": {"": "C08 C09"},
    "solve/emaxs.py": {"": "C15"},
    "solve/validation_solve.py": {"": "C15"},
    "solve/solve_python.py": {"": "C13 C14"},
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.Pow: "*"}


def seg(src, lines, n):
    a = lines[n.lineno - 1] + len(src.split("\n")[n.lineno - 1].encode()[: n.col_offset].decode())
    b = lines[n.end_lineno - 1] + len(src.split("\n")[n.end_lineno - 1].encode()[: n.end_col_offset].decode())
    return a, b


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines, p = [], 0
    for l in src.split("\n"):
        lines.append(p)
        p += len(l) + 1
    out = []

    def add(fn, node, new, what):
        a, b = seg(src, lines, node)
        if src[a:b] != new:
            out.append((fn, node.lineno, what, src[:a] + new + src[b:], src[a:b].split("\n")[0][:60], new.split("\n")[0][:60]))

    def t(n):
        a, b = seg(src, lines, n)
        return src[a:b]

    def visit(n, fn, top):
        if isinstance(n, ast.FunctionDef):
            fn = top = n.name if not top else top
            body = n.body[1:] if ast.get_docstring(n) else n.body
            for c in body:
                visit(c, fn, top)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(fn, n, f"{t(n.left)} {CMP[type(n.ops[0])]} {t(n.comparators[0])}", "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(fn, n, f"(({t(n.left)}) {BIN[type(n.op)]} ({t(n.right)}))", "bin")
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                add(fn, n, f"({t(n.left)})", "drop-right")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            add(fn, n, f"({t(n.operand)})", "not")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(fn, n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                add(fn, n, str(n.value + 1), "const+1")
                if n.value > 0:
                    add(fn, n, str(n.value - 1), "const-1")
            elif isinstance(n.value, float):
                add(fn, n, repr(n.value * 1.5 + 0.5), "float")
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                for i in range(len(n.args) - 1):
                    x, y = n.args[i], n.args[i + 1]
                    if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(y, (ast.Name, ast.Attribute)):
                        a, _ = seg(src, lines, x)
                        _, b = seg(src, lines, y)
                        mid = src[seg(src, lines, x)[1] : seg(src, lines, y)[0]]
                        out.append((fn, n.lineno, "swap-args", src[:a] + t(y) + mid + t(x) + src[b:], t(x), t(y)))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("minimum", "maximum", "logical_and", "logical_or", "all", "any"):
                alt = {"minimum": "maximum", "maximum": "minimum", "logical_and": "logical_or", "logical_or": "logical_and", "all": "any", "any": "all"}[n.func.attr]
                add(fn, n.func, f"{t(n.func.value)}.{alt}", "fn")
        if isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(n.targets[0] if isinstance(n, ast.Assign) else n.target, (ast.Subscript,)):
            add(fn, n, "pass", "del-stmt")
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            add(fn, n, "pass", "del-stmt")
        for c in ast.iter_child_nodes(n):
            visit(c, fn, top)

    for c in tree.body:
        visit(c, "", "")
    return out


def main():
    a = sys.argv[1:]
    workers = 2
    if "--workers" in a:
        i = a.index("--workers")
        workers = int(a[i + 1])
        del a[i : i + 2]
    sample = None
    if "--sample" in a:
        i = a.index("--sample")
        sample = int(a[i + 1]), int(a[i + 2])
        del a[i : i + 3]
    only_list = "--list" in a
    a = [x for x in a if x != "--list"]
    jobs = []
    for spec in a or list(PROPS):
        f, _, want = spec.partition(":")
        for m in mutants(os.path.join("/repo/soepy", f)):
            if want and m[0] != want:
                continue
            jobs.append((f, m))
    if sample:
        import random

        jobs = random.Random(sample[1]).sample(jobs, min(sample[0], len(jobs)))
    print(len(jobs), "mutants", flush=True)
    if only_list:
        for f, m in jobs:
            print(f, m[0], m[1], m[2], m[4], "=>", m[5])
        return

    def one(k):
        f, m = jobs[k]
        root = f"/tmp/mut-{os.getpid()}-{k}"
        shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        t = time.time()
        try:
            with open(os.path.join(root, "soepy", f), "w") as fh:
                fh.write(m[3])
            pm = PROPS[f]
            res = []
            for c in pm.get(m[0], pm[""]).split():
                env = dict(os.environ, SOEPY_REPO=root, VERIF_SEED="1", VERIF_TIER="quick")
                r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--property", c, "--tier", "quick"],
                                   cwd=root, env=env, capture_output=True, text=True)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                res.append((c, r.returncode))
                if v:
                    how = "proof-only" if v[0].endswith("found") else "concrete"
                    print("killed", f, m[0], m[1], m[2], m[4], "=>", m[5], c, how, f"{time.time()-t:.0f}s", flush=True)
                    return
            print("SURVIVED", f, m[0], m[1], m[2], m[4], "=>", m[5], res, f"{time.time()-t:.0f}s",
                  [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")][:2], flush=True)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, range(len(jobs))))


if __name__ == "__main__":
    main()
