#!/usr/bin/env python3
"""Check lemmas/Engine.lean with Lean: every theorem accepted, no axiom but Lean's own, no sorry."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(HERE, "lemmas", "Engine.lean")
OWN = {"propext", "Classical.choice", "Quot.sound"}


def start():
    lean = shutil.which("lean") or os.path.expanduser("~/.elan/bin/lean")
    try:
        return time.time(), subprocess.Popen(
            [lean, FILE], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True
        )
    except OSError as e:
        return time.time(), e


def finish(h, timeout=120):
    t0, p = h
    src = open(FILE).read()
    names = re.findall(r"^theorem (\S+)", src, re.M)
    r = dict(file="lemmas/Engine.lean", theorems=len(names), accepted=0, checker="Lean 4, Mathlib", problems=[])
    if isinstance(p, OSError):
        r["problems"].append(f"Lean could not be started: {p}")
        return r
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        r["problems"].append("Lean timed out")
        return r
    r["wall_s"] = round(time.time() - t0, 2)
    out = re.sub(r"\n +", " ", out)
    for n in names:
        m = re.search(rf"'Engine\.{re.escape(n)}' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])", out)
        used = set(x.strip() for x in (m.group(2) or "").split(",") if x.strip()) if m else {"not reported"}
        if m and used <= OWN:
            r["accepted"] += 1
        else:
            r["problems"].append(f"{n}: {sorted(used - OWN)}")
    if p.returncode:
        r["problems"].append(out[-500:])
    return r


if __name__ == "__main__":
    r = finish(start())
    print(json.dumps(r, indent=1))
    sys.exit(0 if not r["problems"] else 1)
