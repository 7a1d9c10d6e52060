"""Run each planted bug's own check (or the named ones) against a scratch copy with the bug applied.

  python3-vt tools/hunt.py [bug id ...] [--props C01,C02]
"""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    a = sys.argv[1:]
    props = None
    if "--props" in a:
        i = a.index("--props")
        props = a[i + 1].split(",")
        del a[i : i + 2]
    ids = a or sorted(os.listdir(os.path.join(HERE, "seeded")))
    for b in ids:
        d = os.path.join(HERE, "seeded", b)
        meta = json.load(open(os.path.join(d, "meta.json")))
        root = f"/tmp/hunt-{os.getpid()}"
        shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        try:
            r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=root, capture_output=True, text=True)
            if r.returncode:
                print(b, "PATCH DOES NOT APPLY", r.stderr[-200:])
                continue
            for c in props or [meta["property"]]:
                env = dict(os.environ, SOEPY_REPO=root, VERIF_SEED="1", VERIF_TIER="quick")
                t = time.time()
                r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--property", c, "--tier", "quick"],
                                   cwd=HERE, env=env, capture_output=True, text=True)
                fo = [l.strip() for l in r.stdout.splitlines() if "failed obligation" in l or l.startswith("VIOLATION")]
                print(b, c, r.returncode, "CAUGHT" if any("VIOLATION" in l for l in fo) else "missed", f"{time.time()-t:.0f}s",
                      " | ".join(l[:160] for l in fo), flush=True)
        finally:
            shutil.rmtree(root)


if __name__ == "__main__":
    main()
