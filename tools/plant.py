"""Confirm planted bugs in a scratch copy and write seeded/<id>/.

usage: plant.py [id ...]     definitions are in tools/bugs.py
A bug is kept only if its patch applies to HEAD, the existing tests pass with it, and its
demonstration passes without and fails with it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from bugs import BUGS, COMMON

DEMO_SH = """#!/bin/bash
# exit 0: the property holds; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 TMPDIR="$work"
cd "$work" && /opt/venv/bin/python "$here/demo.py"
"""


def run(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(ids):
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
    for b in BUGS:
        if ids and b["id"] not in ids:
            continue
        out = os.path.join(HERE, "seeded", b["id"])
        if not ids and os.path.exists(os.path.join(out, "meta.json")):
            continue
        d = tempfile.mkdtemp(prefix="plant")
        try:
            r = os.path.join(d, "repo")
            run(["git", "clone", "-q", "/repo", r])
            for ed in b["edits"]:
                p = os.path.join(r, ed[0])
                s = open(p).read()
                assert s.count(ed[1]) == 1, (b["id"], ed[0], s.count(ed[1]))
                open(p, "w").write(s.replace(ed[1], ed[2]))
            patch = run(["git", "diff"], cwd=r).stdout
            demo = os.path.join(d, "demo")
            os.makedirs(demo)
            open(os.path.join(demo, "demo.sh"), "w").write(DEMO_SH)
            open(os.path.join(demo, "demo.py"), "w").write(COMMON + b["demo"])
            bad = run(["bash", os.path.join(demo, "demo.sh")], cwd=r)
            good = run(["bash", os.path.join(demo, "demo.sh")], cwd="/repo")
            if good.returncode != 0 or bad.returncode == 0:
                print(b["id"], "DEMO NOT DISTINGUISHING", good.returncode, bad.returncode, good.stdout[-800:], bad.stdout[-800:], flush=True)
                continue
            t = open("/opt/vp/test.sh").read().replace("/repo", r)
            open(os.path.join(d, "test.sh"), "w").write(t)
            oj = os.path.join(d, "out.json")
            tr = run(["bash", os.path.join(d, "test.sh"), oj])
            res = json.load(open(oj))
            passed = set(res.get("passed", []))
            bl = json.load(open("/opt/vp/BASELINE.json"))
            want = set(bl.get("stable") or bl.get("passed") or bl.get("tests"))
            miss = sorted(want - passed)
            if miss:
                print(b["id"], "TESTS FAIL:", len(miss), miss[:3], flush=True)
                continue
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(patch)
            for f in ("demo.sh", "demo.py"):
                shutil.copy(os.path.join(demo, f), out)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
            print(b["id"], "kept", flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main(sys.argv[1:])
