"""Confirm planted bugs and write them to /verif/seeded (development tool).

usage: python3 tools/seed.py SPEC.py [ID ...]
SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs,
breaks, demo)]; everything is tried in scratch copies of /repo.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = """#!/bin/bash
cd "${REPO:-/repo}" || exit 2
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg OMP_NUM_THREADS=1 MPLCONFIGDIR=/opt/venv/mplconfig
exec /opt/venv/bin/python -W ignore "$D/demo.py"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def one(s):
    tmp = tempfile.mkdtemp(prefix="seed.")
    try:
        cp = os.path.join(tmp, "repo")
        sh(["cp", "-a", "/repo", cp])
        sh(["git", "-C", cp, "checkout", "-q", "--", "."])
        dd = os.path.join(tmp, "d")
        os.makedirs(dd)
        demo = DEMO.replace('cd "${REPO:-/repo}"', 'cd ' + cp)
        open(os.path.join(dd, "demo.sh"), "w").write(demo)
        open(os.path.join(dd, "demo.py"), "w").write(s["demo"])
        r = sh(["bash", os.path.join(dd, "demo.sh")], cwd=cp, timeout=300)
        if r.returncode != 0:
            return s["id"], "demo fails on clean: " + (r.stderr + r.stdout)[-600:]
        for f, old, new in s["edits"]:
            p = os.path.join(cp, "optbinning", f)
            src = open(p).read()
            if src.count(old) != 1:
                return s["id"], "edit matches %d times in %s: %r" % (
                    src.count(old), f, old[:60])
            open(p, "w").write(src.replace(old, new))
        diff = sh(["git", "-C", cp, "diff"]).stdout
        r = sh(["bash", os.path.join(dd, "demo.sh")], cwd=cp, timeout=300)
        if r.returncode == 0:
            return s["id"], "demo passes with the patch"
        why = (r.stderr + r.stdout).strip().splitlines()[-1:]
        t = open("/opt/vp/test.sh").read().replace("/repo", cp)
        t = t.replace("-n 4", "-n 2")
        tf = os.path.join(tmp, "test.sh")
        open(tf, "w").write(t)
        of = os.path.join(tmp, "o.json")
        sh(["bash", tf, of], timeout=900)
        res = json.load(open(of))
        ok = set(res.get("passed", res.get("pass", [])))
        lost = STABLE - ok
        if lost:
            return s["id"], "tests fail: " + ", ".join(sorted(lost)[:4])
        # the check
        r = sh([sys.executable, "-m", "sa.check", s["property"], "--root", cp,
                "--no-evidence"], cwd=HERE, timeout=900)
        out = os.path.join(HERE, "seeded", s["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(
            DEMO.replace('cd "${REPO:-/repo}" || exit 2\n', ""))
        open(os.path.join(out, "demo.py"), "w").write(s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        return s["id"], "KEPT %s check rc=%d %s | demo: %s" % (
            s["property"], r.returncode,
            "" if r.returncode == 1 else r.stdout[-300:],
            why)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    todo = [s for s in ns["SEEDS"] if not ids or s["id"] in ids]
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(one, todo):
            print(i, ":", m, flush=True)


main()
