"""Confirm planted bugs: patch applies, builds, stable tests pass, the demonstration
tells the two trees apart; then keep them under /verif/seeded/<id>/.

usage: plant.py BUGFILE.py [ID ...]      (BUGFILE defines BUGS: id -> dict)
Works in scratch copies of /repo that are mounted over /repo in a private mount
namespace, so that the real tree is never touched.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import sys, warnings
import numpy as np
from numpy import ma
warnings.simplefilter("ignore")
np.seterr(all="ignore")
'''


def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True,
                          timeout=timeout, executable="/bin/bash")


def inside(tree, cmd, timeout=900):
    """Run cmd with `tree` mounted over /repo."""
    return sh(f"unshare -m bash -c 'mount --bind {tree} /repo && cd /repo && {cmd}'", timeout=timeout)


def one(bid, bug):
    work = f"/tmp/plant/{bid}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(f"{work}/demo")
    tree = f"{work}/repo"
    try:
        sh(f"cp -a /repo {tree} && git -C {tree} checkout -q -- .")
        for path, old, new in bug["edits"]:
            p = f"{tree}/{path}"
            s = open(p).read()
            if s.count(old) != bug.get("count", 1):
                return bid, f"edit of {path}: {s.count(old)} matches of {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=tree).stdout
        open(f"{work}/demo/demo.py", "w").write(PRE + bug["demo"])
        open(f"{work}/demo/demo.sh", "w").write(
            '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
            'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 '
            'exec /opt/venv/bin/python "$here/demo.py"\n')
        r = sh(f"bash {work}/demo/demo.sh", cwd="/repo", timeout=300)
        if r.returncode:
            return bid, "demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-800:]
        r = sh(f"bash {work}/demo/demo.sh", cwd=tree, timeout=300)
        if not r.returncode:
            return bid, "demo passes with the patch: " + (r.stdout + r.stderr)[-300:]
        said = (r.stdout + r.stderr).strip().splitlines()[-1:]
        if "--no-tests" not in sys.argv:
            r = inside(tree, "bash /opt/vp/build.sh >/dev/null 2>&1")
            if r.returncode:
                return bid, "does not build"
            r = inside(tree, f"bash /opt/vp/test.sh {work}/out.json")
            res = json.load(open(f"{work}/out.json"))
            flat = json.dumps(res)
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = res.get("passed", res)
            bad = [t for t in stable if t not in passed]
            if bad:
                return bid, f"tests fail: {bad[:4]} {flat[:200] if len(bad) > 40 else ''}"
        out = f"{VERIF}/seeded/{bid}"
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(diff)
        for f in ("demo.sh", "demo.py"):
            shutil.copy(f"{work}/demo/{f}", out)
        json.dump({"property": bug["property"], "needs": bug["needs"],
                   "what_it_breaks": bug["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
        return bid, f"KEPT ({said})"
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    spec = importlib.util.spec_from_file_location("bugs", args[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = args[1:] or list(m.BUGS)
    with ThreadPoolExecutor(4) as ex:
        for bid, res in ex.map(lambda b: one(b, m.BUGS[b]), ids):
            print(bid, res, flush=True)


main()
