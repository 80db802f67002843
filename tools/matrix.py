"""Which checks catch which planted bugs?  usage: matrix.py [--own] [ID ...]

Runs checks (all, or only the planted property's own) from a scratch copy of the
committed machinery against patched scratch copies of /repo.
"""
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [f"C{i:02d}" for i in range(1, 17)] + ["C19"]


def main():
    own = "--own" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(f"{VERIF}/seeded"))
    for bid in ids:
        meta = json.load(open(f"{VERIF}/seeded/{bid}/meta.json"))
        tree, run = f"/tmp/matrix/{bid}/repo", f"/tmp/matrix/{bid}/verif"
        shutil.rmtree(f"/tmp/matrix/{bid}", ignore_errors=True)
        os.makedirs(run)
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        subprocess.run(["git", "apply", f"{VERIF}/seeded/{bid}/patch.diff"], cwd=tree, check=True)
        for d in ("bin", "sim", "known_findings.json"):
            subprocess.run(["cp", "-a", f"{VERIF}/{d}", run], check=True)
        row = []
        for p in ([meta["property"]] if own else [meta["property"]] + [x for x in ALL if x != meta["property"]]):
            t = time.time()
            r = subprocess.run([f"{run}/bin/check", p], capture_output=True, text=True,
                               env=dict(os.environ, SIM_REPO=tree, VERIF_SEED="1", VERIF_TIER="quick"))
            hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
            kind = [x for x in r.stdout.splitlines() if x.startswith("minimised")]
            row.append(f"{p}:{'CAUGHT' if hit else 'missed' if r.returncode == 0 else 'rc%d' % r.returncode}"
                       f"({time.time() - t:.0f}s)" + (" " + kind[0][:150] if hit and kind and p == meta['property'] else ""))
            if p == meta["property"] and r.returncode == 2:
                print(r.stdout[-1500:], r.stderr[-1500:])
        print(bid, " ".join(row), flush=True)
        shutil.rmtree(f"/tmp/matrix/{bid}", ignore_errors=True)


main()
