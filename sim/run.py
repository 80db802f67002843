"""Command line of the simulator: run a property, or replay a plan file."""

import argparse
import collections
import json
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import core  # noqa: E402
import farm  # noqa: E402

TIME_LIMIT = {"quick": 600, "thorough": 6 * 3600}
RUN_ALARM = 60  # seconds of real time before a run is re-examined with a step budget
STEP_BUDGET = 3_000_000


def registry():
    import registry as r
    return r.PROPS


def get_prop(pid):
    return registry()[pid]()


class Alarm(BaseException):
    pass


def execute(prop, plan):
    """Play one plan.  Returns (ctx, violation or None)."""
    ctx = core.Ctx()
    try:
        prop.run(plan, ctx)
        return ctx, None
    except core.Violation as v:
        ctx.event("VIOLATION", v.kind, v.msg)
        return ctx, v
    except core.IllPosed as e:
        ctx.event("ILL-POSED", e)
        ctx.probe("ill_posed_discarded")
        return ctx, None
    except Exception as e:  # noqa: BLE001
        # On a tree where the property holds no run ends like this (see DESIGN.md):
        # either library code raised where it may not, or it returned something that
        # the checking code cannot make sense of.
        if isinstance(e, (MemoryError, OSError, ImportError)):
            raise
        frames = traceback.extract_tb(e.__traceback__)
        where = f"{os.path.basename(frames[-1].filename)}:{frames[-1].name}" if frames else "?"
        inside = frames and "/pykalman/" in frames[-1].filename.replace(os.sep, "/")
        v = core.Violation("raised" if inside else "unusable-result",
                           f"{type(e).__name__} in {where}: {e}")
        ctx.event("VIOLATION", v.kind, v.msg)
        return ctx, v


def execute_guarded(prop, plan):
    """As execute, but a run that does not end is decided by a step budget."""

    def on_alarm(*_):
        raise Alarm()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(RUN_ALARM)
    try:
        return execute(prop, plan)
    except Alarm:
        pass
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return execute_budget(prop, plan)


def execute_budget(prop, plan):
    """Count lines of library code: deterministic notion of 'no progress'."""
    count = 0
    mon = sys.monitoring
    tool = 4

    def on_line(code, line):
        nonlocal count
        if "pykalman" not in code.co_filename:
            return mon.DISABLE
        count += 1
        if count > STEP_BUDGET:
            raise core.BudgetExceeded()

    mon.use_tool_id(tool, "budget")
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)
    try:
        return execute(prop, plan)
    except core.BudgetExceeded:
        ctx = core.Ctx()
        v = core.Violation("no-progress", f"more than {STEP_BUDGET} lines of library code "
                           "without finishing the run")
        return ctx, v
    finally:
        mon.set_events(tool, 0)
        mon.register_callback(tool, mon.events.LINE, None)
        mon.free_tool_id(tool)


def make_plan(prop, pid, seed, i):
    rng = core.rng_for(seed, pid, i)
    plan = prop.gen(rng, i)
    plan["property"] = pid
    plan["seed"] = [seed, pid, i]
    # through JSON, so that a replayed plan is the same object
    return json.loads(core.dumps(plan))


def worker(args):
    pid, seed, lo, hi = args
    prop = get_prop(pid)
    core.MARGIN.clear()
    out = {"margin": core.MARGIN, "runs": 0, "counts": collections.Counter(), "faults": collections.Counter(),
           "sigs": set(), "sim_time": 0.0, "ops": 0, "violation": None, "error": None,
           "sample": None, "faulted_runs": 0, "digests": []}
    for i in range(lo, hi):
        try:
            plan = make_plan(prop, pid, seed, i)
            ctx, v = execute_guarded(prop, plan)
        except BaseException:  # noqa: BLE001 - reported as an error of the check
            out["error"] = f"run {i}: " + traceback.format_exc()
            return out
        out["runs"] += 1
        out["counts"] += ctx.counts
        out["faults"] += ctx.faults
        out["faulted_runs"] += bool(ctx.faults)
        out["sigs"].add(ctx.signature())
        out["sim_time"] += ctx.sim_time
        out["ops"] += ctx.ops
        out["digests"].append(ctx.digest())
        if out["sample"] is None and i % 97 == 5:
            out["sample"] = {"seed": plan["seed"], "log": ctx.log[:25],
                             "faults": dict(ctx.faults)}
        if v is not None:
            out["violation"] = {"plan": plan, "kind": v.kind, "msg": v.msg, "index": i,
                                "lo": lo}
            return out
    return out


def known_findings(pid):
    """Listed findings: plans (by content) that fail and are accepted as such."""
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == pid]


def write_replay(pid, plan, v, tried):
    out = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(out, exist_ok=True)
    plan = dict(plan)
    plan["violation"] = {"kind": v.kind, "message": v.msg}
    plan["minimisation_steps"] = tried
    name = f"{pid}-{core.derive_seed(core.dumps(plan)) % 10**10:010d}.json"
    path = os.path.join(out, name)
    with open(path, "w") as f:
        json.dump(plan, f, indent=1)
    return path


def last_of(job):
    """Play plans one after the other; what the last one violates."""
    pid, plans = job
    prop = get_prop(pid)
    for plan in plans[:-1]:
        execute_guarded(prop, plan)
    _, v = execute_guarded(prop, plans[-1])
    return (v.kind, v.msg) if v else None


def shortest(items, fails, deadline):
    """A short sublist that still fails."""
    for n in (1, 2, 4, 8):
        if n < len(items) and fails(items[-n:]):
            items = items[-n:]
            break
    k = len(items) - 1
    while k >= 0 and time.monotonic() < deadline:
        fewer = items[:k] + items[k + 1:]
        if fails(fewer):
            items = fewer
        k -= 1
    return items


def report(pid, viol):
    prop = get_prop(pid)
    plan, kind = viol["plan"], viol["kind"]
    print(f"run {viol['index']} violates {pid}: {kind}: {viol['msg']}", flush=True)
    deadline = time.monotonic() + 90

    def outcome(plans):
        return farm.isolated(last_of, (pid, plans))

    # Library code may leave something behind in the process.  First from a fresh
    # process; if that does not fail, with the runs that went before in the chunk.
    before = []
    if kind != "no-progress" and outcome([plan]) is None:
        before = [make_plan(prop, pid, plan["seed"][0], i)
                  for i in range(viol["lo"], viol["index"])]
        first = outcome(before + [plan])
        if first is None:
            print("the violation did not repeat", flush=True)
            return 2
        kind = first[0]
        before = shortest(before, lambda some: (outcome(some + [plan]) or [None])[0] == kind,
                          deadline)

    def still(cand):
        if time.monotonic() > deadline:
            return None
        got = outcome(before + [cand])
        return got[0] if got else None

    if kind == "no-progress":
        small, tried = plan, 0
    else:
        small, tried = core.minimise(plan, kind, still, prop.shrinkers)
    got = outcome(before + [small])
    if got is None:
        small = plan
        got = outcome(before + [plan])
    if got is None:
        print("the violation did not repeat", flush=True)
        return 2
    v = core.Violation(*got)
    if before:
        print(f"needs {len(before)} earlier runs in the same process")
        small = dict(small, before=before)
    path = write_replay(pid, small, v, tried)
    # the file must reproduce the violation in a fresh process
    r = subprocess.run([sys.executable, "-B", os.path.join(HERE, "run.py"), "--replay", path],
                       capture_output=True, text=True, timeout=300)
    ok = r.returncode == 1 and f"VIOLATION property={pid}" in r.stdout
    print(f"minimised in {tried} steps: {v.kind}: {v.msg}")
    print(f"replay in a fresh process: {'reproduced' if ok else 'NOT reproduced'}")
    if not ok:
        print(r.stdout[-2000:], r.stderr[-2000:])
        path = write_replay(pid, dict(plan, before=before), v, 0)
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return 1


def replay(path):
    with open(path) as f:
        plan = json.load(f)
    pid = plan["property"]
    prop = get_prop(pid)
    for earlier in plan.pop("before", []):
        execute_guarded(prop, earlier)
    ctx, v = execute_guarded(prop, plan)
    for line in ctx.log:
        print(" ", line)
    print("faults:", dict(ctx.faults))
    if v is None:
        print(f"no violation of {pid}")
        return 0
    print(f"{v.kind}: {v.msg}")
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", 8)))
    ap.add_argument("--digest", action="store_true", help="print a digest of all event logs")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    pid = a.property
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print(f"property={pid} tier={tier} VERIF_SEED={seed}", flush=True)
    start = time.monotonic()
    prop = get_prop(pid)
    total = a.runs or prop.runs[tier]
    chunk = max(1, min(100, total // 64 or 1))  # not a matter of the number of workers
    jobs = [(pid, seed, lo, min(total, lo + chunk)) for lo in range(0, total, chunk)]
    agg = {"runs": 0, "counts": collections.Counter(), "faults": collections.Counter(),
           "sigs": set(), "sim_time": 0.0, "ops": 0, "faulted_runs": 0}
    margin = {}
    samples, viol, error = [], None, None
    bads, parts = {}, {}
    deadline = start + TIME_LIMIT[tier]
    try:
        for i, o in farm.run(worker, jobs, a.workers, deadline,
                             lambda o: bool(o["error"] or o["violation"])):
            for k in ("runs", "sim_time", "ops", "faulted_runs"):
                agg[k] += o[k]
            agg["counts"] += o["counts"]
            agg["faults"] += o["faults"]
            agg["sigs"] |= o["sigs"]
            parts[i] = o["digests"]
            for k, v in o["margin"].items():
                margin[k] = max(margin.get(k, 0.0), v)
            if o["sample"] and len(samples) < 3:
                samples.append(o["sample"])
            if o["error"] or o["violation"]:
                bads[i] = o
    except (TimeoutError, RuntimeError) as e:
        error = f"only {agg['runs']} of {total} runs finished: {type(e).__name__}: {e}"
    if bads:
        viols = [i for i in bads if bads[i]["violation"]]
        o = bads[min(viols or bads)]
        error, viol = o["error"], o["violation"]
    digests = [d for i in sorted(parts) for d in parts[i]]
    if a.digest:
        import hashlib
        print("digest", hashlib.sha256("".join(digests).encode()).hexdigest())
    search_s = time.monotonic() - start
    rc = 0
    if error:
        print("ERROR of the check:", error)
        rc = 2
    elif viol:
        rc = report(pid, viol)
    for k in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if not samples:
        samples = [{"seed": [seed, pid, 0], "note": "first run only"}]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["sigs"]),
            "rule": prop_rule(prop),
            "samples": samples,
            "seeds_per_hour": round(agg["runs"] / max(search_s, 1e-9) * 3600),
            "library_calls": agg["ops"],
            "simulated_time_s": round(agg["sim_time"], 1),
            "runs_with_faults": agg["faulted_runs"],
            "faults_fired": dict(sorted(agg["faults"].items())),
            "probes": dict(sorted(agg["counts"].items())),
            "largest_error_over_tolerance": {k: float(f"{v:.3g}") for k, v in sorted(margin.items())},
            "components": {"real": getattr(prop, "real", REAL), "stub": getattr(prop, "stub", STUB)},
            "exhaustive": False,
        },
        "assumptions": getattr(prop, "assumptions", [
            "seeded sampling of plans: a clean batch is evidence, not proof",
            "numpy and scipy compute correctly"]),
        "wall_s": round(time.monotonic() - start, 2),
        "violations": 1 if rc == 1 else 0,
    }
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)
    print(f"{agg['runs']} runs, {len(agg['sigs'])} distinct, {agg['ops']} library calls, "
          f"{sum(agg['faults'].values())} faults, {search_s:.1f} s")
    print("faults:", dict(sorted(agg["faults"].items())))
    print("probes:", dict(sorted(agg["counts"].items())))
    print("largest error / tolerance:", {k: float(f"{v:.2g}") for k, v in sorted(margin.items())})
    return rc


REAL = ["every pykalman function under test", "numpy", "scipy", "pickle"]
STUB = ["simulated clock", "sensors", "network", "durable store", "process crash and restart"]


def prop_rule(prop):
    return getattr(prop, "rule", (
        "one plan per seed; two runs are distinct when the sequence of fault, delivery, "
        "missing-measurement, checkpoint, restart and query events, the filter class, the "
        "dimensions or the set of time-varying parameters differ (hash of that trace)"))


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
