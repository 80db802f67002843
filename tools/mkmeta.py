"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(),
         note=None, na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, state=list(state), observe=list(observe),
                  note=note, na=na, technique=technique))


STD, UNS = "pykalman/standard.py", "pykalman/unscented.py"
CHO, BIE, SUN = "pykalman/sqrt/cholesky.py", "pykalman/sqrt/bierman.py", "pykalman/sqrt/unscented.py"
ALL = [STD, UNS, CHO, BIE, SUN]

prop("C01", "Online tracking equals batch filtering under loss, crashes and late arrivals",
     "For every filter class and every history of delivered, lost, late and duplicated "
     "measurements, process crashes and restarts from a persisted model and estimate, the "
     "estimates obtained by calling filter_update tick by tick equal those filter() computes from "
     "the same delivered measurements. Parameters passed to one filter_update call act exactly like "
     "the same values held by the model. A model parameter that varies in time and is not passed to "
     "filter_update is refused with an error.",
     ["histories", "crash_points", "fault_sequences", "inputs"],
     "all models (constant and time-varying parameters, offsets, defaults, any dimensions), all "
     "delivery/loss/rollback histories, all crash and checkpoint points, all choices of explicitly "
     "passed parameters",
     "tests run filter_update over one fixed data set per class without losses, crashes or "
     "overridden parameters",
     ALL, [("filter_update and filter share the predict/correct kernels", "filter_update, filter, _filter of each class"),
           ("refusal of unspecified time-varying parameters", "filter_update / _arg_or_default")],
     observe=["filter_update return value", "filter return value"],
     note="online estimates are compared with the library's own batch filter at every late "
     "arrival, restart and end of run")

prop("C02", "Filtered estimates are the exact posterior of the delivered measurements",
     "For every linear-Gaussian model - constant or time-varying matrices, offsets and (standard "
     "filter) covariances - and every pattern of lost measurements, the mean and covariance that "
     "filter and filter_update report for a tick are those of the state given exactly the "
     "measurements delivered up to that tick; the three linear filters and, on affine functions, the "
     "three unscented filters all agree with it. A row with any masked component counts as lost. A "
     "filter_update call with its own observation matrix, offset and covariance may have another "
     "number of measured components.",
     ["histories", "inputs", "fault_sequences"],
     "all linear-Gaussian models and affine unscented models, all measurement values, all loss patterns",
     "tests compare with one stored Matlab run, one model, no missing data in the middle, and offsets "
     "or time-varying parameters in few combinations",
     ALL, [("Kalman recursions", "_filter_predict/_filter_correct of each class"),
           ("missing-measurement branches", "_filter_correct")],
     observe=["filter", "filter_update"],
     note="oracle: conditioning of the joint Gaussian of the whole trajectory, no recursion shared "
     "with the library")

prop("C03", "Smoothed estimates are the exact posterior given all delivered data",
     "For every linear-Gaussian model and every pattern of lost measurements, including losses at "
     "the start, at the end and everywhere, the smoothed mean and covariance of every tick are those of "
     "the state given all delivered measurements. This holds for all linear filters, and for the "
     "unscented filters on affine functions.",
     ["histories", "inputs", "fault_sequences"],
     "all linear-Gaussian models and affine unscented models, all measurement values, all loss patterns",
     "tests check one stored smoothing run; no loss patterns, no time-varying parameters",
     ALL, [("Rauch-Tung-Striebel recursion", "_smooth_update/_smooth, smooth")],
     observe=["smooth"],
     note="oracle: conditioning of the joint Gaussian of the whole trajectory")

prop("C04", "loglikelihood is the log density of exactly the delivered measurements",
     "For every linear-Gaussian model, constant or time-varying, and every pattern of lost measurements, "
     "loglikelihood() returns the logarithm of the joint density of exactly the delivered measurements; "
     "it is 0 when nothing was delivered.",
     ["histories", "inputs", "fault_sequences"],
     "all linear-Gaussian models of the three linear filters, all measurement values, all loss patterns",
     "tests compare one data set with scipy, without losses or time-varying parameters",
     [STD, CHO, BIE, "pykalman/utils_numpy.py"],
     [("sum of innovation log densities over delivered ticks", "_loglikelihoods, log_multivariate_normal_density")],
     observe=["loglikelihood"],
     note="oracle: Cholesky factor of the joint covariance of the delivered measurements")

prop("C11", "Nonlinear tracking follows the textbook unscented recursions at every tick",
     "For every nonlinear model with smooth functions, functions that differ from tick to tick and every "
     "pattern of lost measurements, filter, filter_update and smooth of the three unscented filters "
     "compute the textbook unscented recursions, using for every step the function that belongs to that "
     "tick; the square-root variant computes the same as the additive one.",
     ["histories", "inputs", "fault_sequences"],
     "all smooth transition/observation functions for which the textbook recursion stays well "
     "conditioned, all loss patterns and delivery histories",
     "tests use one pair of functions, the same at every tick, and stored numbers for one run",
     [UNS, SUN], [("sigma points and unscented transform", "moments2points, unscented_transform"),
                  ("per-tick function selection", "filter, smooth")],
     observe=["filter", "filter_update", "smooth"],
     note="oracle: an independent textbook implementation; runs in which the textbook recursion itself "
     "loses positive definiteness (negative centre weights) are discarded and counted")

prop("C14", "Published estimates are never rewritten by what happens later",
     "The filtered estimate of a tick depends only on measurements up to that tick: whatever arrives, is "
     "lost or changes afterwards, filter() on the longer record reports the same values for it. At the "
     "last tick of any record the smoothed estimate equals the filtered one.",
     ["histories", "inputs", "fault_sequences"],
     "all models of all six classes, all prefixes of all records, all futures",
     "tests never run a filter on a record and on its extension",
     ALL, [("forward recursion uses rows up to t only", "filter, _filter"),
           ("smoother starts from the last filtered estimate", "smooth, _smooth")],
     observe=["filter", "smooth"],
     note="three alternative futures per published prefix: as delivered, altered, all lost")

prop("C15", "What sits in the slot of a lost measurement never influences anything",
     "Values stored under a mask (zeros, huge numbers, NaN, infinities), which components of a lost row "
     "are masked, and whether a lost measurement is given as None, as a fully or as a partly masked "
     "vector make no difference to the result of filter, smooth, loglikelihood, em or filter_update.",
     ["inputs", "histories", "fault_sequences"],
     "all models of all six classes, all loss patterns, all contents of lost slots",
     "tests use masks over ordinary values and never vary the hidden contents",
     ALL, [("mask tests", "_filter_correct, _loglikelihoods, EM updates, _parse_observations")],
     observe=["filter", "smooth", "loglikelihood", "em", "filter_update"],
     note="each record is run with clean, adversarial and mixed contents in its lost slots")

exec(open(os.path.join(HERE, "tools", "meta_more.py")).read()) if os.path.exists(
    os.path.join(HERE, "tools", "meta_more.py")) else None

P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
TECH = "deterministic simulation with fault injection: seeded search over simulated histories"
checks = [{
    "property": p["id"], "quick_cmd": f"bin/check {p['id']}",
    "thorough_cmd": f"VERIF_TIER=thorough bin/check {p['id']}",
    "evidence_file": f"evidence/{p['id']}.json",
    "technique": p["technique"] or TECH, "level": "exploration",
    "level_note": p["note"] + ". Seeded sampling: no violation found is evidence, not proof. "
    "Trusts numpy, scipy and the reference models in sim/oracle.py."}
    for p in P if not p["na"]]
man = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
       "notes": "No hooks in /repo: numpy's random generator, pickling, sys.monitoring, "
       "builtins.open and user callbacks are the seams. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
