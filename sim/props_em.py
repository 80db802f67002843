"""Expectation maximisation as a long-running, crashing job: C05 and C06."""

import copy
import pickle
import warnings

import numpy as np

import kernel
import models
import service as sv
import track
from core import IllPosed, Violation, clone, close, plain, list_shrinker, set_shrinker
from models import LINEAR
from oracle import Dense, em_reference

VARS = ["A", "b", "Q", "C", "d", "R", "mu0", "S0"]


def gen_job(rng, timed=True):
    """A linear model, data and a choice of parameters to learn."""
    cls = rng.choice(LINEAR)
    T = rng.choice([3, 4, 5, 6, 8, 10, 12, 16])
    if rng.random() < 0.03:
        T = rng.choice([24, 35, 50, 70])
    n = rng.choice([1, 1, 2, 2, 3])
    m = rng.choice([1, 2, 2, 3])
    if rng.random() < 0.06:
        n, m = rng.choice([4, 5, 6]), rng.choice([1, 2, 4, 5])
    tiny = rng.random() < 0.03
    if tiny:
        T = rng.choice([1, 2])
    model = models.gen_linear(rng, cls, T, n=n, m=m, p_int=0.08,
                              **({} if timed and not tiny else {"p_timed": 0.0, "p_timed_cov": 0.0}))
    data = sv.gen_data(rng, model)
    keep = rng.sample(range(T), min(T, 2))
    for t in keep:
        data["have"][t] = 1
    how = rng.choice(["default", "ctor", "list", "list", "tuple", "set", "all"])
    if how == "default":
        keys = ["Q", "R", "mu0", "S0"]
    elif how == "all":
        keys = list(VARS)
    else:
        keys = [k for k in VARS if rng.random() < 0.4]
        if not keys and rng.random() < 0.8:
            keys = [rng.choice(VARS)]
    if models.is_timed(model, "Q") or models.is_timed(model, "R"):
        # documented updates are not maximisers under time-varying covariances
        if how in ("default", "all"):
            how = "list"
        if models.is_timed(model, "Q"):
            keys = [k for k in keys if k not in ("A", "b")]
        if models.is_timed(model, "R"):
            keys = [k for k in keys if k not in ("C", "d")]
    if tiny and T == 1:
        # no transition was seen; the initial state is confounded with the rest
        how, keys = "list", [k for k in keys if k in ("d", "R", "mu0", "S0")] or ["mu0"]
    if not model["int"] and rng.random() < 0.3:
        # the same job in other units
        w = rng.choice([0, 0, 3])
        u = rng.choice([0, 5, -5, 10, -10, 20, -20])
        model["units"] = [[v + rng.randint(-w, w) for _ in range(d)]
                          for v, d in ((u, n), (u + rng.choice([0, 0, 4, -4]), m))]
    return {"model": model, "data": data, "how": how, "keys": keys}


def job_model(plan, **extra):
    if plan["how"] == "ctor":
        extra["em_vars"] = [models.LIN_PARAMS[k][0] for k in plan["keys"]]
    return models.build(plan["model"], **extra)


def em_args(plan, keys=None):
    """em_vars argument for the call, or nothing."""
    how = plan["how"]
    if keys is not None:
        return {"em_vars": [models.LIN_PARAMS[k][0] for k in keys]}
    if how in ("default", "ctor"):
        return {}
    if how == "all":
        return {"em_vars": "all"}
    names = [models.LIN_PARAMS[k][0] for k in plan["keys"]]
    return {"em_vars": {"list": list, "tuple": tuple, "set": set}[how](names)}


def sound_params(theta, T):
    """Covariances that are (nearly) singular end what can be demanded."""
    for k in ("Q", "R", "S0"):
        M = theta[k]
        for X in (M if M.ndim == 3 else [M]):
            e = np.linalg.eigvalsh((X + X.T) / 2)
            if not (e[0] > 1e-4 * e[-1] and e[0] > 1e-6 and e[-1] < 1e5):
                raise IllPosed(f"{k} degenerates under EM: {e}")
    for k, M in theta.items():
        if not np.all(np.isfinite(M)) or np.max(np.abs(M), initial=0.0) > 1e4:
            raise IllPosed(f"{k} diverges under EM")
    A = theta["A"]
    # the reference conditions the joint distribution of the whole trajectory
    if A.ndim == 2 and max(abs(np.linalg.eigvals(A))) > min(2.0, 10 ** (4.0 / T)):
        raise IllPosed("A becomes explosive under EM")


def other_keys(rng, plan):
    """Another choice of parameters, for a single call."""
    if rng.random() < 0.65:
        return None
    keys = [k for k in VARS if rng.random() < 0.35] or ["mu0"]
    if plan["model"]["T"] == 1:
        keys = [k for k in keys if k in ("d", "R", "mu0", "S0")] or ["mu0"]
    if models.is_timed(plan["model"], "Q"):
        keys = [k for k in keys if k not in ("A", "b")]
    if models.is_timed(plan["model"], "R"):
        keys = [k for k in keys if k not in ("C", "d")]
    return keys


def trajectory(plan, schedule):
    """theta_0, theta_1, ... of the documented EM iteration (own reference).

    `schedule` holds the parameters learned in each iteration.
    """
    model, data = plan["model"], plan["data"]
    lin = sv.as_model({k: models.lin_value(model, k) for k in VARS}, model)
    out, lls = [{k: models.lin_value(lin, k) for k in VARS}], []
    rows = [t for t in range(model["T"]) if data["have"][t]]
    for keys in schedule:
        sound_params(out[-1], model["T"])
        try:
            x = Dense(lin).condition(data["z"], data["have"], model["T"])
            xx = [x.sc[t] + np.outer(x.sm[t], x.sm[t]) for t in range(model["T"])]
            for s in ([sum(xx[t] for t in rows)] * ("C" in keys)
                      + [sum(xx[:-1])] * ("A" in keys)):
                if np.linalg.cond(s) > 1e5:
                    raise IllPosed("second moments nearly singular")
            theta, ll = em_reference(lin, data["z"], data["have"], keys)
        except np.linalg.LinAlgError as e:
            raise IllPosed(str(e)) from e
        lls.append(ll)
        out.append(theta)
        lin = sv.as_model(theta, model)
    sound_params(out[-1], model["T"])
    try:
        lls.append(Dense(lin).condition(data["z"], data["have"], model["T"]).ll)
    except np.linalg.LinAlgError as e:
        raise IllPosed(str(e)) from e
    return out, lls


EM_SHRINK = [
    list_shrinker("chunks"),
    list_shrinker("keys"),
    set_shrinker([(("model", "units"), None), (("how",), "list"), (("data", "batch_form"), "ma")]),
]


class EmProp:
    shrinkers = EM_SHRINK
    stub = ["trainer process, its crashes and its checkpoint store", "injected failures"]
    real = ["em and everything below it", "numpy", "scipy", "pickle", "copy"]


class C06(EmProp):
    """EM: documented update, only em_vars change, likelihood never decreases."""

    runs = {"quick": 7000, "thorough": 200000}
    rule = ("one plan per seed: model, measurements with losses, parameters to learn, chunking of "
            "the iterations; distinct when class, dimensions, learned set, loss pattern, chunking "
            "or time-varying parameters differ")

    def gen(self, rng, i):
        if rng.random() < 0.02:
            return self.gen_training(rng)
        plan = gen_job(rng)
        plan["chunks"] = [{"n": rng.choice([0, 1, 1, 1, 2, 3]), "keys": other_keys(rng, plan)}
                          for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if rng.random() < 0.04:
            # a whole training, also with the default number of iterations
            plan["chunks"][-1] = {"n": rng.choice([10, 10, 20]), "keys": None}
            plan["chunks"][-1]["default"] = plan["chunks"][-1]["n"] == 10
        return plan

    @staticmethod
    def gen_training(rng):
        """A whole training on measurements that tell little."""
        n = rng.choice([2, 2, 3])
        T = rng.choice([12, 20, 30])
        model = models.gen_linear(rng, rng.choice(["standard", "standard", *LINEAR]), T, n=n,
                                  m=rng.choice([1, 2, 2]), p_int=0.0, p_timed=0.0, p_timed_cov=0.0)
        model["A"] = None if rng.random() < 0.5 else np.eye(n).tolist()
        w = rng.choice([10.0, 100.0, 1000.0])
        if model["R"] is not None:
            model["R"] = [[w * v for v in row] for row in model["R"]]
        keys = ["Q"] + [k for k in ("b", "d", "R", "mu0", "S0") if rng.random() < 0.25]
        return {"model": model, "data": sv.gen_data(rng, model), "how": "list", "keys": keys,
                "chunks": [{"n": rng.choice([12, 20, 25]), "keys": None}]}

    def run(self, plan, ctx):
        model, data = plan["model"], plan["data"]
        T = model["T"]
        note(plan, ctx)
        schedule = []
        for c in plan["chunks"]:
            schedule += [plan["keys"] if c["keys"] is None else c["keys"]] * c["n"]
        ref, lls = trajectory(plan, schedule)
        keys = set()
        kf = ctx.call("construct", job_model, plan)
        other = {k: v for k, v in sv.snapshot(kf).items() if k not in models.LIN_PARAMS}
        done = 0
        for c in plan["chunks"]:
            X = sv.batch(model, data, T)
            held = sv.freeze(X)
            count = {} if c.get("default") else {"n_iter": c["n"]}
            ret = ctx.call("em", kf.em, X, **count, **em_args(plan, c["keys"]))
            if sv.freeze(X) != held:
                raise Violation("em:changed-data", "em() changed the measurements it was given")
            if ret is not kf:
                raise Violation("em:return", "em() did not return the model")
            done += c["n"]
            if c["n"]:
                keys |= set(schedule[done - 1])
            ctx.sim_time += c["n"]
            theta = sv.effective(kf, model)
            for k in VARS:
                tol = 1e-5 if k in keys else 0.0
                if tol == 0.0:
                    a, b = theta[k], ref[0][k]
                    if a.shape != b.shape or not np.array_equal(a, b):
                        raise Violation("em:changed-given", f"{models.LIN_PARAMS[k][0]} is not in "
                                        f"em_vars but changed: {a.tolist()} != {b.tolist()}")
                else:
                    close("em:update", theta[k], ref[done][k], tol,
                          f"{models.LIN_PARAMS[k][0]} after {done} iterations", floor=1e-2)
            ll = sv.scalar(ctx.call("loglikelihood", kf.loglikelihood, X), "loglikelihood")
            # a parameter that varied in time may be explained worse by a constant
            jump = any(models.is_timed(model, k) for k in keys)
            if not jump:
                old = lls[done - c["n"]]
                if not ll >= old - 1e-6 * max(1.0, abs(old)):
                    raise Violation("em:likelihood-decreased",
                                    f"log likelihood fell from {old} to {ll}")
            close("em:likelihood", ll, lls[done], 1e-5, "log likelihood after em")
            ctx.record("theta", [theta[k] for k in VARS])
            ctx.probe("iterations", c["n"])
        names = {models.LIN_PARAMS[k][0] for k in VARS}
        after = sv.snapshot(kf)
        for k, v in other.items():
            if k not in names and after.get(k) != v:
                raise Violation("em:changed-other", f"em() changed {k}")
        for k in sorted(keys) or ["nothing"]:
            ctx.probe("learned." + k)


def note(plan, ctx):
    model, data = plan["model"], plan["data"]
    ctx.sig += [model["cls"], f"{model['n']}/{model['m']}", plan["how"],
                "".join(plan["keys"]), "".join(str(h) for h in data["have"]),
                ",".join(str([c["n"], c.get("fault"), c.get("keys")])
                         for c in plan["chunks"]),
                "".join(k for k in "AbQCdR" if models.is_timed(model, k))]
    ctx.event(*ctx.sig)
    if model.get("units"):
        ctx.fault("units.other")
    lost = data["have"].count(0)
    if lost:
        ctx.faults["meas.missing"] += lost


class C05(EmProp):
    """EM as a job that is interrupted, killed, checkpointed and resumed."""

    runs = {"quick": 3500, "thorough": 120000}
    rule = ("one plan per seed: model, data, learned set and a job history of em calls, injected "
            "failures, checkpoints, crashes and transports; distinct when any of these differ")

    def gen(self, rng, i):
        plan = gen_job(rng)
        plan["chunks"] = []
        for _ in range(rng.choice([1, 2, 3, 3, 4, 5])):
            c = {"n": rng.choice([1, 1, 2, 3]) if rng.random() < 0.98 else 10}
            r = rng.random()
            if r < 0.5:
                c["fault"] = [rng.choice(["LinAlgError", "MemoryError", "KeyboardInterrupt",
                                          "FloatingPointError"]),
                              round(rng.random(), 4)]
            elif r < 0.6:
                c["fault"] = ["data", rng.choice(["inf", "nan", "columns", "text"])]
            c["keys"] = None
            if rng.random() < 0.25:
                # a call with another choice that learns nothing
                c = {"n": 0, "keys": other_keys(rng, plan) or ["R"]}
            c["after"] = rng.choice(["none", "none", "pickle", "deepcopy", "checkpoint", "checkpoint",
                                     "crash"])
            plan["chunks"].append(c)
        return plan

    def run(self, plan, ctx):
        model, data = plan["model"], plan["data"]
        T, keys = model["T"], plan["keys"]
        note(plan, ctx)
        total = sum(c["n"] for c in plan["chunks"])
        ref, _ = trajectory(plan, [plan["keys"]] * total)
        # what uninterrupted jobs of each length leave behind
        theta, cost = [], []
        for k in range(total + 1):
            kf = ctx.call("construct", job_model, plan)
            with kernel.Injector("heavy") as inj:
                ctx.call("em", kf.em, sv.batch(model, data, T), n_iter=k, **em_args(plan))
            theta.append(sv.effective(kf, model))
            cost.append(inj.count)
        self.same(theta[0], ref[0], "em(n_iter=0) changed the model", 0.0)
        kf = ctx.call("construct", job_model, plan)
        self.same(sv.effective(kf, model), theta[0], "a fresh model differs", 0.0)
        durable = (ctx.call("pickle", pickle.dumps, kf), 0)
        done = 0
        for c in plan["chunks"]:
            n = c["n"]
            fault = c.get("fault")
            X = sv.batch(model, data, T)
            held = sv.freeze(X)
            if fault and fault[0] == "data":
                done = self.bad_data(plan, ctx, kf, X, fault[1], n, theta, done)
            elif fault:
                done = self.interrupted(plan, ctx, kf, X, fault, n, theta, cost, done)
            else:
                ctx.call("em", kf.em, X, n_iter=n, **em_args(plan, c["keys"]))
                done += n
                self.same(sv.effective(kf, model), theta[done],
                          f"after {done} iterations in pieces")
            if sv.freeze(X) != held:
                raise Violation("em:changed-data", "em() changed the measurements it was given")
            ctx.sim_time += n
            ctx.event("done", done)
            after = c["after"]
            if after == "pickle":
                kf = pickle.loads(ctx.call("pickle", pickle.dumps, kf))
            elif after == "deepcopy":
                kf = copy.deepcopy(kf)
            elif after == "checkpoint":
                durable = (ctx.call("pickle", pickle.dumps, kf), done)
                ctx.probe("checkpoint")
            elif after == "crash":
                ctx.fault("proc.crash")
                kf, done = pickle.loads(durable[0]), durable[1]
            self.same(sv.effective(kf, model), theta[done], f"after {after}")
        # failures have stopped: the job finishes
        left = total - done
        ctx.call("em", kf.em, sv.batch(model, data, T), n_iter=left, **em_args(plan))
        self.same(sv.effective(kf, model), theta[total], "after the job was finished")
        ctx.record("theta", [theta[total][k] for k in VARS])

    @staticmethod
    def same(a, b, what, tol=1e-11):
        for k in VARS:
            close("em:not-resumable", a[k], b[k], tol, f"{what}: {models.LIN_PARAMS[k][0]}",
                  floor=1e-2)

    def interrupted(self, plan, ctx, kf, X, fault, n, theta, cost, done):
        model = plan["model"]
        exc, u = fault
        # position of the failure within the calls of this em run
        span = max(1, cost[min(n, len(cost) - 1)])
        at = 1 + int(u * span)
        error = None
        with kernel.Injector("heavy", at, exc) as inj:
            try:
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    kf.em(X, n_iter=n, **em_args(plan))
            except BaseException as e:  # noqa: BLE001
                error = e
        if not inj.fired:
            if error is not None:
                raise Violation("raised:em", f"em raised {type(error).__name__}: {error}")
            self.same(sv.effective(kf, plan["model"]), theta[done + n], "after em")
            return done + n
        ctx.fault("em." + exc)
        ctx.event("failed in", inj.where)
        if error is not None and not kernel.chain_has(error, inj.error):
            raise Violation("em:other-error", f"injected {exc} in {inj.where} surfaced as "
                            f"{type(error).__name__}: {error}")
        now = sv.effective(kf, model)
        if error is None:
            # the failure was absorbed: then the job must be complete
            self.same(now, theta[done + n], f"em absorbed {exc} in {inj.where}")
            return done + n
        gaps = [sv.distance(now, theta[j]) for j in range(done, done + n + 1)]
        best = int(np.argmin(gaps))
        if not gaps[best] <= 1e-9:
            mixed = [k for k in VARS if np.array_equal(now[k], theta[done][k])]
            raise Violation(
                "em:torn", f"em interrupted by {exc} in {inj.where} left parameters that belong to "
                f"no iteration {done}..{done + n} (unchanged: {mixed}; distances {gaps})")
        ctx.probe(f"interrupted_after.{best}")
        return done + best

    def bad_data(self, plan, ctx, kf, X, kind, n, theta, done):
        """Unusable measurements: em fails or not, but leaves no damage if it raises."""
        model = plan["model"]
        T, m = model["T"], model["m"]
        if kind == "columns":
            bad = np.zeros((T, m + 1)) if m > 1 else np.zeros((T, 3))
        elif kind == "text":
            bad = [["x"] * m] * T
        else:
            bad = np.array(np.ma.filled(np.ma.array(X, dtype=float), 0.0), dtype=float).reshape(T, m)
            bad[0, 0] = float(kind)
        error = None
        before = sv.effective(kf, model)
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                copy.deepcopy(kf).em(bad, n_iter=n, **em_args(plan))
        except Exception as e:  # noqa: BLE001
            error = e
        if error is None:
            return done  # such input is accepted; nothing is promised about it
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                kf.em(bad, n_iter=n, **em_args(plan))
        except Exception:  # noqa: BLE001
            pass
        ctx.fault("em.data." + kind)
        if kind == "text":
            self.same(sv.effective(kf, model), before, "em refused the data but changed the model")
        else:
            # may fail in a later iteration, after bad parameters were learned
            if not all(np.array_equal(a, b) for a, b in
                       zip(sv.effective(kf, model).values(), before.values())):
                for k, v in before.items():
                    f = kf.factor(k) if isinstance(kf, models.Units) else 1.0
                    setattr(getattr(kf, "kf", kf), models.LIN_PARAMS[k][0], v * f)
        return done
