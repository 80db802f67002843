"""Operating a tracker: deploying configurations (C16) and running for ever (C19)."""

import builtins
import gc
import pickle
import sys
import types
import warnings

import numpy as np

import kernel
import models
import service as sv
import track
from core import Violation, clone, close, list_shrinker, pair, set_shrinker
from models import LIN_PARAMS, LINEAR, UNSCENTED
from oracle import UKF, Dense

# parameter -> which of its dimensions (state, observation) it fixes
SHAPES = {"A": "n", "b": "n", "Q": "n", "mu0": "n", "S0": "n", "C": "mn", "d": "m", "R": "m",
          "n": "n", "m": "m"}


class Identity1:
    def __call__(self, x):
        return x


class Identity2:
    def __call__(self, x, noise):
        return x + noise


class C16:
    """Configurations half way between two versions are refused, whole ones are served."""

    runs = {"quick": 20000, "thorough": 800000}
    rule = ("one plan per seed: two or three versions of a configuration, deployments that crash "
            "after some entries and lose others, restarts; distinct when class, dimensions, entries "
            "written or forms differ")
    shrinkers = [list_shrinker("program"), set_shrinker([(("slots",), [])])]
    stub = ["configuration store, deployer, its crashes and lost writes", "tracker process"]
    real = ["constructors, filter and loglikelihood of all six classes", "numpy"]

    def gen(self, rng, i):
        cls = rng.choice(LINEAR + UNSCENTED)
        keys = [k for k in SHAPES if cls in LINEAR or k in ("Q", "R", "mu0", "S0", "n", "m")]
        T = rng.choice([2, 3, 4])
        base = [rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 2, 2, 3])]
        versions, dims = [], [base]
        for _ in range(rng.choice([1, 1, 2])):
            d = list(rng.choice(dims))
            r = rng.random()
            if r < 0.45:
                d[0] = rng.choice([k for k in (1, 2, 3, 4) if k != d[0]])
            elif r < 0.9:
                d[1] = rng.choice([k for k in (1, 2, 3, 4) if k != d[1]])
            dims.append(d)
        for n, m in dims:
            lin = models.gen_linear(rng, "standard", rng.choice([T, T, T, 2, 3, 5]), n=n, m=m,
                                    p_default=0.0, p_int=0.1,
                                    p_timed_cov=0.2 if cls == "standard" else 0.0)
            p = rng.choice([0.25, 0.6, 0.9])
            v = {k: lin[k] for k in keys if k in lin and k not in "nm" and rng.random() < p}
            for k, x in (("n", n), ("m", m)):
                if rng.random() < 0.4:
                    v[k] = x
            versions.append({"dims": [n, m], "values": v})
        program = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            v = rng.randrange(len(versions))
            order = sorted(keys)
            rng.shuffle(order)
            r = rng.random()
            cut = len(order) if r < 0.3 else rng.randint(0, len(order))
            if r > 0.8:
                cut = len(order) - 1
            lost = [k for k in order[:cut] if rng.random() < 0.1] if rng.random() < 0.2 else []
            program.append({"do": "deploy", "v": v, "writes": order[:cut], "lost": lost})
            program.append({"do": "restart"})
        if not any(p["do"] == "deploy" for p in program[:1]):
            program.insert(0, {"do": "deploy", "v": 0, "writes": sorted(keys), "lost": []})
        program = [{"do": "deploy", "v": 0, "writes": sorted(keys), "lost": []},
                   {"do": "restart"}] + program
        return {"cls": cls, "T": T, "versions": versions, "program": program,
                "forms": {k: rng.choice(["f", "f", "list", "ro", "F", "scalar"]) for k in keys},
                "z": [models.vec(rng, 4, 1.5) for _ in range(T)],
                "have": [int(rng.random() < 0.8) for _ in range(T)],
                # function lists of the unscented filters, how far a record overruns, by what
                "steps": [rng.choice([0, 0, 2, 3]), rng.choice([0, 0, 2, 3, 4])],
                "over": [rng.choice([1, 1, 2, 5]),
                         rng.choice(["filter", "smooth", "loglikelihood", "em", "sample"])]}

    def run(self, plan, ctx):
        cls, store = plan["cls"], {}
        ctx.sig.append(cls)
        for p in plan["program"]:
            if p["do"] == "deploy":
                new = plan["versions"][p["v"]]["values"]
                every = [k for k in SHAPES if cls in LINEAR or k in ("Q", "R", "mu0", "S0", "n", "m")]
                if len(p["writes"]) < len(every):
                    ctx.fault("deploy.crash")
                for k in p["writes"]:
                    if k in p["lost"]:
                        ctx.fault("deploy.lost_write")
                    elif k in new:
                        store[k] = new[k]
                    else:
                        store.pop(k, None)
                ctx.sig.append("".join(sorted(store)) + str(p["v"]))
                ctx.event("deploy", p["v"], *p["writes"])
            else:
                ctx.sim_time += 1
                self.restart(plan, ctx, store)

    def restart(self, plan, ctx, store):
        cls = plan["cls"]
        sizes = {"n": set(), "m": set()}
        for k, v in store.items():
            if k in "nm":
                sizes[k].add(v)
                continue
            a = np.array(v, dtype=float)
            a = a if a.ndim == LIN_PARAMS[k][1] else a[0]
            for axis, letter in enumerate(SHAPES[k] if k == "C" else SHAPES[k] * a.ndim):
                sizes[letter].add(a.shape[axis])
        consistent = all(len(s) <= 1 for s in sizes.values())
        kw = {}
        for k, v in sorted(store.items()):
            if k in "nm":
                kw["n_dim_state" if k == "n" else "n_dim_obs"] = v
            else:
                how = plan["forms"].get(k, "f")
                if how == "scalar":
                    a = np.array(v, dtype=float)
                    kw[LIN_PARAMS[k][0]] = float(a.ravel()[0]) if a.size == 1 else a
                else:
                    kw[LIN_PARAMS[k][0]] = models.form(v, how)
        if cls in UNSCENTED:
            step = Identity2 if cls == "ukf" else Identity1
            for k, name in zip(plan["steps"], ("transition_functions", "observation_functions")):
                if k:
                    kw[name] = [step() for _ in range(k)]
        held = sv.freeze(kw)
        error = kf = None
        ctx.ops += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                kf = models.get_class(cls)(**kw)
        except Exception as e:  # noqa: BLE001
            error = e
        what = f"{cls} from {({k: np.shape(v) for k, v in store.items()})}"
        if sv.freeze(kw) != held:
            raise Violation("changed-input", f"constructing {what} changed its arguments")
        ctx.event("restart", consistent, type(error).__name__)
        if not consistent:
            ctx.probe("torn.inconsistent")
            if error is None:
                raise Violation("accepted", f"{what} was accepted although dimensions disagree")
            if not isinstance(error, ValueError):
                raise Violation("other-error", f"{what} failed with {type(error).__name__}: {error}")
            return
        if error is not None:
            raise Violation("refused", f"{what} was refused: {type(error).__name__}: {error}")
        ctx.probe("consistent")
        n = max(sizes["n"], default=1)
        m = max(sizes["m"], default=1)
        if (kf.n_dim_state, kf.n_dim_obs) != (n, m):
            raise Violation("dimensions", f"{what} has n_dim_state={kf.n_dim_state}, "
                            f"n_dim_obs={kf.n_dim_obs} instead of {n}, {m}")
        names = {LIN_PARAMS[k][0] for k in store if k not in "nm"}
        for name, v in sv.params_of(kf).items():
            if name in names:
                a = np.array(v, dtype=float)
                if not np.array_equal(a, np.array(kw[name], dtype=float)):
                    raise Violation("parameter", f"{what}: {name} is {v}, not what was given")
        self.serve(plan, ctx, store, kf, n, m, what)

    @staticmethod
    def serve(plan, ctx, store, kf, n, m, what):
        """Unspecified parameters take the documented defaults."""
        cls, T = plan["cls"], plan["T"]
        if cls in UNSCENTED and n != m:
            return  # the default observation function is the identity
        lin = {"cls": cls, "n": n, "m": m, "T": T, "forms": {}}
        horizon = None  # how long a record the time-varying parameters cover
        for k in LIN_PARAMS:
            lin[k] = store.get(k)
            if lin[k] is not None and plan["forms"].get(k) == "scalar" and np.size(lin[k]) == 1 \
                    and models.is_timed(lin, k):
                lin[k] = lin[k][0]  # given as a plain number: valid for ever
            if lin[k] is not None and k not in ("mu0", "S0") and models.is_timed(lin, k):
                covered = len(lin[k]) + (k in "AbQ")
                horizon = min(covered, horizon or covered)
        if cls in UNSCENTED:
            for extra, k in zip((1, 0), plan["steps"]):
                if k:
                    horizon = min(k + extra, horizon or k + extra)
        if horizon is not None:
            C16.overrun(plan, ctx, kf, horizon, m, what)
            T = lin["T"] = min(T, horizon)
        z = [row[:m] for row in plan["z"][:T]]
        X = np.ma.array(np.array(z), mask=np.zeros((T, m), dtype=bool))
        for t in range(T):
            if not plan["have"][t]:
                X[t] = np.ma.masked
        post = Dense(lin).condition(z, plan["have"], T)
        tol = sv.TOL[cls]
        ms, Ps = pair(ctx.call("filter", kf.filter, X), (T, n), (T, n, n), "filter")
        close("defaults:mean", ms, post.fm, tol, f"filtered means of {what}")
        close("defaults:cov", Ps, post.fc, tol, f"filtered covariances of {what}", floor=1e-2)
        if cls in LINEAR:
            ll = sv.scalar(ctx.call("loglikelihood", kf.loglikelihood, X), "loglikelihood")
            close("defaults:ll", ll, post.ll, 1e-7, f"log likelihood of {what}")
        ctx.record("served", (ms, Ps))

    @staticmethod
    def overrun(plan, ctx, kf, horizon, m, what):
        """Nothing is known about the time after the last time-varying parameter."""
        more, op = plan["over"]
        if plan["cls"] in UNSCENTED and op in ("loglikelihood", "em"):
            op = "filter"
        T = horizon + more
        X = np.resize(np.array(plan["z"])[:, :m], (T, m))
        kf = pickle.loads(pickle.dumps(kf)) if op == "em" else kf
        ctx.ops += 1
        ctx.fault("config.too_short")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if op == "sample":
                    kf.sample(T, random_state=0)
                elif op == "em":
                    kf.em(X, n_iter=1)
                else:
                    getattr(kf, op)(X)
        except Exception as e:  # noqa: BLE001
            ctx.event("overrun", op, type(e).__name__)
            return
        raise Violation("overrun", f"{op} of {T} time steps was answered although the parameters "
                        f"cover {horizon} only: {what}")


# ------------------------------------------------------------------------------
TOOL = 2  # sys.monitoring identity, next to those of kernel.py and run.py


class Work:
    """Lines of library code executed: a deterministic measure of work."""

    def __init__(self):
        self.lines = 0

    def _line(self, code, line):
        if not kernel.is_lib(code):
            return kernel.mon.DISABLE
        self.lines += 1
        return None

    def __enter__(self):
        mon = kernel.mon
        mon.use_tool_id(TOOL, "work")
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        mon.set_events(TOOL, mon.events.LINE)
        return self

    def __exit__(self, *exc):
        mon = kernel.mon
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
        return False


def retained(kf):
    """Bytes reachable from the model and from the modules of the library."""
    ours = lambda o: (getattr(o, "__module__", None) or "").startswith("pykalman")
    seen = {id(vars(builtins)), id(sys.modules)}
    todo = [kf] + [vars(m) for name, m in list(sys.modules.items())
                   if name == "pykalman" or name.startswith("pykalman.")]
    total = 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (types.ModuleType, types.CodeType, types.FrameType)):
            continue
        if isinstance(o, (type, types.FunctionType)) and not ours(o):
            continue
        if isinstance(o, dict) and "__builtins__" in o and not str(o.get("__name__")).startswith("pykalman"):
            continue
        total += sys.getsizeof(o)
        todo += gc.get_referents(o)
    return total


def view(a):
    """The same values as a strided part of a larger array."""
    big = np.zeros((2 * a.shape[0],) + a.shape[1:], a.dtype)
    big[::2] = a
    return big[::2]


class C19:
    """Online tracking runs for ever: bounded work and memory per update."""

    runs = {"quick": 640, "thorough": 30000}
    rule = ("one plan per seed: model, hundreds of ticks with losses, failures and batch queries; "
            "distinct when class, dimensions, losses, failures or queries differ")
    shrinkers = [set_shrinker([(("fail",), []), (("batch",), []), (("model", "units"), None)])]
    stub = ["simulated clock", "sensors", "lossy network", "injected failures"]
    real = ["filter_update, filter, smooth, loglikelihood and sample of all six classes", "numpy",
            "scipy"]
    assumptions = [
        "work is measured in executed lines of pykalman, memory by the size of everything "
        "reachable from the model and the library's modules",
        "a bounded cache is allowed: growth counts after the first third of a run"]

    def gen(self, rng, i):
        cls = rng.choice(LINEAR + UNSCENTED)
        N = rng.choice([150, 240, 360])
        n, m = rng.choice([1, 2, 3]), rng.choice([1, 2])
        short = 4
        if cls in LINEAR:
            model = models.gen_linear(rng, cls, short, n=n, m=m, p_int=0.0)
        else:
            model = models.gen_unscented(rng, cls, short, False, n=n, m=m)
        if cls == "standard" and rng.random() < 0.3:
            # nothing moves: certainty grows for ever
            model["Q"] = (np.zeros((n, n)) if rng.random() < 0.5 else
                          np.diag([rng.choice([0.0, 1e-6]) for _ in range(n)])).tolist()
            model["A"] = np.eye(n).tolist()
        if rng.random() < 0.4:
            u, w = rng.choice([0, 20, -20, -20]), rng.choice([0, 0, 3])
            if cls == "ukf":
                # state and noise share one augmented covariance
                u, w = rng.choice([7, -7]), min(w, 1)
            model["units"] = [[u + rng.randint(-w, w) for _ in range(k)] for k in (n, m)]
        loss = rng.choice([0.0, 0.1, 0.5])
        return {"model": model, "N": N,
                "z": [models.vec(rng, m, 2.0) for _ in range(30)],
                "have": [int(rng.random() >= loss) for _ in range(37)],
                "fresh_args": rng.random() < 0.5,
                "views": rng.random() < 0.4,
                "fail": sorted(rng.sample(range(1, N), rng.choice([0, 0, 5, 20]))),
                "exc": rng.choice(["LinAlgError", "MemoryError", "KeyboardInterrupt"]),
                "at": rng.randint(1, 12),
                "batch": rng.choice([[], ["filter"], ["smooth"], ["loglikelihood"], ["sample"],
                                     ["filter", "smooth", "loglikelihood", "sample"]])}

    def step_args(self, model, j, explicit):
        kw = {}
        if model["cls"] in LINEAR:
            for k, name in models.UPDATE_ARGS.items():
                if models.is_timed(model, k) or explicit:
                    size = model["T"] - 1 if k in "AbQ" else model["T"]
                    kw[name] = np.array(models.lin_value(model, k, j % size))
        else:
            for k, name in (("f", "transition_function"), ("g", "observation_function")):
                if isinstance(model[k], list):
                    kw[name] = models.Fn(models.fn_at(model, k, j % len(model[k])))
                elif explicit:
                    kw[name] = models.Fn(models.fn_at(model, k, 0))
        return kw

    def run(self, plan, ctx):
        model, N = plan["model"], plan["N"]
        cls, n, m = model["cls"], model["n"], model["m"]
        lin = model if cls in LINEAR else models.affine_as_linear(model)
        ctx.sig += [cls, f"{n}/{m}", str(N), "".join(map(str, plan["have"])), str(plan["fail"]),
                    str(plan["batch"]), str(plan["at"])]
        ctx.event(*ctx.sig)
        if model.get("units"):
            ctx.fault("units.other")
        kf = ctx.call("construct", models.build, model)
        fail = set(plan["fail"])
        mu, P = models.lin_value(model, "mu0"), models.lin_value(model, "S0")
        wm, wP = np.array(mu), np.array(P)
        third = N // 3
        work = {"early": {}, "late": {}}
        marks = []
        step = max(1, (N - third) // 6)
        meter = Work()
        meter.__enter__()
        try:
            for t in range(1, N + 1):
                have = plan["have"][t % len(plan["have"])]
                z = np.array(plan["z"][t % len(plan["z"])])
                kw = self.step_args(model, t - 1, plan["fresh_args"])
                if plan.get("views"):
                    # arguments that are parts of larger arrays
                    z = view(z)
                    kw = {k: view(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()}
                    mu, P = view(np.array(mu)), view(np.array(P))
                obs = z if have else (None if t % 2 else np.ma.array(z, mask=True))
                if t in fail:
                    self.failing(plan, ctx, kf, mu, P, obs, kw)
                before = meter.lines
                res = ctx.call("filter_update", kf.filter_update, mu, P, observation=obs, **kw)
                lines = meter.lines - before
                mu, P = pair(res, (n,), (n, n), "filter_update")
                wm, wP = self.expect(lin, t - 1, wm, wP, z if have else None)
                kind = ("z" if have else "m") + str(t % 2)
                part = "early" if t <= third else "late"
                work[part][kind] = max(work[part].get(kind, 0), lines)
                if t % 10 == 0:
                    for op in plan["batch"]:
                        self.batch(plan, ctx, kf, op)
                ctx.sim_time += 1
                if t >= third and (t - third) % step == 0:
                    marks.append((t, retained(kf)))
        finally:
            meter.__exit__()
        sizes = self.sizes(kf, model)
        tol = {"sqrt_aukf": 1e-4}.get(cls, 1e-6)
        close("drift:mean", mu, wm, tol, f"mean after {N} updates")
        close("drift:cov", P, wP, tol, f"covariance after {N} updates", floor=1e-2)
        ctx.record("end", (mu, P))
        for kind, late in work["late"].items():
            early = work["early"].get(kind)
            if early is not None and late > 1.5 * early + 20:
                raise Violation("work-grows", f"an update took {early} lines of library code in the "
                                f"first {third} ticks and {late} later")
        # a leak grows in every stretch of the run; bounded caches and warm-up do not
        rate = min((b[1] - a[1]) / (b[0] - a[0]) for a, b in zip(marks, marks[1:]))
        if rate > 4:
            raise Violation("memory-grows", "memory held by the model and the library grows with "
                            f"every tick ({rate:.0f} bytes per tick throughout {N - third} ticks)")
        if sizes[1] > sizes[0] + 2000:
            raise Violation("model-grows", f"the pickled model grew from {sizes[0]} to {sizes[1]} bytes")
        self.linear_work(plan, ctx, kf)

    @staticmethod
    def sizes(kf, model):
        """Pickled size of a model that has just been built and of the used one."""
        return [len(pickle.dumps(x)) for x in (models.build(model), kf)]

    @staticmethod
    def expect(lin, j, mu, P, z):
        v = lambda k, size: models.lin_value(lin, k, j % size)
        a, c = lin["T"] - 1, lin["T"]
        A, b, Q = (v(k, a) for k in "AbQ")
        mu, P = A @ mu + b, A @ P @ A.T + Q
        if z is None:
            return mu, (P + P.T) / 2
        C, d, R = (v(k, c) for k in "CdR")
        S = C @ P @ C.T + R
        K = np.linalg.solve(S, C @ P).T
        P = P - K @ S @ K.T
        return mu + K @ (z - C @ mu - d), (P + P.T) / 2

    @staticmethod
    def failing(plan, ctx, kf, mu, P, obs, kw):
        with kernel.Injector("heavy", plan["at"], plan["exc"]) as inj:
            try:
                with np.errstate(all="ignore"):
                    kf.filter_update(mu, P, observation=obs, **kw)
            except BaseException:  # noqa: BLE001 - injected (or provoked by it)
                pass
        if inj.fired:
            ctx.fault("call." + plan["exc"])

    def batch(self, plan, ctx, kf, op):
        model = plan["model"]
        T = model["T"]
        if op == "sample":
            ctx.call(op, kf.sample, T, random_state=5)
        elif op != "loglikelihood" or model["cls"] in LINEAR:
            ctx.call(op, getattr(kf, op), np.array(plan["z"][:T]))

    def linear_work(self, plan, ctx, kf):
        """Batch operations take work in proportion to the length of the record."""
        model = plan["model"]
        timed = [k for k in "AbQCdR" if k in model and models.is_timed(model, k)] + [
            k for k in "fg" if isinstance(model.get(k), list)]
        if timed:
            return
        long = np.array([plan["z"][t % 30] for t in range(96)])
        for op in ["filter", "smooth"] + (["loglikelihood"] if model["cls"] in LINEAR else []):
            took = []
            for T in (24, 48, 96):
                with Work() as w:
                    ctx.call(op, getattr(kf, op), long[:T])
                took.append(w.lines)
            if took[2] - took[1] > 2.6 * (took[1] - took[0]) + 100:
                raise Violation("work-superlinear", f"{op} of 24, 48, 96 ticks took {took} lines")
        ctx.probe("linear_work")
