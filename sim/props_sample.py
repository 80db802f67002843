"""Simulating from a model: C09."""

import pickle
import random as pyrandom
import warnings

import numpy as np
from scipy import stats

import kernel
import models
import service as sv
from core import Violation, close, list_shrinker, set_shrinker
from models import LINEAR, UNSCENTED

LOGP = -30.0  # a statistical test fails below exp(-30): 1e-13
BAD_SEEDS = ["text", 1.5, [1, 2], {"a": 1}, b"bytes", (3,), object]


class C09:
    """sample() draws from the declared model, reproducibly."""

    runs = {"quick": 3000, "thorough": 150000}
    rule = ("one plan per seed: model, program of draws with their random sources, disturbances, "
            "interruptions and restarts; distinct when class, dimensions, program or degenerate "
            "covariances differ")
    shrinkers = [list_shrinker("program"), set_shrinker([(("big_endian",), False)])]
    stub = ["clients", "other users of random numbers", "durable store", "crash and restart"]
    real = ["every pykalman function under test", "numpy.random", "pickle"]
    assumptions = ["seeded sampling of plans: a clean batch is evidence, not proof",
                   "statistical tests reject at 1e-13; deviations too small for the drawn sample "
                   "size go unnoticed"]

    # -- plans -------------------------------------------------------------------
    def gen(self, rng, i):
        cls = rng.choice(LINEAR + UNSCENTED)
        T = rng.choice([3, 10, 40, 120, 120, 250])
        base = rng.choice([2, 3, 4])           # distinct values of a time-varying parameter
        base = min(base, T - 1)
        n, m = rng.choice([1, 1, 2, 2, 3, 4]), rng.choice([1, 1, 2, 2, 3])
        if cls in LINEAR:
            model = models.gen_linear(rng, cls, base, n=n, m=m, p_int=0.05 if T <= 10 else 0.0)
            if rng.random() < 0.5:
                for k, c, d in (("Q", base - 1, n), ("R", base, m)):
                    if c > 1 and rng.random() < 0.6 and not model["int"]:
                        model[k] = [(np.array(models.spd(rng, d)) * 10 ** rng.uniform(-4, 3)).tolist()
                                    for _ in range(c)]
            for k, c in (("A", T - 1), ("b", T - 1), ("Q", T - 1), ("C", T), ("d", T), ("R", T)):
                if models.is_timed(model, k):
                    v = model[k]
                    model[k] = [v[j % len(v)] for j in range(c)]
        else:
            model = models.gen_unscented(rng, cls, base, rng.random() < 0.4, n=n, m=m)
            for k, c in (("f", T - 1), ("g", T)):
                if isinstance(model[k], list):
                    v = model[k]
                    model[k] = [v[j % len(v)] for j in range(c)]
        model["T"] = T
        for k, d in (("Q", n), ("R", m), ("S0", n)):
            if rng.random() < 0.2:
                self.degrade(rng, model, k, d)
        if rng.random() < 0.25:
            # noise of very different size
            for k in ("Q", "R", "S0"):
                if model.get(k) is not None:
                    model[k] = (np.array(model[k], dtype=float) * 10.0 ** rng.randint(-14, 6)).tolist()
                    model["int"] = False
        plan = {"model": model, "own": rng.choice([None, "int", "npint", "state"]),
                "own_seed": rng.randrange(2**31), "stream_seed": rng.randrange(2**31),
                "big_endian": rng.random() < 0.1, "program": []}
        for _ in range(rng.choice([1, 2, 3, 5])):
            r = rng.random()
            if r < 0.62:
                plan["program"].append(self.gen_draw(rng, model))
            elif r < 0.8:
                plan["program"].append({"do": "disturb", "what": rng.choice(
                    ["reseed", "draw", "python", "filter", "other"]), "seed": rng.randrange(10**6)})
            elif r < 0.88:
                plan["program"].append({"do": "restart", "proto": rng.randint(0, 5)})
            elif r < 0.96:
                plan["program"].append({"do": "interrupt", "seed": rng.randrange(10**6),
                                        "n": rng.randint(1, min(T, 8)), "u": round(rng.random(), 4),
                                        "exc": rng.choice(["MemoryError", "KeyboardInterrupt"])})
            else:
                plan["program"].append({"do": "badseed", "k": rng.randrange(len(BAD_SEEDS)),
                                        "n": rng.randint(1, min(T, 4))})
        plan["program"].append(self.gen_draw(rng, model, long=True))
        if T >= 40 and rng.random() < 0.03:
            # many long records from one source: none may come up twice
            draw = self.gen_draw(rng, model, long=True)
            draw.update(times=80, each=T, src=rng.choice(["stream", "int"]))
            plan["program"].append(draw)
        return plan

    @staticmethod
    def gen_draw(rng, model, long=False):
        T, n = model["T"], model["n"]
        x0 = None
        if rng.random() < 0.3:
            x0 = models.vec(rng, n, 2.0)
            if rng.random() < 0.3:
                x0 = [float(round(v)) for v in x0]
        return {"do": "draw", "n": T if long else rng.randint(1, T),
                "src": rng.choice(["int", "int", "npint", "stream", "stream", "own", "global"]),
                "seed": rng.choice([0, 1, 7, rng.randrange(2**31), rng.randrange(2**31)]),
                "x0": x0, "x0form": rng.choice(["f", "list", "int", "ro", "strided"]),
                "times": rng.choice([40, 120]) if not long and rng.random() < 0.15 else 1,
                "scribble": rng.random() < 0.3}

    @staticmethod
    def degrade(rng, model, k, d):
        """Make some of the noise vanish: all of it, a direction, or at some ticks."""
        zero = np.zeros((d, d)).tolist()
        how = rng.choice(["zero", "rank", "ticks"])
        if how == "rank" and d > 1 and not models.is_timed(model, k):
            L = np.array(models.mat(rng, d, d - 1))
            model[k] = (L @ L.T).tolist()
        elif how == "ticks" and models.is_timed(model, k):
            model[k] = [zero if rng.random() < 0.5 else v for v in model[k]]
        elif models.is_timed(model, k):
            model[k] = [zero for _ in model[k]]
        else:
            model[k] = zero
        model["int"] = False

    # -- execution ----------------------------------------------------------------
    def run(self, plan, ctx):
        model = plan["model"]
        ctx.sig += [model["cls"], f"{model['n']}/{model['m']}", str(plan["own"]), str(model["T"])]
        keep = np.random.mtrand._rand.get_state(), pyrandom.getstate()
        try:
            busy = World(plan, ctx, calm=False)
            out = busy.play()
            want = World(plan, ctx, calm=True).play()
        finally:
            np.random.mtrand._rand.set_state(keep[0])
            pyrandom.setstate(keep[1])
        for (what, a), (_, b) in zip(out, want):
            for x, y in zip(a, b):
                close("not-reproducible", x, y, 1e-12, f"{what} against the undisturbed process")
        Residuals(model, out, busy.fresh, ctx).judge()


class World:
    """One process that draws samples; `calm` leaves out everything but the draws."""

    def __init__(self, plan, ctx, calm):
        self.plan, self.ctx, self.calm = plan, ctx, calm
        self.model = plan["model"]
        self.kf = ctx.call("construct", self.make)
        self.stream = np.random.RandomState(plan["stream_seed"])
        self.fresh = []

    def make(self):
        p, extra = self.plan, {}
        if p["own"] == "int":
            extra["random_state"] = p["own_seed"]
        elif p["own"] == "npint":
            extra["random_state"] = np.int64(p["own_seed"])
        elif p["own"] == "state":
            extra["random_state"] = np.random.RandomState(p["own_seed"])
        kf = models.build(self.model, **extra)
        if p.get("big_endian"):
            for k in ("Q", "R", "S0"):
                name = models.LIN_PARAMS[k][0]
                v = getattr(kf, name)
                if isinstance(v, np.ndarray):
                    setattr(kf, name, v.astype(">f8"))
        return kf

    def play(self):
        out = []
        seen = set()
        for step in self.plan["program"]:
            do = step["do"]
            if not self.calm:
                self.ctx.sig.append(do + step.get("src", step.get("what", "")))
                self.ctx.event(do, step.get("src", step.get("what", "")), step.get("n", ""))
            if do == "draw":
                for j in range(step["times"]):
                    s = dict(step)
                    if step["times"] > 1:
                        s["n"] = step.get("each", 1)
                        s["seed"] = (step["seed"] + 7919 * j) % 2**32
                    r = self.draw(s)
                    out.append((f"sample({s['n']}) from {s['src']}", r))
                    key = {"int": ("s", s["seed"]), "npint": ("s", s["seed"]),
                           "global": ("s", s["seed"])}.get(s["src"])
                    if s["src"] == "own":
                        key = {"int": ("s", self.plan["own_seed"]),
                               "npint": ("s", self.plan["own_seed"]),
                               None: ("s", s["seed"])}.get(self.plan["own"])
                    if key is None or key not in seen:
                        seen.add(key)
                        self.fresh.append((s, r))
            elif self.calm:
                continue
            elif do == "disturb":
                self.disturb(step)
            elif do == "restart":
                self.kf, self.stream = pickle.loads(self.ctx.call(
                    "pickle", pickle.dumps, (self.kf, self.stream), step["proto"]))
                self.ctx.fault("client.restart")
            elif do == "interrupt":
                self.interrupt(step)
            else:
                self.badseed(step)
        return out

    def draw(self, s):
        ctx, model, kf = self.ctx, self.model, self.kf
        n = min(s["n"], model["T"])
        args, kw = [n], {}
        x0 = s["x0"]
        if x0 is not None:
            a = np.array(x0)
            if s["x0form"] == "int" and np.all(a == np.round(a)):
                a = a.astype(int)
            elif s["x0form"] == "list":
                a = list(x0)
            elif s["x0form"] == "ro":
                a.flags.writeable = False
            elif s["x0form"] == "strided":
                a = np.repeat(a, 2)[::2]
            kw["initial_state"] = a
        src = s["src"]
        if src == "int":
            kw["random_state"] = s["seed"]
        elif src == "npint":
            kw["random_state"] = np.uint32(s["seed"])
        elif src == "stream":
            kw["random_state"] = self.stream
        uses_global = src == "global" or (src == "own" and self.plan["own"] is None)
        if uses_global:
            if src == "global":
                kw["random_state"] = np.random
            np.random.seed(s["seed"])
        held = sv.freeze(kw.get("initial_state"))
        before = sv.snapshot(kf)
        if self.plan["own"] == "state" and src == "own":
            before.pop("random_state")
        world = sv.freeze(np.random.mtrand._rand), pyrandom.getstate()
        res = ctx.call("sample", kf.sample, *args, **kw)
        c = {"op": "sample", "n": n}
        got = sv.arrays(model, c, res)
        if sv.freeze(kw.get("initial_state")) != held:
            raise Violation("changed-input", "sample() changed initial_state")
        d = sv.diff(before, sv.snapshot(kf))
        if d:
            raise Violation("changed-model", f"sample() changed {d}")
        if not uses_global and sv.freeze(np.random.mtrand._rand) != world[0]:
            raise Violation("global-random", f"sample() with {src} touched numpy's global generator")
        if pyrandom.getstate() != world[1]:
            raise Violation("global-random", "sample() touched Python's global generator")
        if x0 is not None:
            close("initial-state", got[0][0], np.array(x0), 1e-15, "first state against initial_state")
        ref = None
        if uses_global or src == "npint" or (src == "own" and self.plan["own"] != "state"):
            # the same generator, handed over explicitly
            seed = s["seed"] if src != "own" or self.plan["own"] is None else self.plan["own_seed"]
            kw2 = dict(kw)
            kw2["random_state"] = np.random.RandomState(seed)
            ref = sv.arrays(model, c, ctx.call("sample", kf.sample, n, **kw2))
            for x, y in zip(got, ref):
                close("seed-forms", x, y, 1e-12, f"sample from {src} against the same RandomState")
        if s["scribble"]:
            for o in res:
                o[...] = -5.0
            if sv.freeze(kw.get("initial_state")) != held:
                raise Violation("aliased", "the sample shares memory with initial_state")
            d = sv.diff(before, sv.snapshot(kf))
            if d:
                raise Violation("aliased", f"the sample shares memory with {d}")
        ctx.sim_time += n
        ctx.record("sample", got)
        return got

    def disturb(self, step):
        what = step["what"]
        self.ctx.fault("random." + what)
        if what == "reseed":
            np.random.seed(step["seed"])
        elif what == "draw":
            np.random.standard_normal(1 + step["seed"] % 9)
        elif what == "python":
            pyrandom.seed(step["seed"])
        elif what == "filter":
            z = np.random.RandomState(step["seed"]).standard_normal((2, self.model["m"]))
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                try:
                    self.make().filter(z)
                except Exception:  # noqa: BLE001 - degenerate models may not be filterable
                    pass
        else:
            self.ctx.call("sample", models.build(self.model).sample, 2, random_state=step["seed"])

    def interrupt(self, step):
        def go():
            return self.kf.sample(step["n"], random_state=step["seed"])

        with kernel.Injector("call") as inj:
            self.ctx.call("sample", go)
        before = sv.snapshot(self.kf)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            with kernel.Injector("call", 1 + int(step["u"] * inj.count), step["exc"]) as inj:
                try:
                    go()
                except BaseException as e:  # noqa: BLE001
                    if not inj.fired:
                        raise Violation("raised:sample", f"{type(e).__name__}: {e}") from e
        if inj.fired:
            self.ctx.fault("call." + step["exc"])
        d = sv.diff(before, sv.snapshot(self.kf))
        if d:
            raise Violation("changed-model", f"an interrupted sample() changed {d}")

    def badseed(self, step):
        seed = BAD_SEEDS[step["k"]]
        self.ctx.fault("client.badseed")
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                self.kf.sample(step["n"], random_state=seed)
        except ValueError:
            return
        except Exception as e:  # noqa: BLE001
            raise Violation("bad-seed", f"random_state={seed!r} raised {type(e).__name__}") from e
        raise Violation("bad-seed", f"random_state={seed!r} was accepted")


class Residuals:
    """Turns samples back into the noise that made them and tests it."""

    def __init__(self, model, out, fresh, ctx):
        self.model, self.ctx = model, ctx
        self.fresh = fresh
        self.cache = {}

    def whiten(self, key, cov, e, what, *around):
        # rounding of the values the noise was subtracted from
        scale = max([1e-300] + [float(np.max(np.abs(a))) for a in around])
        if key not in self.cache:
            w, v = np.linalg.eigh(np.asarray(cov, dtype=float))
            top = max(float(w[-1]), 0.0)
            self.cache[key] = (w, v, top, w > 1e-9 * top if top > 0 else np.zeros(len(w), bool))
        w, v, top, live = self.cache[key]
        y = v.T @ e
        dead = y[~live]
        lim = 1e-6 * np.sqrt(top) * 10 + 1e-11 * scale
        if dead.size and not np.max(np.abs(dead)) <= lim:
            raise Violation("noise-free", f"{what}: noise {np.max(np.abs(dead)):.3g} in a direction "
                            f"of zero variance (limit {lim:.3g})")
        u = np.full(len(w), np.nan)
        live = live & (np.sqrt(np.maximum(w, 0)) > 1e-11 * scale)
        u[live] = y[live] / np.sqrt(w[live])
        return u

    def judge(self):
        model = self.model
        lin = model["cls"] in LINEAR
        first, state, obs = [], [], []
        runs, starts = [], []
        for s, (x, z) in self.fresh:
            n = len(x)
            if not (np.all(np.isfinite(x)) and np.all(np.isfinite(z))):
                raise Violation("not-finite", "sample() is not finite")
            if s["x0"] is None:
                first.append(self.whiten("S0", models.lin_value(model, "S0"),
                                         x[0] - models.lin_value(model, "mu0"), "initial state",
                                         x[0], models.lin_value(model, "mu0")))
                lead = first[-1]
            else:
                lead = None
            us, uo = [], []
            for t in range(n):
                if t:
                    us.append(self.state_noise(lin, t, x))
                uo.append(self.obs_noise(lin, t, x, z))
            state += us
            obs += uo
            runs.append((lead, us, uo))
            u = np.concatenate(us + uo)
            u = u[~np.isnan(u)][:12]
            for old in starts:
                k = min(len(u), len(old))
                if k >= 3 and np.max(np.abs(u[:k] - old[:k])) < 1e-6:
                    raise Violation("repeated-noise", "two draws from different seeds or from one "
                                    "stream use the same noise")
            starts.append(u)
        ctx = self.ctx
        for name, pool in (("initial state", first), ("transition noise", state),
                           ("observation noise", obs)):
            if pool:
                self.gauss(name, np.array(pool))
        # independence between the sources
        pairs = []
        for lead, us, uo in runs:
            k = len(us)
            if k:
                pairs.append(("transition and observation noise of one tick", us, uo[1:]))
                pairs.append(("transition noise and the previous observation noise", us, uo[:-1]))
            if lead is not None:
                pairs.append(("initial state and first observation noise", [lead], uo[:1]))
                if k:
                    pairs.append(("initial state and first transition noise", [lead], us[:1]))
        groups = {}
        for name, a, b in pairs:
            groups.setdefault(name, ([], []))
            groups[name][0].extend(a)
            groups[name][1].extend(b)
        for name, (a, b) in groups.items():
            self.cross(name, np.array(a), np.array(b))
        # independence in time, on disjoint pairs
        for name, pick in (("transition noise", 1), ("observation noise", 2)):
            a, b = [], []
            for r in runs:
                seq = r[pick]
                for i in range(0, len(seq) - 1, 2):
                    a.append(seq[i])
                    b.append(seq[i + 1])
            if a:
                self.cross(name + " of successive ticks", np.array(a), np.array(b))
        ctx.probe("noise_vectors_tested", len(first) + len(state) + len(obs))

    def state_noise(self, lin, t, x):
        model = self.model
        if lin:
            e = (x[t] - models.lin_value(model, "A", t - 1) @ x[t - 1]
                 - models.lin_value(model, "b", t - 1))
            key = ("Q", t - 1) if models.is_timed(model, "Q") else "Q"
            return self.whiten(key, models.lin_value(model, "Q", t - 1), e, f"transition to tick {t}",
                               x[t], x[t - 1])
        e = self.invert("f", t - 1, x[t - 1], x[t])
        return self.whiten("Q", models.lin_value(model, "Q"), e, f"transition to tick {t}",
                               x[t], x[t - 1])

    def obs_noise(self, lin, t, x, z):
        model = self.model
        if lin:
            e = z[t] - models.lin_value(model, "C", t) @ x[t] - models.lin_value(model, "d", t)
            key = ("R", t) if models.is_timed(model, "R") else "R"
            return self.whiten(key, models.lin_value(model, "R", t), e, f"observation of tick {t}",
                               z[t], 3 * x[t])
        e = self.invert("g", t, x[t], z[t])
        return self.whiten("R", models.lin_value(model, "R"), e, f"observation of tick {t}",
                               z[t], 3 * x[t])

    def invert(self, key, t, x, y):
        """The noise argument that makes the function give y."""
        fn = models.Fn(models.fn_at(self.model, key, t))
        r = y - fn(x)
        if fn.G is not None:
            if fn.seps:
                r = r / (1.0 + fn.seps * np.sin(fn.W @ x))
            r = np.linalg.solve(fn.G, r)
        return r

    # -- tests on whitened noise ---------------------------------------------------
    def gauss(self, name, U):
        for j in range(U.shape[1]):
            u = U[:, j]
            u = u[~np.isnan(u)]
            N = len(u)
            if not N:
                continue
            s = float(u @ u)
            self.verdict(name + " variance", min(stats.chi2.logcdf(s, N), stats.chi2.logsf(s, N)),
                         f"mean square {s / N:.4g} over {N} values, expected 1")
            mean = float(np.sum(u)) / np.sqrt(N)
            self.verdict(name + " mean", stats.norm.logsf(abs(mean)),
                         f"{mean:.3g} standard errors over {N} values")
            self.verdict(name + " tail", stats.norm.logsf(np.max(np.abs(u))) + np.log(N),
                         f"a value of {np.max(np.abs(u)):.3g} standard deviations")
            v = np.sort(stats.norm.cdf(u))
            i = np.arange(1, N + 1)
            D = max(np.max(i / N - v), np.max(v - (i - 1) / N))
            self.verdict(name + " distribution", np.log(2) - 2 * N * D * D,
                         f"Kolmogorov-Smirnov distance {D:.3g} over {N} values")
            for k in range(j):
                self.product(f"{name} components {k} and {j}", U[:, k], U[:, j])

    def cross(self, name, A, B):
        for j in range(A.shape[1]):
            for k in range(B.shape[1]):
                self.product(name, A[:, j], B[:, k])

    def product(self, name, a, b):
        ok = ~(np.isnan(a) | np.isnan(b))
        N = int(np.sum(ok))
        if not N:
            return
        S = abs(float(a[ok] @ b[ok]))
        # Chernoff bound for a sum of N products of independent standard normals
        r = S / N
        if r == 0:
            return
        h = (np.sqrt(1 + 4 * r * r) - 1) / (2 * r)
        self.verdict("independence", np.log(2) - N * (h * r + 0.5 * np.log(1 - h * h)),
                     f"{name}: correlation {S / N:.3g} over {N} values")

    def verdict(self, name, logp, text):
        if not logp >= LOGP:
            raise Violation("wrong-distribution", f"{name}: {text} (log p {logp:.4g})")
