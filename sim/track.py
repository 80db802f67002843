"""The tracking world: sensors -> lossy network -> tracker, analyst, durable store.

Real code: the pykalman filter under test (filter, filter_update, smooth,
loglikelihood, pickling).  Simulated: time, sensors, network, deadlines, process
crashes, the durable store and the analyst's queries.  Everything that happens
is spelled out in the plan.
"""

import heapq
import math
import pickle

import numpy as np

import models
from core import Violation, close, pair, plain, scalar, clone, list_shrinker, set_shrinker
from oracle import UKF, Dense

OBS_FORMS = ["ma", "ma", "f", "list", "ro", "F", "stride", "int"]
BATCH_FORMS = ["ma", "ma", "ma", "F", "ro", "1d", "stride", "int", "hard", "tuple"]
MISS_FORMS = ["none", "full", "partial"]


# -- tolerances -----------------------------------------------------------------
def tol(model, op):
    cls = model["cls"]
    # components in units of their own: inverses are accurate for the largest only
    wide = 10.0 if isinstance((model.get("units") or [0])[0], list) else 1.0
    if cls == "sqrt_aukf":
        return 2e-5 * wide
    if cls in models.UNSCENTED:
        return 1e-6 * wide
    return 1e-7 * wide


# -- plan generation --------------------------------------------------------------
def simulate(rng, model):
    """Plausible measurement values for the model (any values would do)."""
    T, n, m = model["T"], model["n"], model["m"]
    z = []
    if model["cls"] in models.LINEAR:
        x = models.lin_value(model, "mu0") + np.array(
            [rng.gauss(0, 1) for _ in range(n)])
        for t in range(T):
            if t:
                x = (models.lin_value(model, "A", t - 1) @ x
                     + models.lin_value(model, "b", t - 1)
                     + np.array([rng.gauss(0, 0.5) for _ in range(n)]))
            z.append(models.lin_value(model, "C", t) @ x
                     + models.lin_value(model, "d", t)
                     + np.array([rng.gauss(0, 0.5) for _ in range(m)]))
    else:
        x = models.lin_value(model, "mu0")
        for t in range(T):
            if t:
                f = models.Fn(models.fn_at(model, "f", t - 1))
                x = f(x) + np.array([rng.gauss(0, 0.3) for _ in range(n)])
            g = models.Fn(models.fn_at(model, "g", t))
            z.append(g(x) + np.array([rng.gauss(0, 0.3) for _ in range(m)]))
    outlier = rng.random() < 0.15
    rows = []
    for t in range(T):
        row = [round(float(v), 3) for v in z[t]]
        if outlier and rng.random() < 0.15:
            row[rng.randrange(m)] += rng.choice([-1, 1]) * 50.0
        rows.append(row)
    if rng.random() < 0.12:
        rows = [[float(round(v)) for v in r] for r in rows]
    r = rng.random()
    if r < 0.03:
        rows = [[0.0] * m for _ in rows]
    elif r < 0.07:
        # a sensor that is stuck, all the time or for a while
        cut = rng.randrange(T)
        rows = rows[:cut] + [list(rows[cut]) for _ in rows[cut:]]
    return rows


GARBAGE = [0.0, 1.0, -7.5, 1e6, -1e12, 1e300, math.nan, math.inf, -math.inf, 1e-300]


def gen_network(rng, T, m):
    """Deliveries [t, sensor, arrival]; sensor -1 carries the whole row."""
    mode = rng.choice(["row", "row", "component"]) if m > 1 else "row"
    loss = rng.choice([0.0, 0.0, 0.1, 0.25, 0.25, 0.5, 0.8])
    burst = rng.random() < 0.3
    tail = rng.random() < 0.25
    head = rng.random() < 0.15
    jitter = rng.choice([0.0, 0.3, 0.3, 2.0, 5.0])
    dup = rng.choice([0.0, 0.0, 0.2])
    lo, hi = 0, 0
    if burst:
        lo = rng.randrange(T)
        hi = lo + rng.randint(1, max(1, T // 2))
    cut_tail = T - rng.randint(1, max(1, T // 2)) if tail else T
    cut_head = rng.randint(1, max(1, T // 3)) if head else 0
    out, dropped, dups, parted = [], 0, 0, 0
    for t in range(T):
        for s in ([-1] if mode == "row" else range(m)):
            if lo <= t < hi or t >= cut_tail or t < cut_head:
                parted += 1
                continue
            if rng.random() < loss:
                dropped += 1
                continue
            at = t + round(rng.expovariate(1 / jitter) if jitter else 0.0, 3)
            out.append([t, s, at])
            if rng.random() < dup:
                dups += 1
                out.append([t, s, round(at + rng.uniform(0.1, 4.0), 3)])
    rng.shuffle(out)
    return out, {"net.drop": dropped, "net.duplicate": dups, "net.partition": parted}


def gen(rng, classes=None, nonlin=0.0, Ts=None, crashes=True, over=True, queries=("filter",),
        n_queries=2, timed=True, ints=0.1, units=0.25, long=0.03):
    cls = rng.choice(classes or list(models.LINEAR + models.UNSCENTED))
    T = rng.choice(Ts or [1, 2, 2, 3, 4, 5, 6, 8, 10, 12])
    if rng.random() < long:
        T = rng.choice([22, 34, 51, 66, 101, 130])
    pt = {} if timed else {"p_timed": 0.0}
    if cls in models.LINEAR:
        if not timed:
            pt["p_timed_cov"] = 0.0
        model = models.gen_linear(rng, cls, T, p_int=ints if T <= 20 else 0.0, **pt)
    else:
        model = models.gen_unscented(rng, cls, T, rng.random() < nonlin, **pt)
    if rng.random() < 0.2:
        models.quirk(rng, model)
    plan = {"world": "track", "model": model, "T": T}
    plan["over"] = gen_over(rng, model) if over and rng.random() < 0.45 else {}
    plan["over_all"] = bool(over and rng.random() < 0.2)
    plan["z"] = simulate(rng, model)
    plan["deliveries"], plan["netstats"] = gen_network(rng, T, model["m"])
    plan["grace"] = rng.choice([0.25, 0.25, 0.6, 1.5])
    plan["window"] = rng.choice([0, 2, 5, 100])
    plan["boot"] = rng.choice([1, 1, 1, 2, 3, 5])
    plan["miss"] = [rng.choice(MISS_FORMS) for _ in range(T)]
    g = rng.random() < 0.6
    plan["garbage"] = [
        [rng.choice(GARBAGE) if g else 0.0 for _ in range(model["m"])] for _ in range(T)
    ]
    plan["obs_form"] = rng.choice(OBS_FORMS)
    plan["batch_form"] = rng.choice(BATCH_FORMS)
    plan["crashes"] = []
    plan["ck_every"] = rng.choice([1, 2, 3])
    plan["log_sync"] = rng.choice(["arrival", "checkpoint"])
    if crashes and rng.random() < 0.55:
        for _ in range(rng.choice([1, 1, 2, 3])):
            plan["crashes"].append([
                round(rng.uniform(0, T + 1), 3),
                rng.choice([0.1, 0.5, 2.0, 4.0]),
                int(rng.random() < 0.25),
            ])
    plan["queries"] = []
    for _ in range(n_queries):
        plan["queries"].append([round(rng.uniform(0.5, T + 3), 3), rng.choice(queries)])
    plan["proto"] = rng.randint(0, 5)
    if units and rng.random() < units:
        model["units"] = [rng.choice([0, 7, -7, 20, -20, 40, -40]) for _ in range(2)]
        if rng.random() < 0.6:
            # a small (or large) world, rather than an ill-scaled one
            model["units"][1] = model["units"][0] + rng.choice([-3, 0, 0, 3])
        if model["cls"] == "ukf":
            # state and noise share one augmented covariance
            model["units"] = [max(-7, min(7, u)) for u in model["units"]]
        if rng.random() < 0.4:
            # every component has a unit of its own
            w = 2 if model["cls"] == "ukf" else 6
            model["units"] = [[u + rng.choice([-w, -w, rng.randint(-w, w), w, w])
                               for _ in range(model[k])] for u, k in zip(model["units"], "nm")]
    return plan


def gen_over(rng, model):
    """Parameters whose stored value is stale: the true ones arrive per call."""
    out = {}
    n, m, T = model["n"], model["m"], model["T"]
    if model["cls"] in models.LINEAR:
        mk = {
            "A": lambda: (models.decaying if T > 20 else models.transition)(rng, n),
            "b": lambda: [0.0] * n if rng.random() < 0.4 else models.vec(rng, n),
            "C": lambda: models.mat(rng, m, n),
            "d": lambda: [0.0] * m if rng.random() < 0.4 else models.vec(rng, m),
            "Q": lambda: models.spd(rng, n, 0.5),
            "R": lambda: models.spd(rng, m, 0.5),
        }
        for k in mk:
            if rng.random() < 0.3:
                count = T - 1 if k in "AbQ" else T
                timed_ok = k not in "QR" or model["cls"] == "standard"
                if timed_ok and count >= 1 and rng.random() < 0.4:
                    out[k] = [mk[k]() for _ in range(count)]
                else:
                    out[k] = mk[k]()
    else:
        aff = models.is_affine(model)
        if rng.random() < 0.4:
            out["f"] = models.gen_fn(rng, n, n, model["noise"], not aff, "slow" if T > 20 else "f", 0.6)
        if rng.random() < 0.4:
            out["g"] = models.gen_fn(rng, m, n, model["noise"], not aff, "g", 0.6)
        if rng.random() < 0.3:
            out["Q"] = models.spd(rng, n, 0.3)
        if rng.random() < 0.3:
            out["R"] = models.spd(rng, m, 0.3)
    return out


def effective(plan):
    """The model that really governs the run: stored values plus overrides."""
    eff = dict(plan["model"])
    for k, v in plan.get("over", {}).items():
        eff[k] = v
    if plan.get("over"):
        eff["int"] = False
    return eff


# -- forms of measurements on the wire ------------------------------------------
def obs_vector(row, how):
    v = [float(x) for x in row]
    if how == "list":
        return v
    a = np.array(v)
    if how == "int" and all(x == int(x) for x in v if np.isfinite(x)) and np.all(np.isfinite(a)):
        return a.astype(int)
    if how == "ma":
        return np.ma.array(a, mask=False)
    if how == "ro":
        a.flags.writeable = False
        return a
    if how == "stride":
        b = np.full(2 * len(v), 99.0)
        b[::2] = a
        return b[::2]
    return a


def missing_vector(plan, t, row):
    """How a lost measurement is handed to filter_update."""
    how = plan["miss"][t]
    if how == "none":
        return None
    m = plan["model"]["m"]
    data = np.array(plan["garbage"][t], dtype=float)
    if how == "full" or m == 1:
        return np.ma.array(data, mask=True)
    mask = part_mask(t, m)
    vals = np.where(mask, data, np.array(row, dtype=float))
    return np.ma.array(vals, mask=mask)


def part_mask(t, m):
    """Which components of a partially lost row are masked."""
    mask = np.zeros(m, dtype=bool)
    mask[t % m] = True
    if t % 3 == 2:
        mask[:(t % m) + 1] = True
    return mask


def batch_array(plan, have, upto, how=None, garbage=None):
    m = plan["model"]["m"]
    data = np.zeros((upto, m))
    mask = np.zeros((upto, m), dtype=bool)
    g = plan["garbage"] if garbage is None else garbage
    for t in range(upto):
        row = np.array(plan["z"][t], dtype=float)
        if have[t]:
            data[t] = row
        elif plan["miss"][t] == "partial" and m > 1:
            mask[t] = part_mask(t, m)
            data[t] = np.where(mask[t], np.array(g[t], dtype=float), row)
        else:
            mask[t] = True
            data[t] = np.array(g[t], dtype=float)
    how = how or plan["batch_form"]
    if how == "1d" and m == 1:
        X = np.ma.array(data[:, 0], mask=mask[:, 0])
        if not mask.any():
            X = data[:, 0].tolist() if upto % 2 else data[:, 0]
        return X
    if how == "int" and np.all(np.isfinite(data)) and np.all(data == np.round(data)) \
            and np.abs(data).max() < 2 ** 60:
        data = data.astype(int)
    if how == "stride":
        b = np.full((2 * upto, 2 * m), 77.0)
        b[::2, ::-2] = data
        data = b[::2, ::-2]
    if how == "hard":
        return np.ma.array(data, mask=mask, hard_mask=True, fill_value=-3.5)
    if not mask.any() and how in ("ro", "F", "1d", "tuple", "stride", "int"):
        a = data
        if how == "tuple":
            return models.nested(a.tolist())
        if how in ("stride", "int"):
            return a
        if how == "F":
            return np.asfortranarray(a)
        if how == "1d":
            return a.tolist()
        a.flags.writeable = False
        return a
    if how == "F":
        return np.ma.array(np.asfortranarray(data), mask=np.asfortranarray(mask))
    if how == "ro":
        data.flags.writeable = False
        return np.ma.array(data, mask=mask, copy=False)
    return np.ma.array(data, mask=mask)


# -- the tracker ------------------------------------------------------------------
class Tracker:
    def __init__(self, plan, ctx, hooks):
        self.plan, self.ctx, self.hooks = plan, ctx, hooks
        self.model = plan["model"]
        self.eff = effective(plan)
        self.nonlinear = (self.eff["cls"] in models.UNSCENTED
                          and not models.is_affine(self.eff))
        self.T, self.n, self.m = plan["T"], self.model["n"], self.model["m"]
        self.up = True
        self.durable = {"cks": [], "log": {}}
        self.kf0_bytes = None
        self.fresh()
        self.deadline_passed = -1
        if self.needs_pickle():
            self.kf0_bytes = ctx.call("pickle", pickle.dumps, self.kf, plan["proto"])

    def needs_pickle(self):
        return bool(self.plan["crashes"])

    def fresh(self):
        """A process that starts with nothing but the program."""
        self.kf = self.ctx.call("construct", models.build, self.model)
        self.k = -1                # last processed tick
        self.est = {}              # tick -> (mean, cov)
        self.raw = {}              # tick -> the library's own result objects
        self.tb = {}               # tick -> textbook (mean, cov), nonlinear models only
        self.accepted = set()      # ticks whose row entered the estimate
        self.log = {}              # tick -> {component: True}
        self.base = 0              # cannot roll back before this tick

    # -- the textbook recursion, run ahead of nonlinear models
    def guard(self, z, have, upto, smooth=False):
        """Discard the run if the unscented recursion itself breaks down here."""
        if self.nonlinear:
            ref = UKF(self.eff)
            (ref.smooth if smooth else ref.filter)(z, have, upto)

    def guard_step(self, t):
        if self.nonlinear:
            z = self.plan["z"][t] if t in self.accepted else None
            self.tb[t] = UKF(self.eff).step(t, *self.tb[t - 1], z)

    # -- helpers
    def complete(self, t):
        got = self.log.get(t, ())
        return -1 in got or len([c for c in got if c >= 0]) == self.m

    def have(self):
        return [t in self.accepted for t in range(self.T)]

    def update_args(self, t):
        """Explicit arguments for the step into tick t."""
        plan, kw = self.plan, {}
        over = plan.get("over", {})
        if self.model["cls"] in models.LINEAR:
            for k, name in models.UPDATE_ARGS.items():
                if k in over or models.is_timed(self.model, k) or plan.get("over_all"):
                    idx = t - 1 if k in "AbQ" else t
                    v = models.lin_value(self.eff, k, idx)
                    kw[name] = models.form(
                        v.tolist(), ["f", "ro", "F"][(t + len(name)) % 3])
        else:
            noise = self.model["noise"]
            if "f" in over or isinstance(self.model["f"], list) or plan.get("over_all"):
                kw["transition_function"] = models.Fn(models.fn_at(self.eff, "f", t - 1))
            if "g" in over or isinstance(self.model["g"], list) or plan.get("over_all"):
                kw["observation_function"] = models.Fn(models.fn_at(self.eff, "g", t))
            for k in ("Q", "R"):
                if k in over or plan.get("over_all"):
                    kw[models.UPDATE_ARGS[k]] = models.lin_value(self.eff, k)
        return kw

    def batch_kf(self):
        return self.ctx.call("construct", models.build, self.eff)

    def bootstrap(self, upto):
        """Batch-filter the first ticks; the usual way to start tracking."""
        kf = self.batch_kf()
        X = batch_array(self.plan, self.have(), upto)
        if self.nonlinear:
            tb = UKF(self.eff).filter(self.plan["z"], self.have(), upto)
            for t in range(upto):
                self.tb[t] = (tb[0][t], tb[1][t])
        res = self.ctx.call("filter", kf.filter, X)
        ms, Ps = pair(res, (upto, self.n), (upto, self.n, self.n), "filter")
        for t in range(upto):
            self.est[t] = (ms[t], Ps[t])
            # hand on what the library returned, exactly as a user would
            self.raw[t] = (res[0][t], res[1][t])
        self.k = upto - 1

    def step(self, t):
        if t == 0 or t - 1 not in self.est:
            raise RuntimeError("no estimate to continue from")
        if t in self.accepted:
            z = obs_vector(self.plan["z"][t], self.plan["obs_form"])
        else:
            z = missing_vector(self.plan, t, self.plan["z"][t])
        mu, P = self.raw[t - 1]
        self.guard_step(t)
        res = self.ctx.call(
            "filter_update", self.kf.filter_update, mu, P,
            **({"observation": z} if z is not None or t % 2 else {}),
            **self.update_args(t))
        self.est[t] = pair(res, (self.n,), (self.n, self.n), "filter_update")
        self.raw[t] = (res[0], res[1])
        self.k = t
        self.ctx.sim_time += 1.0
        self.ctx.sig.append("z" if t in self.accepted else "m" + self.plan["miss"][t][0])
        if self.hooks.get("step"):
            self.hooks["step"](self, t)

    def advance(self, upto):
        """Process every tick up to and including `upto`."""
        boot = min(self.plan["boot"], self.T)
        while self.k < upto:
            t = self.k + 1
            if t < boot:
                if upto < boot - 1 and upto < self.T - 1:
                    return  # still collecting the first batch
                for i in range(boot):
                    if self.complete(i):
                        self.accepted.add(i)
                self.bootstrap(boot)
                self.ctx.sim_time += boot
                self.ctx.sig.append(f"B{boot}")
                if self.hooks.get("step"):
                    self.hooks["step"](self, boot - 1)
            else:
                if self.complete(t):
                    self.accepted.add(t)
                self.step(t)
            self.checkpoint()

    # -- events
    def arrival(self, t, s):
        if not self.up:
            self.ctx.fault("net.lost_while_down")
            return
        late = t <= self.k
        before = self.complete(t)
        self.log.setdefault(t, [])
        if s not in self.log[t]:
            self.log[t].append(s)
        if self.plan["log_sync"] == "arrival":
            self.durable["log"] = {k: list(v) for k, v in self.log.items()}
        if late and self.complete(t) and not before and t not in self.accepted:
            boot = min(self.plan["boot"], self.T)
            if t < self.k - self.plan["window"] or t < self.base:
                self.ctx.fault("net.too_late")
                return
            self.ctx.fault("net.late_rollback")
            if self.hooks.get("check"):
                self.hooks["check"](self, "before rollback")
            self.accepted.add(t)
            last = self.k
            if t < boot:
                self.bootstrap(min(boot, last + 1))
            else:
                self.k = t - 1
            while self.k < last:
                self.step(self.k + 1)
            if self.hooks.get("check"):
                self.hooks["check"](self, "after rollback")

    def deadline(self, t):
        self.deadline_passed = max(self.deadline_passed, t)
        if self.up:
            self.advance(t)

    def checkpoint(self):
        if self.k < 0 or (self.k + 1) % self.plan["ck_every"]:
            return
        if not self.needs_pickle():
            return
        mu, P = self.est[self.k]
        self.durable["cks"].append({
            "k": self.k,
            "mu": np.array(mu).tobytes(), "P": np.array(P).tobytes(),
            "tb": self.tb.get(self.k),
            "kf": self.ctx.call("pickle", pickle.dumps, self.kf, self.plan["proto"]),
            "accepted": sorted(self.accepted),
        })
        self.durable["log"] = {k: list(v) for k, v in self.log.items()}
        self.ctx.probe("checkpoint")

    def crash(self, torn):
        if not self.up:
            return
        self.up = False
        self.ctx.fault("proc.crash")
        if torn and self.durable["cks"]:
            self.durable["cks"].pop()
            self.ctx.fault("disk.torn_checkpoint")
        self.est = self.raw = self.accepted = self.log = self.kf = None

    def restart(self):
        if self.up:
            return
        self.up = True
        self.ctx.fault("proc.restart")
        self.fresh()
        self.log = {k: list(v) for k, v in self.durable["log"].items()}
        if self.durable["cks"]:
            ck = self.durable["cks"][-1]
            self.kf = self.ctx.call("unpickle", pickle.loads, ck["kf"])
            self.k = self.base = ck["k"]
            mu = np.frombuffer(ck["mu"])
            P = np.frombuffer(ck["P"]).reshape(self.n, self.n)
            self.est[self.k] = self.raw[self.k] = (mu, P)
            self.tb[self.k] = ck["tb"]
            self.accepted = set(ck["accepted"])
            self.base = self.k + 1
            self.ctx.sig.append(f"K{self.k}")
        elif self.kf0_bytes is not None:
            self.kf = self.ctx.call("unpickle", pickle.loads, self.kf0_bytes)
        if self.deadline_passed >= 0:
            self.advance(self.deadline_passed)
        if self.hooks.get("check"):
            self.hooks["check"](self, "after restart")


def play(plan, ctx, hooks):
    """Run the discrete-event loop; hooks: step, check, query, end."""
    tr = Tracker(plan, ctx, hooks)
    q, seq = [], 0

    def at(time, *ev):
        nonlocal seq
        seq += 1
        heapq.heappush(q, (time, seq, ev))

    for k, v in sorted(plan.get("netstats", {}).items()):
        if v:
            ctx.faults[k] += v
    for t, s, when in plan["deliveries"]:
        if t < plan["T"] and s < tr.m:
            at(when, "arrival", t, s)
    for t in range(plan["T"]):
        at(t + plan["grace"], "deadline", t)
    for when, down, torn in plan["crashes"]:
        at(when, "crash", torn)
        at(when + down, "restart")
    for when, op in plan["queries"]:
        at(when, "query", op)
    last = 0.0
    prev = -1
    while q:
        now, _, ev = heapq.heappop(q)
        last = now
        kind = ev[0]
        ctx.event(f"t={now:.3f}", *ev)
        if kind == "arrival":
            if ev[1] < prev:
                ctx.faults["net.reorder"] += 1
            prev = max(prev, ev[1])
            tr.arrival(ev[1], ev[2])
        elif kind == "deadline":
            tr.deadline(ev[1])
        elif kind == "crash":
            tr.crash(ev[1])
        elif kind == "restart":
            tr.restart()
        elif kind == "query" and tr.up and tr.k >= 0 and hooks.get("query"):
            ctx.sig.append("q" + ev[1])
            hooks["query"](tr, ev[1])
    # faults have stopped: bring the tracker up and let it finish
    tr.restart()
    tr.advance(plan["T"] - 1)
    if tr.k != plan["T"] - 1:
        raise RuntimeError("tracker did not finish")
    ctx.sig.append("".join("1" if h else "0" for h in tr.have()))
    ctx.sig.append(f"{tr.model['cls']}/{tr.n}/{tr.m}/" + "".join(
        k for k in "AbQCdRfg" if isinstance(tr.model.get(k), list)
        and (k in "fg" or models.is_timed(tr.model, k))))
    for t in sorted(tr.est):
        ctx.record(f"est {t}", tr.est[t])
    if hooks.get("check"):
        hooks["check"](tr, "end")
    if hooks.get("end"):
        hooks["end"](tr)
    lost = tr.T - len(tr.accepted)
    if lost:
        ctx.faults["meas.missing"] += lost
        for t in range(tr.T):
            if t not in tr.accepted:
                ctx.faults["meas.missing." + plan["miss"][t]] += 1
    return tr


# -- shared minimisation -----------------------------------------------------------
def shorten(plan):
    """Candidates with fewer timesteps."""
    T = plan["T"]
    for new in sorted({1, 2, 3, T // 2, T - 1}):
        if not 1 <= new < T:
            continue
        yield cut_plan(clone(plan), new)


def cut_plan(p, new):
    p["T"] = p["model"]["T"] = new
    for holder in (p["model"], p.get("over", {})):
        for k in ("A", "b", "Q", "C", "d", "R"):
            v = holder.get(k)
            if v is None or models.depth(v) != models.LIN_PARAMS[k][1] + 1:
                continue
            keep = new - 1 if k in "AbQ" else new
            holder[k] = v[:keep] if keep else v[0]
        for k in ("f", "g"):
            v = holder.get(k)
            if isinstance(v, list):
                keep = new - 1 if k == "f" else new
                holder[k] = v[:keep] if keep else v[0]
    p["z"] = p["z"][:new]
    if "deliveries" in p:
        p["deliveries"] = [d for d in p["deliveries"] if d[0] < new]
    for k in ("miss", "garbage", "have"):
        if k in p:
            p[k] = p[k][:new]
    return p


def freeze_params(plan):
    """Make timed parameters constant, drop overrides, use plain forms."""
    for k in list(plan.get("over", {})):
        c = clone(plan)
        del c["over"][k]
        yield c
    model = plan["model"]
    for k in ("A", "b", "Q", "C", "d", "R"):
        if model.get(k) is not None and k in models.LIN_PARAMS and models.is_timed(model, k):
            c = clone(plan)
            c["model"][k] = model[k][0]
            yield c
    for k in ("f", "g"):
        if isinstance(model.get(k), list):
            c = clone(plan)
            c["model"][k] = model[k][0]
            yield c
    if any(v != "f" for v in model["forms"].values()):
        c = clone(plan)
        c["model"]["forms"] = {k: "f" for k in model["forms"]}
        yield c


def simple_values(plan):
    """Round matrices towards identity / zero."""
    model = plan["model"]
    n, m = model["n"], model["m"]
    eye = lambda k: np.eye(k).tolist()
    simple = {"Q": eye(n), "R": eye(m), "S0": eye(n), "A": eye(n),
              "b": [0.0] * n, "d": [0.0] * m, "mu0": [0.0] * n,
              "C": np.eye(m, n).tolist()}
    for k, v in simple.items():
        if model.get(k) is not None and k in model and not (
                k in models.LIN_PARAMS and models.is_timed(model, k)) and model[k] != v:
            c = clone(plan)
            c["model"][k] = v
            yield c
    for t, row in enumerate(plan["z"]):
        if any(x != round(x) for x in row):
            c = clone(plan)
            c["z"][t] = [float(round(x)) for x in row]
            yield c
    if any(any(x != 0.0 for x in r) for r in plan.get("garbage", [])):
        c = clone(plan)
        c["garbage"] = [[0.0] * m for _ in plan["garbage"]]
        yield c


SHRINKERS = [
    shorten,
    list_shrinker("crashes"),
    list_shrinker("queries"),
    list_shrinker("deliveries"),
    freeze_params,
    set_shrinker([
        (("model", "units"), None),
        (("over_all",), False), (("boot",), 1), (("window",), 100),
        (("obs_form",), "f"), (("batch_form",), "ma"), (("grace",), 0.25),
        (("ck_every",), 1), (("log_sync",), "arrival"), (("netstats",), {}),
    ]),
    simple_values,
]
