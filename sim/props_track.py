"""Properties decided in the tracking world."""

import numpy as np

import models
import track
from core import IllPosed, Violation, close, pair, plain, scalar, clone, list_shrinker, set_shrinker
from models import LINEAR, UNSCENTED
from oracle import UKF, Dense


class TrackProp:
    shrinkers = track.SHRINKERS

    def hooks(self):
        return {}

    def run(self, plan, ctx):
        if plan["world"] == "archive":
            return play_archive(plan, ctx, self.archive)
        track.play(plan, ctx, self.hooks())


def gen_archive(rng, classes):
    """A long record (as from an archive), processed in one go."""
    cls = rng.choice(classes)
    T = rng.choice([150, 257, 300, 513, 700, 1025])
    n = rng.choice([1, 1, 2] if T > 600 else [1, 2, 3])
    model = models.gen_linear(rng, cls, T, n=n, m=rng.choice([1, 1, 2]), p_int=0.0)
    have, t = [], 0
    while len(have) < T:
        on = rng.random() < 0.6
        loss = rng.choice([0.0, 0.1, 0.5])
        have += [int(on and rng.random() >= loss) for _ in range(rng.choice([1, 20, 90, 250]))]
    plan = {"world": "archive", "model": model, "T": T, "over": {}, "have": have[:T]}
    plan["z"] = track.simulate(rng, model)
    plan["miss"] = [rng.choice(track.MISS_FORMS) for _ in range(T)]
    plan["garbage"] = [[rng.choice(track.GARBAGE) for _ in range(model["m"])] for _ in range(T)]
    plan["batch_form"] = rng.choice(track.BATCH_FORMS)
    return plan


def play_archive(plan, ctx, op):
    """One call over the whole record against the exact posterior."""
    model, T, n = plan["model"], plan["T"], plan["model"]["n"]
    have = plan["have"][:T]
    ctx.fault("meas.missing", T - sum(have))
    ctx.probe("archive")
    ctx.sim_time += T
    ctx.sig.append(f"{model['cls']}{T}{op}{sum(have)}")
    kf = ctx.call("construct", models.build, model)
    res = ctx.call(op, getattr(kf, op), track.batch_array(plan, have, T))
    post = Dense(model).condition(plan["z"], have, T)
    tol = track.tol(model, op)
    if op == "loglikelihood":
        got = scalar(res, op)
        close("archive:" + op, got, post.ll, tol, f"{op} of {T} time steps", floor=1.0)
        return ctx.record(op, [got])
    ms, Ps = pair(res, (T, n), (T, n, n), op)
    want = (post.fm, post.fc) if op == "filter" else (post.sm, post.sc)
    close(f"archive:{op}:mean", ms, want[0], tol, f"{op} means over {T} time steps")
    close(f"archive:{op}:cov", Ps, want[1], tol, f"{op} covariances over {T} time steps", floor=1e-2)
    ctx.record(op, (ms, Ps))


def reference(tr):
    """Oracle for the effective model, built once per run."""
    if not hasattr(tr, "_ref"):
        eff = tr.eff
        if eff["cls"] in LINEAR:
            tr._ref = ("dense", Dense(eff))
        elif models.is_affine(eff):
            tr._ref = ("dense", Dense(models.affine_as_linear(eff)))
        else:
            tr._ref = ("ukf", UKF(eff))
    return tr._ref


def ref_filter(tr, upto):
    kind, ref = reference(tr)
    have = tr.have()
    if kind == "dense":
        post = ref.condition(tr.plan["z"], have, upto)
        return post.fm, post.fc
    return ref.filter(tr.plan["z"], have, upto)


def compare_est(tr, ms, Ps, where, kind):
    op = tol_of(tr, "filter")
    for t in sorted(tr.est):
        if t >= len(ms):
            continue
        mu, P = tr.est[t]
        close(kind + ":mean", mu, ms[t], op, f"estimate at tick {t} ({where}): mean")
        close(kind + ":cov", P, Ps[t], op, f"estimate at tick {t} ({where}): covariance",
              floor=1e-2)


def tol_of(tr, op):
    return track.tol(tr.model, op)


# ------------------------------------------------------------------------------
class C01(TrackProp):
    """Online tracking with faults == batch filtering of the same deliveries."""

    runs = {"quick": 16000, "thorough": 500000}

    def gen(self, rng, i):
        plan = track.gen(rng, nonlin=0.5, queries=("filter",), n_queries=1)
        plan["refuse"] = rng.random() < 0.5
        return plan

    def hooks(self):
        def check(tr, where):
            if tr.k < 0:
                return
            kf = tr.batch_kf()
            X = track.batch_array(tr.plan, tr.have(), tr.k + 1)
            res = tr.ctx.call("filter", kf.filter, X)
            n = tr.n
            ms, Ps = pair(res, (tr.k + 1, n), (tr.k + 1, n, n), "filter")
            if tr.T > 20 and tr.eff["cls"] in UNSCENTED and not models.is_affine(tr.eff):
                UKF(tr.eff).settled(tr.plan["z"], tr.have(), tr.k + 1)
            compare_est(tr, ms, Ps, where, "online!=batch")
            tr.ctx.probe("compare.batch")

        def query(tr, op):
            check(tr, "query")

        def end(tr):
            if tr.plan.get("refuse"):
                refuse(tr)

        return {"check": check, "query": query, "end": end}


def refuse(tr):
    """A parameter that varies in time and is not passed must be refused."""
    model, eff = tr.model, tr.eff
    if tr.T < 2 or not tr.est:
        return
    t = max(tr.est)
    mu, P = tr.est[t]
    names = []
    if model["cls"] in LINEAR:
        names = [k for k in "AbQCdR" if models.is_timed(model, k)
                 and len(model[k]) > 1]
        arg = models.UPDATE_ARGS
    else:
        names = [k for k in "fg" if isinstance(model[k], list) and len(model[k]) > 1]
        arg = {"f": "transition_function", "g": "observation_function"}
    full = tr.update_args(t) if t else {}
    z = track.obs_vector(tr.plan["z"][t], "f")
    for k in names:
        if t == 0:
            break
        kw = {a: v for a, v in full.items() if a != arg[k]}
        try:
            with np.errstate(all="ignore"):
                tr.kf.filter_update(mu, P, observation=z, **kw)
        except Exception:  # noqa: BLE001 - any refusal will do
            tr.ctx.probe("refused." + k)
            continue
        raise Violation("not-refused", f"filter_update without {arg[k]} was accepted "
                        "although the stored parameter varies in time")


# ------------------------------------------------------------------------------
class C02(TrackProp):
    """Filtered estimates == exact posterior of the delivered measurements."""

    runs = {"quick": 20000, "thorough": 600000}

    archive = "filter"

    def gen(self, rng, i):
        if rng.random() < 0.004:
            return gen_archive(rng, list(LINEAR))
        cls = rng.choice(list(LINEAR) * 2 + list(UNSCENTED))
        plan = track.gen(rng, classes=[cls], nonlin=0.0, queries=("filter", "alien"),
                         n_queries=2, crashes=rng.random() < 0.5)
        if cls in LINEAR:
            plan["alien"] = gen_alien(rng, plan["model"])
        if cls in ("standard", "bierman") and rng.random() < 0.12 and not plan["over"]:
            singular_q(rng, plan)
        return plan

    def hooks(self):
        def check(tr, where):
            if tr.k < 0:
                return
            ms, Ps = ref_filter(tr, tr.k + 1)
            compare_est(tr, ms, Ps, where, "filter_update!=posterior")
            tr.ctx.probe("compare.oracle")

        def query(tr, op):
            if op == "alien":
                return alien(tr)
            kf = tr.batch_kf()
            X = track.batch_array(tr.plan, tr.have(), tr.k + 1)
            res = tr.ctx.call("filter", kf.filter, X)
            n, T = tr.n, tr.k + 1
            ms, Ps = pair(res, (T, n), (T, n, n), "filter")
            wm, wP = ref_filter(tr, T)
            tol = tol_of(tr, "filter")
            close("filter!=posterior:mean", ms, wm, tol, "filter means")
            close("filter!=posterior:cov", Ps, wP, tol, "filter covariances", floor=1e-2)

        def end(tr):
            query(tr, "filter")

        return {"check": check, "query": query, "end": end}


def gen_alien(rng, model):
    """A different sensor suite, described completely by per-call arguments."""
    n = model["n"]
    m = rng.choice([k for k in (1, 2, 3, 4)])
    return {"C": models.mat(rng, m, n), "R": models.spd(rng, m, 0.5),
            "d": models.vec(rng, m), "z": models.vec(rng, m, 2.0),
            "miss": rng.choice(["z", "z", "none", "full"])}


def alien(tr):
    a = tr.plan.get("alien")
    if not a or tr.k < 0 or tr.k + 1 >= tr.T:
        return
    t = tr.k + 1
    mu, P = tr.est[tr.k]
    kw = tr.update_args(t)
    C, R, d = (np.array(a[k], dtype=float) for k in "CRd")
    kw.update(observation_matrix=C, observation_covariance=R, observation_offset=d)
    z = np.array(a["z"], dtype=float)
    obs = {"z": z, "none": None, "full": np.ma.array(z, mask=True)}[a["miss"]]
    res = tr.ctx.call("filter_update", tr.kf.filter_update, mu, P, obs, **kw)
    n = tr.n
    gm, gP = pair(res, (n,), (n, n), "filter_update")
    A = models.lin_value(tr.eff, "A", t - 1)
    wm = A @ mu + models.lin_value(tr.eff, "b", t - 1)
    wP = A @ P @ A.T + models.lin_value(tr.eff, "Q", t - 1)
    if a["miss"] == "z":
        S = C @ wP @ C.T + R
        K = np.linalg.solve(S, C @ wP).T
        wm = wm + K @ (z - C @ wm - d)
        wP = wP - K @ S @ K.T
    tol = tol_of(tr, "filter")
    close("alien:mean", gm, wm, tol, "update with another sensor suite: mean")
    close("alien:cov", gP, wP, tol, "update with another sensor suite: covariance", floor=1e-2)
    tr.ctx.probe("alien")


def singular_q(rng, plan):
    """States that nothing drives: rank-deficient or zero Q, exactly known components."""
    model = plan["model"]
    n = model["n"]
    if n < 2 and rng.random() < 0.5:
        return
    kind = rng.choice(["still", "still", "known", "static"])
    ks = range(n) if kind == "static" else rng.sample(range(n), 1 if n < 3 else rng.choice([1, 2]))

    def strip(M):
        M = np.array(M)
        for k in ks:
            M[k, :] = 0
            M[:, k] = 0
        return M.tolist()

    number = int if model.get("int") else float
    for key in ("Q", "S0")[:2 if kind == "known" else 1]:
        v = model[key] if model[key] is not None else np.eye(n, dtype=number).tolist()
        timed = models.depth(v) == 3
        if timed and kind == "still" and rng.random() < 0.5:
            v = [strip(M) if rng.random() < 0.5 else M for M in v]
        else:
            v = [strip(M) for M in v] if timed else strip(v)
        model[key] = v
    if kind == "known" and model["A"] is not None:
        # an augmented constant (or ramp) feeding the other components
        for M in (model["A"] if models.is_timed(model, "A") else [model["A"]]):
            for k in ks:
                M[k] = [number(a == k) for a in range(n)]
    plan["degenerate"] = kind


# ------------------------------------------------------------------------------
class C03(TrackProp):
    """Smoothed estimates == exact joint posterior of everything delivered."""

    runs = {"quick": 16000, "thorough": 500000}

    archive = "smooth"

    def gen(self, rng, i):
        if rng.random() < 0.004:
            return gen_archive(rng, list(LINEAR))
        cls = rng.choice(list(LINEAR) * 2 + list(UNSCENTED))
        plan = track.gen(rng, classes=[cls], nonlin=0.0, queries=("smooth",),
                         n_queries=3, crashes=False, over=False)
        if cls == "standard" and rng.random() < 0.15:
            singular_q(rng, plan)
        return plan

    def hooks(self):
        return {"query": self.query, "end": lambda tr: self.query(tr, "smooth")}

    @staticmethod
    def query(tr, op):
        # the analyst smooths whatever has reached the log, on schedule or late
        have = [tr.complete(t) for t in range(tr.T)]
        T, n = tr.k + 1, tr.n
        kf = tr.batch_kf()
        X = track.batch_array(tr.plan, have, T)
        res = tr.ctx.call("smooth", kf.smooth, X)
        ms, Ps = pair(res, (T, n), (T, n, n), "smooth")
        kind, ref = reference(tr)
        post = ref.condition(tr.plan["z"], have, T)
        tol = tol_of(tr, "smooth")
        if tr.plan.get("degenerate"):
            tol *= max(1.0, smoothing_condition(tr, post) / 1e5)
            tr.ctx.probe("smooth.degenerate." + tr.plan["degenerate"])
        close("smooth!=posterior:mean", ms, post.sm, tol, "smoothed means")
        close("smooth!=posterior:cov", Ps, post.sc, tol, "smoothed covariances", floor=1e-2)
        tr.ctx.probe("smooth")
        if not have[T - 1]:
            tr.ctx.probe("smooth.trailing_loss")
        if not any(have[:T]):
            tr.ctx.probe("smooth.nothing_delivered")
        tr.ctx.record("smooth", (ms, Ps))


def smoothing_condition(tr, post):
    """How much the backward pass has to divide by: condition of the predictions."""
    worst = 1.0
    for t in range(len(post.fc) - 1):
        A = models.lin_value(tr.eff, "A", t)
        P = A @ post.fc[t] @ A.T + models.lin_value(tr.eff, "Q", t)
        e = np.linalg.eigvalsh(P)
        live = e[e > 1e-14 * e[-1]]
        if len(live):
            worst = max(worst, e[-1] / live[0])
    if worst > 1e9:
        raise IllPosed(f"predicted covariances with condition {worst:.3g}")
    return worst


class C04(TrackProp):
    """loglikelihood == log density of exactly the delivered measurements."""

    runs = {"quick": 20000, "thorough": 600000}

    archive = "loglikelihood"

    def gen(self, rng, i):
        if rng.random() < 0.004:
            return gen_archive(rng, list(LINEAR))
        plan = track.gen(rng, classes=list(LINEAR), queries=("ll",), n_queries=3,
                         crashes=False, over=False)
        if plan["model"]["cls"] in ("standard", "bierman") and rng.random() < 0.15:
            singular_q(rng, plan)
        return plan

    def hooks(self):
        return {"query": self.query, "end": lambda tr: self.query(tr, "ll")}

    @staticmethod
    def query(tr, op):
        have = [tr.complete(t) for t in range(tr.T)]
        T = tr.k + 1
        kf = tr.batch_kf()
        X = track.batch_array(tr.plan, have, T)
        got = scalar(tr.ctx.call("loglikelihood", kf.loglikelihood, X), "loglikelihood")
        _, ref = reference(tr)
        want = ref.condition(tr.plan["z"], have, T).ll
        close("loglikelihood", got, want, 1e-7, "log likelihood of the delivered measurements",
              floor=1.0)
        tr.ctx.probe("loglikelihood")
        if not any(have[:T]):
            tr.ctx.probe("loglikelihood.nothing_delivered")
        tr.ctx.record("ll", [got])


# ------------------------------------------------------------------------------
class C11(TrackProp):
    """Nonlinear tracking == textbook unscented recursions at every tick."""

    runs = {"quick": 10000, "thorough": 300000}

    def gen(self, rng, i):
        return track.gen(rng, classes=list(UNSCENTED), nonlin=0.9,
                         queries=("filter", "smooth"), n_queries=2,
                         crashes=rng.random() < 0.4)

    def hooks(self):
        def check(tr, where):
            if tr.k < 0:
                return
            ref = UKF(tr.eff)
            want = (ref.settled if tr.T > 20 else ref.filter)(tr.plan["z"], tr.have(), tr.k + 1)
            compare_est(tr, *want, where, "online!=textbook")
            tr.ctx.probe("compare.textbook")

        def query(tr, op):
            T, n = tr.k + 1, tr.n
            ref = UKF(tr.eff)
            have = tr.have()
            if tr.T > 20:
                want = ref.settled(tr.plan["z"], have, T, op)
            else:
                want = (ref.filter if op == "filter" else ref.smooth)(tr.plan["z"], have, T)
            kf = tr.batch_kf()
            X = track.batch_array(tr.plan, have, T)
            res = tr.ctx.call(op, getattr(kf, op), X)
            ms, Ps = pair(res, (T, n), (T, n, n), op)
            tol = tol_of(tr, op)
            close(op + "!=textbook:mean", ms, want[0], tol, op + " means")
            close(op + "!=textbook:cov", Ps, want[1], tol, op + " covariances", floor=1e-2)
            tr.ctx.probe("compare." + op)

        def end(tr):
            query(tr, "filter")
            query(tr, "smooth")

        return {"check": check, "query": query, "end": end}


# ------------------------------------------------------------------------------
class C14(TrackProp):
    """Published estimates are never rewritten by what happens later."""

    runs = {"quick": 7000, "thorough": 220000}

    def gen(self, rng, i):
        plan = track.gen(rng, nonlin=0.3, queries=("publish",), n_queries=3,
                         crashes=False, over=False, Ts=[2, 3, 4, 5, 6, 8, 10, 12])
        T, m = plan["T"], plan["model"]["m"]
        # an alternative future: different values and different losses
        plan["alt"] = {
            "from": rng.randrange(1, T + 1),
            "z": [models.vec(rng, m, 3.0) for _ in range(T)],
            "lost": [int(rng.random() < 0.3) for _ in range(T)],
        }
        if "f" not in plan["model"] and rng.random() < 0.25:
            # something enormous happens later
            w = 10.0 ** rng.choice([4, 6, 9, 12])
            plan["alt"]["z"] = [[w * v for v in z] for z in plan["alt"]["z"]]
        return plan

    def hooks(self):
        return {"query": self.publish, "end": self.end}

    @staticmethod
    def publish(tr, op):
        """Batch results on the log so far, kept for comparison at the end."""
        have = [tr.complete(t) for t in range(tr.T)]
        T, n = tr.k + 1, tr.n
        X = track.batch_array(tr.plan, have, T)
        kf = tr.batch_kf()
        tr.guard(tr.plan["z"], have, T, smooth=True)
        f = pair(tr.ctx.call("filter", kf.filter, X), (T, n), (T, n, n), "filter")
        s = pair(tr.ctx.call("smooth", kf.smooth, X), (T, n), (T, n, n), "smooth")
        tol = 1e-6 if tr.model["cls"] in UNSCENTED else 1e-8
        close("smooth-last!=filter-last:mean", s[0][-1], f[0][-1], tol, "smoothed mean at the last tick")
        close("smooth-last!=filter-last:cov", s[1][-1], f[1][-1], tol,
              "smoothed covariance at the last tick", floor=1e-2)
        if not hasattr(tr, "published"):
            tr.published = []
        tr.published.append((T, have[:T], f, kf))
        tr.ctx.probe("publish")

    @classmethod
    def end(cls, tr):
        cls.publish(tr, "publish")
        n, plan = tr.n, tr.plan
        tol = 1e-6 if tr.model["cls"] in UNSCENTED else 1e-8
        alt = plan["alt"]
        for T, have, f, kf in tr.published:
            # the same past with three different futures
            for future in ("as-is", "alt", "lost"):
                p2 = clone(plan)
                h2 = list(have) + [tr.complete(t) for t in range(T, tr.T)]
                cut = T
                if future == "alt":
                    cut = min(T, max(1, alt["from"]))
                    for t in range(cut, tr.T):
                        p2["z"][t] = alt["z"][t]
                        h2[t] = not alt["lost"][t]
                elif future == "lost":
                    for t in range(cut, tr.T):
                        h2[t] = False
                X = track.batch_array(p2, h2, tr.T)
                tr.guard(p2["z"], h2, tr.T)
                g = pair(tr.ctx.call("filter", kf.filter, X), (tr.T, n), (tr.T, n, n), "filter")
                close("rewritten:mean", g[0][:cut], f[0][:cut], tol,
                      f"filtered means of ticks < {cut} after a {future} future")
                close("rewritten:cov", g[1][:cut], f[1][:cut], tol,
                      f"filtered covariances of ticks < {cut} after a {future} future", floor=1e-2)
                tr.ctx.faults["future." + future] += 1


# ------------------------------------------------------------------------------
class C15(TrackProp):
    """What sits in the slot of a lost measurement never influences anything."""

    runs = {"quick": 12000, "thorough": 350000}

    def gen(self, rng, i):
        plan = track.gen(rng, nonlin=0.4, queries=("garbage",), n_queries=1, crashes=False,
                         Ts=[1, 2, 3, 4, 5, 6, 8], over=True)
        T, m = plan["T"], plan["model"]["m"]
        if rng.random() < 0.7 and plan["deliveries"]:
            # make sure something is lost
            t = rng.randrange(T)
            plan["deliveries"] = [d for d in plan["deliveries"] if d[0] != t]
        plan["garbage2"] = [[rng.choice(track.GARBAGE) for _ in range(m)] for _ in range(T)]
        plan["z2"] = [models.vec(rng, m, 30.0) for _ in range(T)]
        plan["miss2"] = [rng.choice(["full", "partial"]) for _ in range(T)]
        plan["em"] = rng.random() < 0.4
        return plan

    def hooks(self):
        return {"end": self.end}

    @classmethod
    def end(cls, tr):
        plan = tr.plan
        have = [tr.complete(t) for t in range(tr.T)]
        T, n = tr.T, tr.n
        if all(have):
            return
        tr.ctx.probe("some_lost")
        variants = []
        clean = clone(plan)
        clean["garbage"] = [[0.0] * tr.m for _ in range(T)]
        clean["miss"] = ["full"] * T
        variants.append(clean)
        dirty = clone(plan)
        dirty["garbage"] = plan["garbage2"]
        dirty["miss"] = plan["miss2"]
        for t in range(T):
            if not have[t]:
                dirty["z"][t] = plan["z2"][t]
        variants.append(dirty)
        variants.append(plan)
        ops = ["filter", "smooth"]
        if tr.model["cls"] in LINEAR:
            ops.append("loglikelihood")
            if plan.get("em") and not plan["model"].get("units") and sum(have) >= 2 and T >= 3 and not any(
                    models.is_timed(tr.eff, k) for k in "AbQCdR"):
                ops.append("em")
        tol = 1e-6 if tr.model["cls"] in UNSCENTED else 1e-9
        first = {}
        tr.guard(plan["z"], have, T, smooth=True)
        for v, p in enumerate(variants):
            for op in ops:
                kf = tr.batch_kf()
                X = track.batch_array(p, have, T, how="ma" if v else None)
                if op == "em":
                    tr.ctx.call("em", kf.em, X, n_iter=1,
                                em_vars=["transition_covariance", "observation_covariance",
                                         "initial_state_mean", "observation_matrices",
                                         "observation_offsets"])
                    res = [plain(getattr(kf, a), a) for a in (
                        "transition_covariance", "observation_covariance",
                        "initial_state_mean", "observation_matrices", "observation_offsets")]
                elif op == "loglikelihood":
                    res = [scalar(tr.ctx.call(op, kf.loglikelihood, X), op)]
                else:
                    res = pair(tr.ctx.call(op, getattr(kf, op), X), (T, n), (T, n, n), op)
                if v == 0:
                    first[op] = res
                else:
                    for a, b in zip(res, first[op]):
                        close("leak:" + op, a, b, tol,
                              f"{op} with other contents in the lost slots", floor=1e-2)
        # online: every way of saying "missing" is the same
        t = next(t for t in range(T) if not have[t])
        if t >= 1 and t - 1 in tr.est:
            mu, P = tr.est[t - 1]
            got = []
            if tr.nonlinear:
                UKF(tr.eff).step(t, mu, P, None)
            g1 = np.array(plan["garbage"][t], dtype=float)
            g2 = np.array(plan["garbage2"][t], dtype=float)
            pm = track.part_mask(t, tr.m)
            for obs in (None, np.ma.array(g1, mask=True), np.ma.array(g2, mask=True),
                        np.ma.array(np.where(pm, g2, np.array(plan["z2"][t])), mask=pm)):
                res = tr.ctx.call("filter_update", tr.kf.filter_update, mu, P, obs,
                                  **tr.update_args(t))
                got.append(pair(res, (n,), (n, n), "filter_update"))
            for a in got[1:]:
                close("leak:filter_update", a[0], got[0][0], tol, "missing observation: mean")
                close("leak:filter_update", a[1], got[0][1], tol, "missing observation: covariance",
                      floor=1e-2)
            tr.ctx.probe("online_forms")
