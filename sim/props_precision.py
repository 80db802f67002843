"""Numerical promise of the square-root filters: C10."""

import copy
import pickle
from decimal import Decimal, localcontext

import numpy as np

import models
import service as sv
from core import Violation, close, list_shrinker, pair, set_shrinker
from models import LINEAR

DIGITS = 50
# class -> (decades of vagueness / precision, tolerance in standard deviations)
REACH = {"cholesky": (6.0, 3e-6), "bierman": (5.0, 1e-4), "sqrt_aukf": (3.0, 1e-4)}
# orders of magnitude of accuracy lost per decade; the tolerance shrinks with the demand
LOSS = {"cholesky": 1.0, "bierman": 2.0, "sqrt_aukf": 2.0}
# ... plus this much times the dynamic range of the covariances met so far (an unstable
# system through a long outage widens it far beyond the declared decades)
DYNAMIC = {"cholesky": 0.0, "bierman": 1e-15, "sqrt_aukf": 1e-13}


def dec(a):
    a = np.asarray(a, dtype=float)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = Decimal(float(a[i]))
    return out


def flt(a):
    return np.array(a, dtype=float)


def eliminate(S, B):
    """S^-1 B in decimal arithmetic."""
    n = len(S)
    M = np.hstack([S, B])
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(M[r, i]))
        if p != i:
            M[[i, p]] = M[[p, i]]
        M[i] = M[i] / M[i, i]
        for r in range(n):
            if r != i:
                M[r] = M[r] - M[r, i] * M[i]
    return M[:, n:]


def reference(model, z, have, upto):
    """Textbook Kalman filter with 50 digits: means, covariances."""
    val = lambda k, t=None: dec(models.lin_value(model, k, t))
    mu, P = val("mu0"), val("S0")
    fixed = {k: (None if models.is_timed(model, k) else val(k)) for k in "AbQCdR"}
    get = lambda k, t: fixed[k] if fixed[k] is not None else val(k, t)
    means, covs, spans, span = [], [], [], Decimal(1)
    for t in range(upto):
        if t:
            A = get("A", t - 1)
            mu, P = A.dot(mu) + get("b", t - 1), A.dot(P).dot(A.T) + get("Q", t - 1)
        before = max(P[j, j] for j in range(len(P)))
        if have[t]:
            C = get("C", t)
            S = C.dot(P).dot(C.T) + get("R", t)
            e = dec(z[t]) - C.dot(mu) - get("d", t)
            K = eliminate(S, C.dot(P)).T
            mu = mu + K.dot(e)
            P = P - K.dot(C).dot(P)
            P = (P + P.T) / 2
        span = max(span, before / min(P[j, j] for j in range(len(P))))
        spans.append(float(span))
        means.append(mu)
        covs.append(P)
    return means, covs, spans


class C10:
    """Square-root filters stay exact and positive where plain covariances fail."""

    runs = {"quick": 8000, "thorough": 200000}
    rule = ("one plan per seed: model with vague prior, very precise sensors or very small process "
            "noise, long history of outages, transports and queries; distinct when class, dimensions, "
            "scales (in decades), outages or queries differ")
    shrinkers = [list_shrinker("queries"), set_shrinker([(("how",), "none"), (("model", "units"), None)])]
    stub = ["simulated clock", "sensors", "network", "durable store"]
    real = ["every pykalman function under test", "numpy", "scipy", "pickle"]
    assumptions = [
        "seeded sampling of plans: a clean batch is evidence, not proof",
        "reference: Kalman recursion in 50-digit decimal arithmetic",
        "accuracy is claimed up to 6 (Cholesky), 5 (Bierman), 3 (unscented) decades of prior "
        "vagueness and of sensor and process precision"]

    def gen(self, rng, i):
        cls = rng.choice(sorted(REACH))
        reach = REACH[cls][0]
        T = rng.choice([3, 8, 20, 20, 40, 80])
        n, m = rng.choice([1, 2, 2, 3, 3, 4]), rng.choice([1, 1, 2, 2, 3])
        short_T = min(T, 4)
        if cls in LINEAR:
            model = models.gen_linear(rng, cls, short_T, n=n, m=m, p_int=0.0, p_default=0.0,
                                      p_timed_cov=0.0)
            for k, c in (("A", T - 1), ("b", T - 1), ("C", T), ("d", T)):
                if models.is_timed(model, k):
                    model[k] = [model[k][j % len(model[k])] for j in range(c)]
        else:
            model = models.gen_unscented(rng, cls, short_T, False, n=n, m=m, p_default=0.0)
            for k, c in (("f", T - 1), ("g", T)):
                if isinstance(model[k], list):
                    model[k] = [model[k][j % len(model[k])] for j in range(c)]
        model["T"] = T
        decades = {k: rng.choice([s * rng.uniform(0, reach), 0.0, s * reach]) for k, s in
                   (("S0", 1), ("R", -1), ("Q", -1))}
        for k, d in (("S0", n), ("R", m), ("Q", n)):
            M = np.array(models.spd(rng, d, diag=rng.random() < 0.3)) * 10 ** decades[k]
            model[k] = M.tolist()
        lin = model if cls in LINEAR else models.affine_as_linear(model)
        if rng.random() < 0.4:
            # the same in other units: precision is relative to them
            u = rng.choice([0, 20, -20, 40, -40, -60])
            w = rng.choice([0, 0, 4])
            model["units"] = [[u + rng.randint(-w, w) for _ in range(k)] for k in (n, m)]
        z = self.simulate(rng, lin)
        have, state = [], 1
        p = rng.choice([0.0, 0.1, 0.3])
        for t in range(T):
            state = int(rng.random() >= p) if rng.random() < 0.8 else state
            have.append(state)
        return {"model": model, "z": z, "have": have, "decades": decades,
                "how": rng.choice(["none", "none", "pickle", "deepcopy"]),
                "queries": sorted(rng.randint(1, T) for _ in range(rng.choice([0, 1, 2]))) + [T]}

    @staticmethod
    def simulate(rng, lin):
        n, m, T = lin["n"], lin["m"], lin["T"]
        g = lambda k: np.array([rng.gauss(0, 1) for _ in range(k)])
        v = lambda k, t=None: models.lin_value(lin, k, t)
        root = lambda M: np.linalg.cholesky(M)
        x = v("mu0") + root(v("S0")) @ g(n)
        z = []
        for t in range(T):
            if t:
                x = v("A", t - 1) @ x + v("b", t - 1) + root(v("Q", t - 1)) @ g(n)
            z.append((v("C", t) @ x + v("d", t) + root(v("R", t)) @ g(m)).tolist())
        return z

    def run(self, plan, ctx):
        model, have = plan["model"], plan["have"]
        cls, n = model["cls"], model["n"]
        reach, tol = REACH[cls]
        d = plan["decades"]
        used = (d["S0"] - min(d["R"], d["Q"])) / 2
        tol = max(1e-6 if cls == "sqrt_aukf" else 1e-7, tol * 10.0 ** (LOSS[cls] * (used - reach)))
        lin = model if cls in LINEAR else models.affine_as_linear(model)
        ctx.sig += [cls, f"{n}/{model['m']}", "".join(map(str, have)), str(plan["queries"]),
                    ",".join(f"{k}{round(v)}" for k, v in sorted(plan["decades"].items()))]
        if model.get("units"):
            ctx.fault("units.other")
        for k, v in plan["decades"].items():
            if abs(v) > 2:
                ctx.faults[{"S0": "prior.vague", "R": "sensor.precise", "Q": "process.quiet"}[k]] += 1
        lost = have.count(0)
        if lost:
            ctx.faults["meas.missing"] += lost
        kf = ctx.call("construct", models.build, model)
        z = np.array(plan["z"])
        with localcontext() as c:
            c.prec = DIGITS
            top = max(plan["queries"], default=0)
            means, covs, spans = reference(lin, z, have, top)
        mref = [flt(v) for v in means]
        for q in plan["queries"]:
            if plan["how"] == "pickle":
                kf = pickle.loads(ctx.call("pickle", pickle.dumps, kf))
            elif plan["how"] == "deepcopy":
                kf = ctx.call("deepcopy", copy.deepcopy, kf)
            Z = np.ma.array(z[:q])
            Z[~np.array(have[:q], dtype=bool)] = np.ma.masked
            fm, fc = pair(ctx.call("filter", kf.filter, Z), (q, n), (q, n, n), "filter")
            if not (np.all(np.isfinite(fm)) and np.all(np.isfinite(fc))):
                raise Violation("not-finite", "filter() is not finite")
            ctx.sim_time += q
            eps = 0.0
            for t in range(q):
                P = fc[t]
                top = float(np.max(np.abs(np.diag(P))))
                if not np.max(np.abs(P - P.T)) <= 1e-10 * top:
                    raise Violation("asymmetric", f"covariance of tick {t} is not symmetric")
                low = float(np.linalg.eigvalsh((P + P.T) / 2)[0])
                if not low >= -1e-10 * top:
                    raise Violation("indefinite", f"covariance of tick {t} has eigenvalue {low:.3g}"
                                    f" (largest variance {top:.3g})")
                sd = np.array([float(covs[t][j, j].sqrt()) for j in range(n)])
                # differences formed before rounding
                dm = flt(dec(fm[t]) - means[t]) / sd
                dP = flt(dec(P) - covs[t]) / np.outer(sd, sd)
                limit = tol + DYNAMIC[cls] * spans[t]
                # rounding of the mean itself, in standard deviations
                eps = max(eps, 1e-15 * np.max(np.abs(mref[t])) / np.min(sd))
                if cls == "sqrt_aukf":
                    limit += 100 * eps  # sigma points are offsets from the mean
                close("mean-accuracy:" + cls, dm, np.zeros(n), limit + 100 * eps,
                      f"mean of tick {t} in standard deviations")
                close("covariance-accuracy:" + cls, dP, np.zeros((n, n)), limit,
                      f"covariance of tick {t} in units of the standard deviations")
            ctx.event("query", q, "decades", sorted((k, round(v)) for k, v in plan["decades"].items()))
            ctx.record("filter", [fm])
