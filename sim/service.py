"""The service world: one process, shared models, several clients, failures.

A *call* is a JSON description of one library call on one model; `invoke` makes
it for real, `expect` says what it must return (independent oracle; for sampling,
a pristine model).
"""

import inspect

import numpy as np

import models
import track
from core import Violation, close, pair, plain, scalar, settings, IllPosed
from oracle import UKF, Dense, em_reference
from models import LINEAR, UNSCENTED

TOL = {"standard": 1e-7, "cholesky": 1e-7, "bierman": 1e-7,
       "ukf": 1e-6, "aukf": 1e-6, "sqrt_aukf": 2e-5}
EM_VARS = ["transition_matrices", "observation_matrices", "transition_offsets",
           "observation_offsets", "transition_covariance", "observation_covariance",
           "initial_state_mean", "initial_state_covariance"]
EM_DEFAULT = ["transition_covariance", "observation_covariance",
              "initial_state_mean", "initial_state_covariance"]
KEY_OF = {name: k for k, (name, _) in models.LIN_PARAMS.items()}


def gen_data(rng, model):
    """Measurements with losses for a model (T rows)."""
    T, m = model["T"], model["m"]
    loss = rng.choice([0.0, 0.0, 0.2, 0.5])
    return {
        "z": track.simulate(rng, model),
        "have": [int(rng.random() >= loss) for _ in range(T)],
        "garbage": [[rng.choice(track.GARBAGE) for _ in range(m)] for _ in range(T)],
        "miss": [rng.choice(track.MISS_FORMS) for _ in range(T)],
        "batch_form": rng.choice(track.BATCH_FORMS),
    }


def batch(model, data, upto, form=None):
    plan = {"model": model, "z": data["z"], "miss": data["miss"],
            "garbage": data["garbage"], "batch_form": data["batch_form"]}
    return track.batch_array(plan, data["have"], upto, how=form)


def gen_call(rng, model, data, ops=None):
    T, n, m = model["T"], model["n"], model["m"]
    lin = model["cls"] in LINEAR
    ops = ops or (["filter", "smooth", "filter_update", "sample"]
                  + (["loglikelihood"] if lin else []))
    op = rng.choice(ops)
    c = {"op": op}
    if op in ("filter", "smooth", "loglikelihood"):
        c["upto"] = rng.randint(1, T)
    elif op == "filter_update":
        if T < 2:
            c["op"] = "filter"
            c["upto"] = T
            return c
        c["t"] = rng.randrange(1, T)
        c["mu"] = models.vec(rng, n)
        c["P"] = models.spd(rng, n, 0.6)
        c["obs"] = rng.choice(["z", "z", "none", "full"] + ["part"] * (m > 1))
        if c["obs"] == "part":
            # one masked component makes the measurement a lost one
            c["mask"] = [0] * m
            c["mask"][rng.randrange(m)] = 1
        # the two triangles of a covariance may differ by a rounding error
        c["skew"] = int(n > 1 and rng.random() < 0.3)
    elif op == "sample":
        c["n"] = rng.randint(1, T)
        c["seed"] = rng.randrange(10**6)
        c["x0"] = models.vec(rng, n) if rng.random() < 0.4 else None
    return c


def inputs(model, data, c):
    """The argument objects a client hands over: (args, kwargs)."""
    if c["op"] in ("filter", "smooth", "loglikelihood"):
        return [batch(model, data, c["upto"])], {}
    if c["op"] == "filter_update":
        t = c["t"]
        z = np.array(data["z"][t], dtype=float)
        obs = {"z": z, "none": None, "full": np.ma.array(z, mask=True),
               "part": np.ma.array(z, mask=c.get("mask", False))}[c["obs"]]
        P = np.array(c["P"])
        if c.get("skew"):
            P[0, -1] = np.nextafter(P[0, -1], np.inf)
        kw = {}
        if model["cls"] in LINEAR:
            for k, name in models.UPDATE_ARGS.items():
                if models.is_timed(model, k):
                    kw[name] = models.lin_value(model, k, t - 1 if k in "AbQ" else t).copy()
        else:
            if isinstance(model["f"], list):
                kw["transition_function"] = models.Fn(models.fn_at(model, "f", t - 1))
            if isinstance(model["g"], list):
                kw["observation_function"] = models.Fn(models.fn_at(model, "g", t))
        return [np.array(c["mu"]), P, obs], kw
    if c["op"] == "sample":
        kw = {"random_state": c["seed"]}
        if c["x0"] is not None:
            kw["initial_state"] = np.array(c["x0"])
        return [c["n"]], kw
    raise RuntimeError(c["op"])


def call(kf, c, args, kw):
    return getattr(kf, c["op"])(*args, **kw)


def arrays(model, c, res):
    """The result as a list of plain arrays of the documented shapes."""
    n, m, op = model["n"], model["m"], c["op"]
    if op in ("filter", "smooth"):
        return list(pair(res, (c["upto"], n), (c["upto"], n, n), op))
    if op == "loglikelihood":
        return [np.array(scalar(res, op))]
    if op == "filter_update":
        return list(pair(res, (n,), (n, n), op))
    return list(pair(res, (c["n"], n), (c["n"], m), op))


class Expect:
    """Oracle values for calls on a model description."""

    def __init__(self, model, data):
        self.model, self.data = model, data
        self.dense = None
        self.samples = {}
        if model["cls"] in LINEAR:
            self.dense = Dense(model)
            self.lin = model
        elif models.is_affine(model):
            self.lin = models.affine_as_linear(model)
            self.dense = Dense(self.lin)
        else:
            self.ukf = UKF(model)

    def __call__(self, c):
        z, have, op = self.data["z"], self.data["have"], c["op"]
        if op == "sample":
            key = (c["n"], c["seed"], str(c["x0"]))
            if key not in self.samples:
                # fixed before any history has happened: see `prime`
                raise RuntimeError("sample was not primed")
            return self.samples[key]
        if op == "filter_update":
            t = c["t"]
            zt = z[t] if c["obs"] == "z" else None
            mu, P = np.array(c["mu"]), np.array(c["P"])
            if self.dense is not None:
                return list(lin_step(self.lin, t, mu, P, zt))
            return list(self.ukf.step(t, mu, P, zt))
        if self.dense is not None:
            p = self.dense.condition(z, have, c["upto"])
            if op == "loglikelihood":
                return [np.array(p.ll)]
            return [p.fm, p.fc] if op == "filter" else [p.sm, p.sc]
        f = self.ukf.filter if op == "filter" else self.ukf.smooth
        return list(f(z, have, c["upto"]))

    def prime(self, c):
        """Value of a sampling call, from a model nobody else has touched."""
        if c["op"] != "sample":
            return
        key = (c["n"], c["seed"], str(c["x0"]))
        if key in self.samples:
            return
        args, kw = inputs(self.model, self.data, c)
        res = quiet(call, models.build(self.model), c, args, kw)
        self.samples[key] = arrays(self.model, c, res)


def quiet(fn, *a, **k):
    with np.errstate(all="ignore"):
        return fn(*a, **k)


def lin_step(lin, t, mu, P, z):
    A, b, Q = (models.lin_value(lin, k, t - 1) for k in "AbQ")
    mu, P = A @ mu + b, A @ P @ A.T + Q
    if z is None:
        return mu, P
    C, d, R = (models.lin_value(lin, k, t) for k in "CdR")
    S = C @ P @ C.T + R
    K = np.linalg.solve(S, C @ P).T
    return mu + K @ (np.array(z, dtype=float) - C @ mu - d), P - K @ S @ K.T


def check(model, c, got, want, what, tol=None):
    tol = tol or TOL[model["cls"]]
    for g, w, part in zip(got, want, ("first", "second")):
        close(f"wrong:{c['op']}", g, w, tol, f"{what}: {c['op']} ({part} result)",
              floor=1.0 if c["op"] == "loglikelihood" else 1e-2)


# -- snapshots -------------------------------------------------------------------
def freeze(x):
    """A comparable, independent copy of a parameter or argument."""
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", str(x.dtype), x.shape, np.asarray(x.data).tobytes(),
                np.ma.getmaskarray(x).tobytes())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("o", x.shape, tuple(id(e) for e in x.ravel()))
        # (old pickle protocols deliver foreign byte order in native order)
        native = x.dtype.newbyteorder("=")
        return ("a", str(native), x.shape, x.astype(native).tobytes())
    if isinstance(x, float):
        return x.hex()
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(e) for e in x)
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__,) + tuple(sorted((freeze(e) for e in x), key=repr))
    if isinstance(x, dict):
        return tuple((k, freeze(v)) for k, v in sorted(x.items()))
    if isinstance(x, np.random.RandomState):
        s = x.get_state()
        return ("rs", s[1].tobytes(), s[2:])
    if x is None or isinstance(x, (int, float, str, bool, np.generic)):
        return x
    return ("id", id(x))


NAMES = {}


def params_of(kf):
    kf = getattr(kf, "kf", kf)
    cls = type(kf)
    if cls not in NAMES:
        NAMES[cls] = [p for p in inspect.signature(cls.__init__).parameters if p != "self"]
    return {p: getattr(kf, p) for p in NAMES[cls]}


def snapshot(kf):
    return {k: freeze(v) for k, v in params_of(kf).items()}


def diff(a, b):
    return [k for k in a if a[k] != b.get(k)]


def global_state():
    import os
    import random as pyrandom
    return {
        **settings(),
        "numpy global random state": freeze(np.random.mtrand._rand),
        "random module state": hash(pyrandom.getstate()),
        "working directory": os.getcwd(),
        "environment": str(sorted(os.environ.items())),
    }


# -- effective parameters of a linear filter -------------------------------------------
def effective(kf, model):
    """Current parameters, documented defaults filled in, as float arrays."""
    n, m = model["n"], model["m"]
    dflt = {"A": np.eye(n), "C": np.eye(m, n), "Q": np.eye(n), "R": np.eye(m),
            "b": np.zeros(n), "d": np.zeros(m), "mu0": np.zeros(n), "S0": np.eye(n)}
    out = {}
    for k, (name, _) in models.LIN_PARAMS.items():
        v = getattr(getattr(kf, "kf", kf), name)
        out[k] = dflt[k] if v is None else plain(v, name)
        # scalars stand for vectors and matrices of size one
        out[k] = (np.atleast_1d if k in ("b", "d", "mu0") else np.atleast_2d)(out[k])
        if isinstance(kf, models.Units):
            out[k] = out[k] / kf.factor(k)
    return out


def as_model(theta, model):
    """Model description with parameter arrays `theta`."""
    lin = {"cls": model["cls"], "n": model["n"], "m": model["m"], "T": model["T"],
           "forms": {}, "int": False}
    for k, v in theta.items():
        lin[k] = np.asarray(v, dtype=float).tolist()
    return lin


def distance(a, b):
    """Largest relative difference between two parameter sets."""
    worst = 0.0
    for k in a:
        if a[k].shape != b[k].shape:
            return np.inf
        if not np.all(np.isfinite(a[k])):
            return np.inf
        worst = max(worst, float(np.max(np.abs(a[k] - b[k]), initial=0.0))
                    / max(1e-2, float(np.max(np.abs(b[k]), initial=0.0))))
    return worst
