"""Model descriptions (JSON) and how to turn them into real pykalman objects."""

import copy
import importlib

import numpy as np

LINEAR = ("standard", "cholesky", "bierman")
UNSCENTED = ("ukf", "aukf", "sqrt_aukf")
CLASSES = {
    "standard": ("pykalman", "KalmanFilter"),
    "cholesky": ("pykalman.sqrt", "CholeskyKalmanFilter"),
    "bierman": ("pykalman.sqrt", "BiermanKalmanFilter"),
    "ukf": ("pykalman", "UnscentedKalmanFilter"),
    "aukf": ("pykalman", "AdditiveUnscentedKalmanFilter"),
    "sqrt_aukf": ("pykalman.sqrt", "AdditiveUnscentedKalmanFilter"),
}

# parameter name in the plan -> constructor keyword, per-timestep dimension
LIN_PARAMS = {
    "A": ("transition_matrices", 2),
    "C": ("observation_matrices", 2),
    "Q": ("transition_covariance", 2),
    "R": ("observation_covariance", 2),
    "b": ("transition_offsets", 1),
    "d": ("observation_offsets", 1),
    "mu0": ("initial_state_mean", 1),
    "S0": ("initial_state_covariance", 2),
}
UPDATE_ARGS = {
    "A": "transition_matrix",
    "C": "observation_matrix",
    "Q": "transition_covariance",
    "R": "observation_covariance",
    "b": "transition_offset",
    "d": "observation_offset",
}


def get_class(name):
    mod, cls = CLASSES[name]
    return getattr(importlib.import_module(mod), cls)


# -- random ingredients -------------------------------------------------------
def rnd(rng, lo=-1.0, hi=1.0):
    return round(rng.uniform(lo, hi), 3)


def vec(rng, n, s=1.0):
    return [round(rng.gauss(0, s), 3) for _ in range(n)]


def mat(rng, r, c, s=1.0):
    return [[round(rng.gauss(0, s), 3) for _ in range(c)] for _ in range(r)]


def spd(rng, n, scale=1.0, floor=0.2, diag=False):
    """Well-conditioned covariance matrix."""
    if diag:
        return [
            [round(scale * rng.uniform(0.3, 2.0), 3) if i == j else 0.0 for j in range(n)]
            for i in range(n)
        ]
    L = np.array(mat(rng, n, n, 0.6))
    M = scale * (L @ L.T + floor * np.eye(n))
    M = np.round(M, 4)
    return ((M + M.T) / 2).tolist()


def spd_int(rng, n):
    L = np.array([[rng.randint(-1, 1) for _ in range(n)] for _ in range(n)])
    return (L @ L.T + np.eye(n, dtype=int) * rng.randint(1, 2)).tolist()


def transition(rng, n):
    """A transition matrix whose powers stay tame."""
    kind = rng.randrange(5)
    if kind == 0:
        M = np.eye(n)
        for i in range(n - 1):
            if rng.random() < 0.6:
                M[i, i + 1] = rnd(rng, 0.05, 0.5)
        return np.round(M, 3).tolist()
    M = np.array(mat(rng, n, n))
    rad = max(abs(np.linalg.eigvals(M)).max(), 1e-3)
    M = M * (rng.uniform(0.3, 1.05) / rad)
    nrm = np.linalg.norm(M, 2)
    if nrm > 1.6:
        M *= 1.6 / nrm
    return np.round(M, 3).tolist()


def int_transition(rng, n):
    """Integer transition matrix whose powers stay tame."""
    for _ in range(6):
        M = [[rng.choice([0, 0, 1, -1]) if i != j else rng.choice([0, 1, 1])
              for j in range(n)] for i in range(n)]
        if max(abs(np.linalg.eigvals(np.array(M, dtype=float)))) < 1.01:
            return M
    return [[int(i == j) for j in range(n)] for i in range(n)]


def decaying(rng, n):
    """A transition matrix that forgets, for long histories."""
    M = np.array(mat(rng, n, n))
    M *= rng.uniform(0.5, 0.98) / max(np.linalg.norm(M, 2), 1e-3)
    return np.round(M, 3).tolist()


def timed(rng, p, count, make):
    """One value, or `count` of them with probability p (marks time-variance)."""
    if count >= 1 and rng.random() < p:
        return [make() for _ in range(count)]
    return make()


def gen_linear(rng, cls, T, n=None, m=None, p_default=0.12, p_timed=0.3,
               p_timed_cov=0.2, p_int=0.1):
    """Random linear-Gaussian model; T is the number of timesteps it covers."""
    big = rng.random() < 0.03
    n = n or (rng.choice([6, 7, 9]) if big else rng.choice([1, 1, 2, 2, 3, 3, 4, 5]))
    m = m or (rng.choice([1, 3, 5, 7]) if big else rng.choice([1, 1, 2, 2, 3, 4]))
    as_int = rng.random() < p_int
    swarm = rng.random() < 0.6  # time-variance only in some runs
    pt = p_timed if swarm else 0.0
    ptc = p_timed_cov if (swarm and cls == "standard") else 0.0
    if as_int:
        I = lambda r, c: [[rng.randint(-2, 2) for _ in range(c)] for _ in range(r)]
        A = lambda: int_transition(rng, n)
        mk = {
            "A": A, "C": lambda: I(m, n),
            "Q": lambda: spd_int(rng, n), "R": lambda: spd_int(rng, m),
            "b": lambda: I(1, n)[0], "d": lambda: I(1, m)[0],
            "mu0": lambda: I(1, n)[0], "S0": lambda: spd_int(rng, n),
        }
    else:
        sq = 10 ** rng.uniform(-1.5, 0.5)
        sr = 10 ** rng.uniform(-1.5, 0.5)
        s0 = 10 ** rng.uniform(-1, 1)
        mk = {
            "A": lambda: decaying(rng, n) if T > 20 else transition(rng, n),
            "C": lambda: mat(rng, m, n),
            "Q": lambda: spd(rng, n, sq, diag=rng.random() < 0.3),
            "R": lambda: spd(rng, m, sr, diag=rng.random() < 0.3),
            "b": lambda: vec(rng, n, 0.5),
            "d": lambda: vec(rng, m, 0.5),
            "mu0": lambda: vec(rng, n, 2.0),
            "S0": lambda: spd(rng, n, s0, diag=rng.random() < 0.3),
        }
    counts = {"A": T - 1, "b": T - 1, "Q": T - 1, "C": T, "d": T, "R": T}
    model = {"cls": cls, "n": n, "m": m, "T": T, "int": as_int}
    for k in LIN_PARAMS:
        if rng.random() < p_default:
            model[k] = None
            continue
        p = 0.0
        if k in ("A", "C", "b", "d"):
            p = pt
        elif k in ("Q", "R"):
            p = ptc
        model[k] = timed(rng, p, counts.get(k, 0), mk[k])
    model["forms"] = {k: rng.choice(FORMS) for k in LIN_PARAMS}
    if rng.random() < 0.05:
        # foreign byte order
        for k in LIN_PARAMS:
            if rng.random() < 0.5:
                model["forms"][k] = "swapped"
    if rng.random() < 0.3:
        # pass dimensions explicitly too
        model["dims"] = True
    return model


def quirk(rng, model):
    """Special values and structures: where a shortcut would look."""
    n, m, cls = model["n"], model["m"], model["cls"]

    def each(key, change):
        v = model.get(key)
        if v is None:
            return
        if key in "fg":
            for spec in v if isinstance(v, list) else [v]:
                change(spec["M"])
        elif is_timed(model, key):
            for x in v:
                change(x)
        else:
            change(v)

    def zero_row(M):
        M[i % len(M)] = [0] * len(M[0])

    def zero_col(M):
        for row in M:
            row[j % len(row)] = 0

    def twins(M):
        M[-1] = list(M[0])

    def wipe(v):
        for k in range(len(v)):
            v[k] = [0] * len(v[k]) if isinstance(v[k], list) else 0

    def unit(M):
        for a in range(len(M)):
            for b in range(len(M[a])):
                M[a][b] = int(a == b)

    i, j = rng.randrange(max(n, m)), rng.randrange(n)
    a, c = ("A", "C") if cls in LINEAR else ("f", "g")
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.randrange(10)
        if kind == 0:
            each(c, zero_row)
        elif kind == 1:
            each(c, zero_col)
        elif kind == 2:
            each(c, twins)
        elif kind == 3:
            each(a, rng.choice([zero_row, zero_col, wipe, twins]))
        elif kind == 4:
            each(rng.choice([a, c]), unit)
        elif kind == 5:
            for k in rng.sample(["b", "d", "mu0"], 2):
                each(k, wipe)
        elif kind == 6:
            each(rng.choice(["Q", "R", "S0"]), unit)
        elif kind == 7 and not (is_timed(model, "Q") if cls in LINEAR else False):
            model["S0"] = model["Q"]
        elif kind == 8:
            # time-varying, but the same at every tick, or alternating
            for k in "AbQCdRfg":
                v = model.get(k)
                timed_k = isinstance(v, list) if k in "fg" else is_timed(model, k)
                if v is not None and timed_k:
                    period = rng.choice([1, 2])
                    model[k] = [v[t % period % len(v)] for t in range(len(v))]
        elif kind == 9 and cls in LINEAR:
            for k in ("A", "C", "b", "d"):
                if model[k] is None and rng.random() < 0.5:
                    model[k] = lin_value(model, k).tolist()
    # no shared lists: the plan is a tree
    for k in "AbQCdRfg":
        if isinstance(model.get(k), list):
            model[k] = copy.deepcopy(model[k])
    model["S0"] = copy.deepcopy(model["S0"])
    return model


def depth(x):
    d = 0
    while isinstance(x, list):
        d += 1
        if not x:
            break
        x = x[0]
    return d


FORMS = ["f", "f", "f", "f", "list", "ro", "F", "tuple", "stride", "scalar"]


def nested(x):
    return tuple(nested(v) for v in x) if isinstance(x, list) else x


def form(x, how, as_int=False):
    """Materialise a JSON array in one of the array-like forms users pass."""
    if x is None:
        return None
    if how == "list":
        return x
    if how == "tuple":
        return nested(x)
    a = np.array(x, dtype=int if as_int else float)
    if how == "scalar" and a.size == 1:
        return a.ravel()[0].item()
    if how == "swapped":
        return a.astype(a.dtype.newbyteorder())
    if how == "stride" and a.ndim:
        b = np.full(tuple(2 * k for k in a.shape), 77, dtype=a.dtype)
        view = b[tuple(slice(None, None, -2) for _ in a.shape)]
        view[...] = a
        return view
    if how == "ro":
        a.flags.writeable = False
        return a
    if how == "F":
        return np.asfortranarray(a)
    return a


def how_of(model, k):
    how = model["forms"].get(k, "f")
    if how == "swapped" and model["cls"] != "standard" and k in ("Q", "R", "S0"):
        how = "f"  # scipy.linalg.cholesky of scipy 1.18 cannot read it
    return how


def lin_value(model, k, t=None):
    """Effective value of a linear parameter (numpy float), at time t if timed."""
    n, m = model["n"], model["m"]
    v = model[k]
    if v is None:
        v = {
            "A": np.eye(n), "C": np.eye(m, n), "Q": np.eye(n), "R": np.eye(m),
            "b": np.zeros(n), "d": np.zeros(m), "mu0": np.zeros(n), "S0": np.eye(n),
        }[k]
        return v
    a = np.array(v, dtype=float)
    if a.ndim == LIN_PARAMS[k][1] + 1:
        return a if t is None else a[t]
    return a


def is_timed(model, k):
    return model.get(k) is not None and depth(model[k]) == LIN_PARAMS[k][1] + 1


def linear_kwargs(model):
    kw = {}
    for k, (name, _) in LIN_PARAMS.items():
        if model[k] is not None:
            kw[name] = form(model[k], how_of(model, k), model.get("int"))
    known_n = any(model[k] is not None for k in ("A", "b", "Q", "mu0", "S0", "C"))
    known_m = any(model[k] is not None for k in ("C", "d", "R"))
    if model.get("dims") or not known_n:
        kw["n_dim_state"] = model["n"]
    if model.get("dims") or not known_m:
        kw["n_dim_obs"] = model["m"]
    return kw


# -- functions for the unscented filters --------------------------------------
class Fn:
    """A transition or observation function described by JSON; picklable."""

    def __init__(self, spec, hook=None):
        self.spec = spec
        self.M = np.array(spec["M"], dtype=float)
        self.c = np.array(spec["c"], dtype=float)
        self.eps = spec.get("eps", 0.0)
        self.W = np.array(spec["W"], dtype=float) if spec.get("W") is not None else None
        self.G = np.array(spec["G"], dtype=float) if spec.get("G") is not None else None
        self.seps = spec.get("seps", 0.0)
        self.hook = hook

    def __call__(self, x, w=None):
        if self.hook is not None:
            self.hook(self)
        y = self.M @ x + self.c
        if self.eps:
            y = y + self.eps * np.sin(self.W @ x)
        if w is not None:
            g = self.G @ w
            if self.seps:
                g = g * (1.0 + self.seps * np.sin(self.W @ x))
            y = y + g
        return y


def gen_fn(rng, rows, cols, noise, nonlin, kind, mild=1.0):
    spec = {
        "M": {"f": transition, "slow": decaying}[kind](rng, cols) if kind != "g"
        else mat(rng, rows, cols),
        "c": vec(rng, rows, 0.5),
    }
    if noise:
        G = np.eye(rows)
        if rng.random() < 0.5:
            G = np.round(G + np.array(mat(rng, rows, rows, 0.2)), 3)
        spec["G"] = G.tolist()
    if nonlin:
        spec["eps"] = round(rng.uniform(0.1, 0.5) * mild, 3)
        spec["W"] = mat(rng, rows, cols, 0.5)
        if noise and rng.random() < 0.5:
            spec["seps"] = round(rng.uniform(0.05, 0.25) * mild, 3)
    return spec


def gen_unscented(rng, cls, T, nonlin, n=None, m=None, p_default=0.12, p_timed=0.35):
    n = n or rng.choice([1, 2, 2, 3, 3, 4, 5])
    m = m or rng.choice([1, 1, 2, 2, 3])
    noise = cls == "ukf"
    sq = 10 ** rng.uniform(-1.3, 0.0)
    sr = 10 ** rng.uniform(-1.3, 0.3)
    s0 = 10 ** rng.uniform(-1, 0.3)
    mild = 1.0 if n <= 3 else 0.4
    model = {"cls": cls, "n": n, "m": m, "T": T, "noise": noise}
    mf = lambda: gen_fn(rng, n, n, noise, nonlin, "slow" if T > 20 else "f", mild)
    mg = lambda: gen_fn(rng, m, n, noise, nonlin, "g", mild)
    model["f"] = [mf() for _ in range(T - 1)] if T > 1 and rng.random() < p_timed else mf()
    model["g"] = [mg() for _ in range(T)] if rng.random() < p_timed else mg()
    if rng.random() < p_default:
        model["f"] = None
    if m == n and rng.random() < p_default:
        model["g"] = None
    mk = {
        "Q": lambda: spd(rng, n, sq, diag=rng.random() < 0.3),
        "R": lambda: spd(rng, m, sr, diag=rng.random() < 0.3),
        "mu0": lambda: vec(rng, n, 1.5),
        "S0": lambda: spd(rng, n, s0, diag=rng.random() < 0.3),
    }
    for k in mk:
        model[k] = None if rng.random() < p_default else mk[k]()
    model["forms"] = {k: rng.choice(FORMS) for k in mk}
    model["fform"] = rng.choice(["list", "array", "tuple", "column"])
    return model


def fn_at(model, key, t):
    """The JSON spec of f or g at time t (default: identity)."""
    s = model[key]
    if s is None:
        n = model["n"]
        spec = {"M": np.eye(n).tolist(), "c": [0.0] * n}
        if model["noise"]:
            spec["G"] = np.eye(n).tolist()
        return spec
    if isinstance(s, list):
        return s[t]
    return s


def make_fns(specs, how, hook=None):
    if specs is None:
        return None
    if not isinstance(specs, list):
        return Fn(specs, hook)
    fns = [Fn(s, hook) for s in specs]
    if how == "array":
        return np.array(fns, dtype=object)
    if how == "tuple":
        return tuple(fns)
    if how == "column":
        return np.array(fns, dtype=object)[:, np.newaxis]
    return fns


def unscented_kwargs(model, hook=None):
    kw = {}
    if model["f"] is not None:
        kw["transition_functions"] = make_fns(model["f"], model["fform"], hook)
    if model["g"] is not None:
        kw["observation_functions"] = make_fns(model["g"], model["fform"], hook)
    for k in ("Q", "R", "mu0", "S0"):
        if model[k] is not None:
            kw[LIN_PARAMS[k][0]] = form(model[k], how_of(model, k))
    if model["Q"] is None and model["mu0"] is None and model["S0"] is None:
        kw["n_dim_state"] = model["n"]
    if model["R"] is None:
        kw["n_dim_obs"] = model["m"]
    return kw


def build(model, hook=None, **extra):
    """Instantiate the real filter class for a model description."""
    if model.get("units"):
        return Units(model, **extra)
    cls = get_class(model["cls"])
    if model["cls"] in LINEAR:
        kw = linear_kwargs(model)
    else:
        kw = unscented_kwargs(model, hook)
    kw.update(extra)
    return cls(**kw)


def affine_as_linear(model):
    """The linear-Gaussian model an affine unscented model stands for."""
    n, m, T = model["n"], model["m"], model["T"]
    lin = {"cls": "standard", "n": n, "m": m, "T": T, "forms": {}}
    A, b, Q, C, d, R = [], [], [], [], [], []
    base_q = lin_value(model, "Q")
    base_r = lin_value(model, "R")
    for t in range(T - 1):
        s = fn_at(model, "f", t)
        A.append(s["M"])
        b.append(s["c"])
        G = np.array(s["G"]) if s.get("G") is not None else np.eye(n)
        Q.append((G @ base_q @ G.T).tolist())
    for t in range(T):
        s = fn_at(model, "g", t)
        C.append(s["M"])
        d.append(s["c"])
        G = np.array(s["G"]) if s.get("G") is not None else np.eye(m)
        R.append((G @ base_r @ G.T).tolist())
    lin["A"], lin["b"], lin["Q"] = (A, b, Q) if T > 1 else (None, None, None)
    lin["C"], lin["d"], lin["R"] = C, d, R
    lin["mu0"], lin["S0"] = model["mu0"], model["S0"]
    return lin


def is_affine(model):
    for key in ("f", "g"):
        s = model[key]
        for spec in (s if isinstance(s, list) else [s]):
            if spec and (spec.get("eps") or spec.get("seps")):
                return False
    return True


# -- other units ------------------------------------------------------------------
class Scaled(Fn):
    """The function of a model whose state and measurements use other units."""

    def __init__(self, spec, so, si, hook=None):
        super().__init__(spec, hook)
        self.so, self.si = so, si

    def __call__(self, x, w=None):
        x = np.asarray(x) / self.si
        if w is None:
            return self.so * super().__call__(x)
        return self.so * super().__call__(x, np.asarray(w) / self.so)


class Units:
    """A real filter that works in other units, driven in the plan's own units.

    The state is measured in units of 1/sx and the measurements in 1/sz (powers of
    two, so that conversions are exact); a correct filter cannot tell.  Each component may
    have a unit of its own.
    """

    def __init__(self, model, **extra):
        sx, sz = model["units"]
        if isinstance(sx, list):
            sx, sz = np.array(sx), np.array(sz)
        self.sx, self.sz = 2.0 ** sx, 2.0 ** sz
        self.lin = model["cls"] in LINEAR
        self.m = model["m"]
        kw = {}
        if self.lin:
            for k, (name, _) in LIN_PARAMS.items():
                if is_timed(model, k) or model[k] is not None or k in ("C", "Q", "R", "S0"):
                    v = lin_value(model, k) * self.factor(k)
                    kw[name] = form(v.tolist(), how_of(model, k))
            kw["n_dim_state"], kw["n_dim_obs"] = model["n"], model["m"]
        else:
            for key, so, name in (("f", self.sx, "transition_functions"),
                                  ("g", self.sz, "observation_functions")):
                s = model[key]
                if s is None:
                    s = fn_at(model, key, 0)
                if isinstance(s, list):
                    kw[name] = [Scaled(x, so, self.sx) for x in s]
                else:
                    kw[name] = Scaled(s, so, self.sx)
            for k in ("Q", "R", "mu0", "S0"):
                v = lin_value(model, k) * self.factor(k)
                kw[LIN_PARAMS[k][0]] = form(v.tolist(), how_of(model, k))
        kw.update(extra)
        self.kf = get_class(model["cls"])(**kw)

    def factor(self, k):
        sx, sz = self.sx, self.sz
        if k in ("b", "mu0"):
            return sx
        if k == "d":
            return sz
        if np.ndim(sx):
            a, b = {"A": (sx, 1 / sx), "C": (sz, 1 / sx), "R": (sz, sz)}.get(k, (sx, sx))
            return np.outer(a, b)
        return {"A": 1.0, "C": sz / sx, "R": sz * sz}.get(k, sx * sx)

    def data(self, X):
        if X is None:
            return None
        sz = self.sz
        if np.ndim(sz) and np.shape(X)[-1] != len(sz):
            sz = sz[0]  # a record of scalar measurements
        if isinstance(X, np.ma.MaskedArray):
            with np.errstate(all="ignore"):
                return np.ma.array(X.data * sz, mask=X.mask)
        if isinstance(X, list):
            return (np.array(X, dtype=float) * sz).tolist()
        return np.asarray(X, dtype=float) * sz

    def back(self, res):
        a, b = res
        return a / self.sx, b / self.factor("Q")

    def filter(self, X):
        return self.back(self.kf.filter(self.data(X)))

    def smooth(self, X):
        return self.back(self.kf.smooth(self.data(X)))

    def sample(self, n, initial_state=None, **kw):
        if initial_state is not None:
            kw["initial_state"] = np.asarray(initial_state) * self.sx
        x, z = self.kf.sample(n, **kw)
        return x / self.sx, z / self.sz

    def em(self, X, *args, **kw):
        res = self.kf.em(self.data(X), *args, **kw)
        return self if res is self.kf else res

    def loglikelihood(self, X):
        Z = np.ma.atleast_2d(np.ma.asarray(X))
        if Z.shape[0] == 1 and Z.shape[1] != self.m:
            Z = Z.T
        rows = int((~np.ma.getmaskarray(Z).any(axis=1)).sum())
        shift = self.m * np.log(self.sz) if not np.ndim(self.sz) else np.log(self.sz).sum()
        return self.kf.loglikelihood(self.data(X)) + rows * shift

    def filter_update(self, mu, P, observation=None, **kw):
        rows = len(np.atleast_2d(kw["observation_matrix"])) if "observation_matrix" in kw else None
        if np.ndim(self.sz) and rows not in (None, len(self.sz)):
            # another sensor, with as many components as it likes
            other = copy.copy(self)
            other.sz = np.resize(self.sz, rows)
            return other.filter_update(mu, P, observation, **kw)
        conv = {}
        for k, name in UPDATE_ARGS.items():
            if name in kw:
                conv[name] = np.asarray(kw[name]) * self.factor(k)
        for name, so in (("transition_function", self.sx), ("observation_function", self.sz)):
            if name in kw:
                conv[name] = Scaled(kw[name].spec, so, self.sx)
        if observation is not None:
            conv["observation"] = self.data(observation)
        return self.back(self.kf.filter_update(
            np.asarray(mu) * self.sx, np.asarray(P) * self.factor("Q"), **conv))
