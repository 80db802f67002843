"""Independent reference models (no pykalman code).

`Dense` conditions the joint Gaussian of the whole trajectory on exactly the
delivered measurements; `ukf_*` are textbook unscented recursions.
"""

import numpy as np
from scipy.linalg import solve_triangular

from core import IllPosed
from models import fn_at, lin_value, Fn


class Dense:
    """Exact inference by conditioning one big joint Gaussian."""

    def __init__(self, lin):
        n, m, T = lin["n"], lin["m"], lin["T"]
        self.n, self.m, self.T = n, m, T
        mu = np.zeros((T, n))
        S = np.zeros((T * n, T * n))
        mu[0] = lin_value(lin, "mu0")
        S[:n, :n] = lin_value(lin, "S0")
        for t in range(1, T):
            A = lin_value(lin, "A", t - 1)
            mu[t] = A @ mu[t - 1] + lin_value(lin, "b", t - 1)
            prev = S[(t - 1) * n:t * n, :t * n]
            S[t * n:(t + 1) * n, :t * n] = A @ prev
            S[:t * n, t * n:(t + 1) * n] = (A @ prev).T
            S[t * n:(t + 1) * n, t * n:(t + 1) * n] = (
                A @ S[(t - 1) * n:t * n, (t - 1) * n:t * n] @ A.T
                + lin_value(lin, "Q", t - 1)
            )
        self.mu, self.S = mu, S
        self.C = [lin_value(lin, "C", t) for t in range(T)]
        self.d = [lin_value(lin, "d", t) for t in range(T)]
        self.R = [lin_value(lin, "R", t) for t in range(T)]
        # joint moments of all measurements
        H = np.zeros((T * m, T * n))
        for t in range(T):
            H[t * m:(t + 1) * m, t * n:(t + 1) * n] = self.C[t]
        self.zmu = (H @ mu.ravel()).reshape(T, m) + np.array(self.d)
        self.Szx = H @ S
        Szz = self.Szx @ H.T
        for t in range(T):
            Szz[t * m:(t + 1) * m, t * m:(t + 1) * m] += self.R[t]
        self.Szz = (Szz + Szz.T) / 2

    def condition(self, z, have, upto=None):
        """Posterior of everything given rows t with have[t] (t < upto)."""
        T, n, m = self.T, self.n, self.m
        L_T = T if upto is None else upto
        rows = [t for t in range(L_T) if have[t]]
        idx = np.array([t * m + i for t in rows for i in range(m)], dtype=int)
        out = Posterior()
        k = 0
        if len(idx):
            L = np.linalg.cholesky(self.Szz[np.ix_(idx, idx)])
            r = np.concatenate([np.asarray(z[t], dtype=float) - self.zmu[t] for t in rows])
            v = solve_triangular(L, r, lower=True)
            W = solve_triangular(L, self.Szx[idx, :], lower=True)
        else:
            L = np.zeros((0, 0))
            v = np.zeros(0)
            W = np.zeros((0, T * n))
        fm, fc, sm, sc, ll = [], [], [], [], [0.0]
        for t in range(L_T):
            sl = slice(t * n, (t + 1) * n)
            inc = 0.0
            if have[t]:
                seg = slice(k, k + m)
                dl = np.log(np.abs(np.diag(L)[seg])).sum()
                inc = -0.5 * (v[seg] @ v[seg]) - dl - 0.5 * m * np.log(2 * np.pi)
                k += m
            Wt = W[:, sl]
            fm.append(self.mu[t] + Wt[:k].T @ v[:k])
            fc.append(self.S[sl, sl] - Wt[:k].T @ Wt[:k])
            sm.append(self.mu[t] + Wt.T @ v)
            sc.append(self.S[sl, sl] - Wt.T @ Wt)
            ll.append(inc)
        out.fm, out.fc = np.array(fm), np.array(fc)
        out.sm, out.sc = np.array(sm), np.array(sc)
        out.ll = float(np.sum(ll))
        out.W = W
        return out

    def pair_cov(self, post, t):
        """Cov(x_t, x_{t-1} | delivered)."""
        n = self.n
        a, b = slice(t * n, (t + 1) * n), slice((t - 1) * n, t * n)
        return self.S[a, b] - post.W[:, a].T @ post.W[:, b]


class Posterior:
    pass


# -- textbook unscented filters -------------------------------------------------
def sigma_points(mu, P):
    """Julier's points with n + kappa = 3."""
    n = len(mu)
    L = np.linalg.cholesky((P + P.T) / 2)
    c = 3.0
    pts = [mu]
    for i in range(n):
        pts.append(mu + np.sqrt(c) * L[:, i])
    for i in range(n):
        pts.append(mu - np.sqrt(c) * L[:, i])
    w = np.full(2 * n + 1, 0.5 / c)
    w[0] = (c - n) / c
    return np.array(pts), w


def moments(Y, w, extra=None):
    mu = w @ Y
    D = Y - mu
    P = (D * w[:, None]).T @ D
    if extra is not None:
        P = P + extra
    return mu, P


def sound(P):
    """Refuse covariances for which the recursion itself is ill-conditioned.

    With negative centre weights the textbook recursion can produce indefinite
    matrices on strongly nonlinear models; nothing can be demanded there.
    """
    e = np.linalg.eigvalsh((P + P.T) / 2)
    if not (e[0] > 1e-5 * e[-1] and e[0] > 1e-7 and e[-1] < 1e4):
        raise IllPosed(f"textbook covariance has eigenvalues {e[0]:.3g} .. {e[-1]:.3g}")


def block(*ms):
    n = sum(len(x) for x in ms)
    B = np.zeros((n, n))
    i = 0
    for x in ms:
        B[i:i + len(x), i:i + len(x)] = x
        i += len(x)
    return B


class UKF:
    """Reference for the three unscented filters on a model description."""

    def __init__(self, model):
        self.model = model
        self.n, self.m, self.T = model["n"], model["m"], model["T"]
        self.Q = lin_value(model, "Q")
        self.R = lin_value(model, "R")
        self.mu0 = lin_value(model, "mu0")
        self.S0 = lin_value(model, "S0")
        self.aug = model["noise"]
        self._f = {}

    def fn(self, key, t):
        spec = fn_at(self.model, key, t)
        k = id(spec)
        if k not in self._f or self._f[k][0] is not spec:
            self._f[k] = (spec, Fn(spec))
        return self._f[k][1]

    def correct(self, X, w, mu, P, Y, R, z):
        ymu, S = moments(Y, w, R)
        sound(S)
        K = (((X - mu) * w[:, None]).T @ (Y - ymu)) @ np.linalg.inv(S)
        P = P - K @ S @ K.T
        sound(P)
        return mu + K @ (np.asarray(z, dtype=float) - ymu), P

    def step(self, t, mu, P, z, f=None, g=None, Q=None, R=None):
        """Estimate for time t from that of t-1 (t == 0: from the prior)."""
        n = self.n
        Q = self.Q if Q is None else Q
        R = self.R if R is None else R
        g = g or self.fn("g", t)
        if t > 0:
            f = f or self.fn("f", t - 1)
        if self.aug:
            pts, w = sigma_points(
                np.concatenate([mu, np.zeros(n + self.m)]), block(P, Q, R)
            )
            X = pts[:, :n]
            if t > 0:
                X = np.array([f(x, v) for x, v in zip(X, pts[:, n:2 * n])])
            mu, P = moments(X, w)
            sound(P)
            if z is None:
                return mu, P
            Y = np.array([g(x, v) for x, v in zip(X, pts[:, 2 * n:])])
            return self.correct(X, w, mu, P, Y, None, z)
        if t > 0:
            X, w = sigma_points(mu, P)
            mu, P = moments(np.array([f(x) for x in X]), w, Q)
            sound(P)
        if z is None:
            return mu, P
        X, w = sigma_points(mu, P)
        Y = np.array([g(x) for x in X])
        return self.correct(X, w, mu, P, Y, R, z)

    def settled(self, z, have, upto, op="filter"):
        """Does the recursion damp (rather than amplify) rounding errors?"""
        run = getattr(self, op)
        a = run(z, have, upto)
        b = run(z, have, upto, nudge=1e-11)
        for x, y in zip(a, b):
            if np.max(np.abs(x - y)) > 1e-7 * np.max(np.abs(x)):
                raise IllPosed("the textbook recursion amplifies rounding errors")
        return a

    def filter(self, z, have, upto=None, nudge=0.0):
        mu, P = self.mu0, self.S0
        ms, Ps = [], []
        for t in range(self.T if upto is None else upto):
            if nudge:
                mu, P = mu + nudge * np.sqrt(np.diag(P)), P * (1 + nudge)
            mu, P = self.step(t, mu, P, z[t] if have[t] else None)
            ms.append(mu)
            Ps.append(P)
        return np.array(ms), np.array(Ps)

    def smooth(self, z, have, upto=None, nudge=0.0):
        ms, Ps = self.filter(z, have, upto, nudge)
        n = self.n
        sm, sP = ms.copy(), Ps.copy()
        for t in reversed(range(len(ms) - 1)):
            f = self.fn("f", t)
            if self.aug:
                pts, w = sigma_points(
                    np.concatenate([ms[t], np.zeros(n)]), block(Ps[t], self.Q)
                )
                X = pts[:, :n]
                Y = np.array([f(x, v) for x, v in zip(X, pts[:, n:])])
                ymu, S = moments(Y, w)
            else:
                X, w = sigma_points(ms[t], Ps[t])
                Y = np.array([f(x) for x in X])
                ymu, S = moments(Y, w, self.Q)
            sound(S)
            G = (((X - ms[t]) * w[:, None]).T @ (Y - ymu)) @ np.linalg.inv(S)
            sm[t] = ms[t] + G @ (sm[t + 1] - ymu)
            sP[t] = Ps[t] + G @ (sP[t + 1] - S) @ G.T
            sound(sP[t])
        return sm, sP


# -- expectation maximisation ------------------------------------------------------
def em_reference(lin, z, have, keys):
    """One documented EM update from the exact posterior.

    `lin` is a linear model description, `keys` the parameters to estimate
    (A, b, Q, C, d, R, mu0, S0).  Order as documented: C and R use the old d,
    A and Q the old b, b and d the new matrices.
    """
    T, n, m = len(z), lin["n"], lin["m"]
    ref = Dense(lin)
    post = ref.condition(z, have, T)
    x, V = post.sm, post.sc
    P = [None] + [ref.pair_cov(post, t) for t in range(1, T)]
    rows = [t for t in range(T) if have[t]]
    z = np.array(z, dtype=float)
    th = {k: lin_value(lin, k) for k in ("A", "b", "Q", "C", "d", "R", "mu0", "S0")}
    new = dict(th)

    def at(k, t):
        return new[k][t] if new[k].ndim == (1 if k in "bd" else 2) + 1 else new[k]

    xx = [V[t] + np.outer(x[t], x[t]) for t in range(T)]
    if "C" in keys:
        num = sum(np.outer(z[t] - at("d", t), x[t]) for t in rows)
        new["C"] = num @ np.linalg.inv(sum(xx[t] for t in rows))
    if "R" in keys:
        R = np.zeros((m, m))
        for t in rows:
            e = z[t] - at("C", t) @ x[t] - at("d", t)
            R += np.outer(e, e) + at("C", t) @ V[t] @ at("C", t).T
        new["R"] = R / len(rows)
    if "A" in keys:
        num = sum(P[t] + np.outer(x[t] - at("b", t - 1), x[t - 1]) for t in range(1, T))
        new["A"] = num @ np.linalg.inv(sum(xx[:T - 1]))
    if "Q" in keys:
        Q = np.zeros((n, n))
        for t in range(1, T):
            A = at("A", t - 1)
            e = x[t] - A @ x[t - 1] - at("b", t - 1)
            Q += (np.outer(e, e) + A @ V[t - 1] @ A.T + V[t]
                  - P[t] @ A.T - A @ P[t].T)
        new["Q"] = Q / (T - 1)
    old_mu0 = new["mu0"]
    if "mu0" in keys:
        new["mu0"] = x[0]
    if "S0" in keys:
        e = x[0] - (new["mu0"] if "mu0" in keys else old_mu0)
        new["S0"] = V[0] + np.outer(e, e)
    if "b" in keys:
        new["b"] = sum(x[t] - at("A", t - 1) @ x[t - 1] for t in range(1, T)) / (T - 1)
    if "d" in keys:
        new["d"] = sum(z[t] - at("C", t) @ x[t] for t in rows) / len(rows)
    for k in "QRS":
        k = "S0" if k == "S" else k
        if k in keys:
            new[k] = (new[k] + new[k].T) / 2
    return new, post.ll
