"""Independent reference models, written from the properties (direct sums and closed forms where possible)."""
import numpy as np
import pandas as pd

from .core import Malformed


# ---------------------------------------------------------------- reading results
def arr(x, index=None, columns=None, what="value"):
    """values of a labelled result; the labels must be exactly the expected ones in the expected order"""
    if columns is not None:
        if not isinstance(x, pd.DataFrame):
            raise Malformed(f"{what} is a {type(x).__name__}, not a DataFrame")
        if list(x.columns) != list(columns):
            raise Malformed(f"{what} has columns {list(x.columns)[:5]}, not {list(columns)[:5]}")
        if index is not None and list(x.index) != list(index):
            raise Malformed(f"{what} has rows {list(x.index)[:5]}, not {list(index)[:5]}")
    elif index is not None:
        if not isinstance(x, pd.Series):
            raise Malformed(f"{what} is a {type(x).__name__}, not a Series")
        if list(x.index) != list(index):
            raise Malformed(f"{what} has labels {list(x.index)[:5]}, not {list(index)[:5]}")
    try:
        v = np.asarray(x.values if hasattr(x, "values") else x, dtype=float)
    except (TypeError, ValueError) as e:
        raise Malformed(f"{what} is not numeric: {e}")
    return v


def field(x, name):
    try:
        return getattr(x, name)
    except AttributeError:
        raise Malformed(f"result of type {type(x).__name__} has no field {name}")


# ---------------------------------------------------------------- EWMA
def weights(m, halflife):
    """normalised weights of the last m observations, oldest first"""
    w = 0.5 ** ((m - 1 - np.arange(m)) / float(halflife))
    return w / w.sum()


def ewma(X, halflife):
    """row t: weighted average of rows 0..t with weights halving every half-life, by running sums"""
    X = np.asarray(X, dtype=float)
    b = 0.5 ** (1.0 / float(halflife))
    out = np.empty_like(X)
    s, w = np.zeros(X.shape[1:]), 0.0
    for t in range(len(X)):
        s = b * s + X[t]
        w = b * w + 1.0
        out[t] = s / w
    return out


def ewma_direct(X, halflife, t):
    """the same at one time, as an explicit sum"""
    w = weights(t + 1, halflife)
    return np.tensordot(w, np.asarray(X, dtype=float)[: t + 1], axes=(0, 0))


def variance(X2, halflife, warm, clip2=None):
    """EWMA of squares; from the observation number warm+1 (0-based) on, capped at clip2 times the previous
    estimate, unless that is still zero"""
    X2 = np.asarray(X2, dtype=float)
    if clip2 is None:
        return ewma(X2, halflife)
    b = 0.5 ** (1.0 / float(halflife))
    out = np.empty_like(X2)
    s, w = np.zeros(X2.shape[1:]), 0.0
    for t in range(len(X2)):
        x = X2[t]
        if t > warm and t > 0:
            v = out[t - 1]
            x = np.where(v == 0, x, np.minimum(x, clip2 * v))
        s = b * s + x
        w = b * w + 1.0
        out[t] = s / w
    return out


class IewmaRef:
    """the iterated EWMA on a (T, n) array"""

    def __init__(self, X, vola_halflife, cov_halflife, min_periods_vola=20, min_periods_cov=20, mean=False, mu_halflife1=None, mu_halflife2=None, clip_at=None):
        X = np.where(np.isnan(X), 0.0, np.asarray(X, dtype=float))
        T, n = X.shape
        h1, h2 = mu_halflife1 or vola_halflife, mu_halflife2 or cov_halflife
        c = clip_at if clip_at else None
        self.M = ewma(X, h1) if mean else np.zeros_like(X)
        Xc = X - self.M
        if mean:
            # an asset without any return so far has exactly zero mean and centered return
            first = np.cumsum(X != 0, axis=0)
            Xc[(first == 0)] = 0.0
            if T:
                Xc[0] = 0.0
        self.V = np.sqrt(variance(Xc**2, vola_halflife, min_periods_vola, c**2 if c else None))
        a = max(int(min_periods_vola) - 1, 0)
        with np.errstate(all="ignore"):
            Z = Xc / self.V
        if c:
            Z = np.clip(Z, -c, c)
        rows = [t for t in range(a, T) if not np.isnan(Z[t]).all()]
        Z = np.nan_to_num(Z[rows], nan=0.0) if rows else np.zeros((0, n))
        self.adj_raw = Z
        if mean and len(rows):
            self.A = ewma(Z, h2)
            Z = Z - self.A
            Z[0] = 0.0
        else:
            self.A = np.zeros_like(Z)
        self.adj = Z
        R2 = ewma(np.einsum("ti,tj->tij", Z, Z), cov_halflife) if len(rows) else np.zeros((0, n, n))
        b = max(int(min_periods_cov) - 1, 0)
        self.rows = rows[b:]  # positions in the index with a result
        self.R2 = R2[b:]
        self.Arow = self.A[b:]
        self.mean = mean
        # Where a centered series is zero up to rounding (a constant series), its scale is rounding noise:
        # such entries are not decided. Exact zeros (no return yet) are.
        if mean:
            V2 = ewma(Xc**2, vola_halflife)
            noisy = (V2 > 0) & (V2 <= 1e-14 * np.maximum(ewma(X**2, h1), ewma(X**2, vola_halflife)))
            const = (V2 == 0) & (np.cumsum(X != 0, axis=0) > 0)
            const[0] = False if T else False
            und1 = np.logical_or.accumulate((noisy | const), axis=0)
            A2 = np.maximum(ewma(self.adj_raw**2, h2), ewma(self.adj_raw**2, cov_halflife)) if len(rows) else self.adj_raw
            if len(rows):
                # the rounding of the returns and of their mean, in the units of the adjusted returns
                with np.errstate(all="ignore"):
                    N2 = np.nan_to_num(np.maximum(X**2, ewma(X**2, h1))[rows] / self.V[rows] ** 2, nan=0.0, posinf=0.0)
                A2 = np.maximum(A2, np.maximum(ewma(N2, h2), ewma(N2, cov_halflife)))
            d2 = np.einsum("tii->ti", R2) if len(rows) else np.zeros((0, n))
            und2 = (d2 <= 1e-14 * A2) & (A2 > 0)
            if len(rows):
                und2[0] = False
            self.und = (und1[rows] | und2)[b:]
            self.und_vola = und1
        else:
            self.und = np.zeros((len(self.rows), n), bool)
            self.und_vola = np.zeros((T, n), bool)
        # squares below the smallest normal numbers are rounded to multiples of 5e-324 or to zero
        lost = np.logical_or.accumulate((self.V > 0) & (self.V < 1e-145), axis=0)
        if lost.any():
            self.und_vola = self.und_vola | lost
            self.und = self.und | lost[self.rows]

    def at(self, k):
        """-> (row, mean, covariance, volatility) of the k-th result"""
        r = self.rows[k]
        v = self.V[r]
        S = self.R2[k]
        d = np.diag(S).copy()
        with np.errstate(all="ignore"):
            s = 1 / np.sqrt(np.where(d == 0, np.nan, d))
        cov = S * np.outer(s, s) * np.outer(v, v)
        mu = self.M[r] + v * self.Arow[k] if self.mean else np.zeros_like(v)
        return r, mu, cov, v


def compare_iewma(mon, r, R, k, assets, what="", vtol=1e-8, rel=1e-7, mean=True, params=None):
    """one tuple of the stream against the reference"""
    row, mu, cov, v = R.at(k)
    und = R.und[k]
    n = len(v)
    gv = arr(field(r, "volatility"), index=assets, what="volatility")
    gC = arr(field(r, "covariance"), index=assets, columns=assets, what="covariance")
    if und.any():
        mon.event("undecided_entries", int(und.sum()))
        gv, v = np.where(und, 0, gv), np.where(und, 0, v)
        m2 = und[:, None] | und[None, :]
        gC, cov = np.where(m2, 0, gC), np.where(m2, 0, cov)
    mon.close(gv, v, vtol * v + 1e-300, what + "volatility", params=params, t=row)
    mon.close(gC, cov, ctol(cov, rel), what + "covariance", params=params, t=row)
    if mean:
        gm = arr(field(r, "mean"), index=assets, what="mean")
        mtol = 1e-8 * (np.abs(R.M[row]) + R.V[row] * (1 + np.abs(R.Arow[k]))) if R.mean else np.zeros(n)
        if und.any():
            gm, mu = np.where(und, 0, gm), np.where(und, 0, mu)
        mon.close(gm, mu, mtol, what + "mean", params=params, t=row)
    mon.event("tuples")


def ctol(cov, rel=1e-7, floor=0.0):
    """tolerance for a covariance: relative to sqrt(d_i d_j)"""
    d = np.sqrt(np.abs(np.nan_to_num(np.diag(cov))))
    return rel * np.outer(d, d) + floor + 1e-300


# ---------------------------------------------------------------- combination
class CombRef:
    """The blending problem from the public inputs only: sigmas {key: {t: DataFrame}}, returns, means {key: {t: vector}} | None"""

    gaptol = 1e-5

    def __init__(self, sigmas, returns, means=None):
        self.keys = list(sigmas)
        self.K = len(self.keys)
        self.n = returns.shape[1]
        self.assets = list(returns.columns)
        common = None
        for k in self.keys:
            s = set(sigmas[k].keys())
            common = s if common is None else common & s
        order = list(returns.index)
        self.times = [t for t in order if t in common]  # u_0, u_1, ...
        extra = common - set(order)
        assert not extra
        pos = {t: i for i, t in enumerate(order)}
        self.S = np.array([[np.asarray(sigmas[k][t].values, float) for k in self.keys] for t in self.times]).reshape(len(self.times), self.K, self.n, self.n)
        if means is None:
            self.mu = np.zeros((len(self.times), self.K, self.n))
        else:
            self.mu = np.array([[np.asarray(means[k][t], float) for k in self.keys] for t in self.times]).reshape(len(self.times), self.K, self.n)
        self.R = np.array([np.asarray(returns.values, float)[pos[t]] for t in self.times]).reshape(len(self.times), self.n)
        self.L = np.empty_like(self.S)
        self.cond = np.empty(self.S.shape[:2])
        for i in range(len(self.times)):
            for k in range(self.K):
                S = self.S[i, k]
                # scale to a correlation first, for accuracy
                d = np.sqrt(np.diag(S))
                C = S / np.outer(d, d)
                P = np.linalg.inv(C)
                self.L[i, k] = np.linalg.cholesky((P + P.T) / 2) / d[:, None]
                self.cond[i, k] = np.linalg.cond(C)
        self.N = max(len(self.times) - 1, 0)
        self._B = {}

    @property
    def usable(self):
        return self.times[1:]

    def window(self, w):
        return min(w or self.N, self.N)

    def result_times(self, w):
        return self.usable[self.window(w) - 1 :]

    def data(self, t, w):
        """A (log rows) and P of the result stamped t with window w"""
        j = self.times.index(t)
        w = self.window(w)
        lo = j - w + 1
        assert lo >= 1
        A, P = [], np.zeros((self.K, self.K))
        for i in range(lo, j + 1):
            Lp = self.L[i - 1]
            A.append(np.stack([np.diag(Lp[k]) for k in range(self.K)], axis=1))
            B = np.stack([Lp[k].T @ (self.R[i] - self.mu[i - 1, k]) for k in range(self.K)], axis=1)
            P += B.T @ B
        return np.vstack(A), P

    @staticmethod
    def objective(A, P, w):
        with np.errstate(all="ignore"):
            return np.log(A @ w).sum() - 0.5 * w @ P @ w

    @staticmethod
    def gap(A, P, w):
        """upper bound on the suboptimality of w over the simplex, per log term"""
        w = np.maximum(w, 0)
        w = w / w.sum()
        g = (A / (A @ w)[:, None]).sum(axis=0) - P @ w
        return float((g.max() - g @ w) / A.shape[0])

    def allow(self, A, P, w):
        """suboptimality a solver of ordinary accuracy may leave: gaptol, plus an error of 3e-7 in each weight
        against the slope of the objective (experts far worse than the best have enormous slopes), plus the relative
        gap of 1e-8 at which solvers stop (with an outlier of hundreds of volatilities in the window the objective is huge)"""
        w = np.maximum(w, 0)
        w = w / w.sum()
        g = (A / (A @ w)[:, None]).sum(axis=0) - P @ w
        return self.gaptol + 3e-7 * float(g.max() - g.min()) / A.shape[0] + 1e-8 * float(0.5 * w @ P @ w) / A.shape[0]

    @staticmethod
    def optimum(A, P):
        """-> (weights, upper bound on the optimal value, its own accuracy): log-barrier Newton on the simplex"""
        K = A.shape[1]
        if K == 1:
            w = np.ones(1)
            f = CombRef.objective(A, P, w)
            return w, f, 0.0
        N = A.shape[0]
        # start where every expert contributes about equally to the blended factor
        w = 1.0 / (np.abs(A).mean(axis=0) + 1e-300)
        w = w / w.sum()
        w = np.maximum(w, 1e-14)
        w /= w.sum()

        def val(w, mu):
            Aw = A @ w
            if (w <= 0).any() or (Aw <= 0).any():
                return -np.inf
            return np.log(Aw).sum() - 0.5 * w @ P @ w + mu * np.log(w).sum()

        mu = float(N)
        while True:
            for _ in range(200):
                G = A / (A @ w)[:, None]
                g = G.sum(axis=0) - P @ w + mu / w
                H = -(G.T @ G) - P - np.diag(mu / w**2)
                # scaled by w, for conditioning: dw = w * u
                Hs, gs = H * np.outer(w, w), g * w
                M = np.zeros((K + 1, K + 1))
                M[:K, :K] = Hs
                M[:K, K] = M[K, :K] = w
                try:
                    u = np.linalg.solve(M, np.concatenate([-gs, [0.0]]))[:K]
                except np.linalg.LinAlgError:
                    break
                dw = w * u
                dec = -u @ Hs @ u
                if not np.isfinite(dec) or dec <= 1e-13 * max(mu, 1e-9):
                    break
                t = 1.0
                neg = dw < 0
                if neg.any():
                    t = min(1.0, 0.99 * float(np.min(-w[neg] / dw[neg])))
                f0 = val(w, mu)
                while t > 1e-12 and val((w + t * dw) / (w + t * dw).sum(), mu) < f0 + 1e-4 * t * dec - 1e-13 * abs(f0):
                    t *= 0.5
                if t <= 1e-12:
                    break
                w = w + t * dw
                w = w / w.sum()
            if mu <= 1e-9 * N:
                break
            mu *= 0.05
        return w, CombRef.objective(A, P, w), K * mu + CombRef.gap(A, P, w) * 0

    @staticmethod
    def subopt(A, P, w, cut=1e-6):
        """suboptimality of w over the simplex per log term (0 or a hair below for an exact solution)"""
        w = np.maximum(w, 0)
        w = w / w.sum()
        g = CombRef.gap(A, P, w)
        if g <= cut:  # the first-order bound already decides
            return g
        _, f, _ = CombRef.optimum(A, P)
        return float(min(g, (f - CombRef.objective(A, P, w)) / A.shape[0]))

    @staticmethod
    def radius(A, P, w, gap):
        """how far (2-norm) the exact weights can be from w: sqrt(2 gap / curvature), inf if flat"""
        K = len(w)
        if K == 1:
            return 0.0
        w = np.maximum(w, 0)
        w = w / w.sum()
        G = A / (A @ w)[:, None]
        H = G.T @ G + P
        Q = np.linalg.qr(np.column_stack([np.ones(K), np.eye(K)[:, : K - 1]]))[0][:, 1:]
        lam = np.linalg.eigvalsh(Q.T @ H @ Q)[0]
        if lam <= 0:
            return np.inf
        return float(3 * np.sqrt(2 * max(gap, 1e-12) * A.shape[0] / lam))

    def blend(self, t, w):
        """-> mean, covariance for weights w at t"""
        i = self.times.index(t)
        L = np.tensordot(w, self.L[i], axes=(0, 0))
        nu = sum(w[k] * self.L[i, k].T @ self.mu[i, k] for k in range(self.K))
        Li = np.linalg.solve(L, np.eye(self.n))
        return np.linalg.solve(L.T, nu), Li.T @ Li

    def tol(self, t):
        i = self.times.index(t)
        return 1e-6 + 1e-12 * self.cond[i].max()


SUM = 1e-5
NEG = 1e-6


def check_result(mon, ref, res, t, w, tag="", gap=True, blend=True, times=True):
    """one blended result against the specification; returns its weights or None"""
    if res is None:
        mon.fail(tag + "None without a solver failure", time=t, window=w)
        return None
    if times:
        mon.check(field(res, "time") == t, tag + "time of the result", got=res.time, want=t)
    wt = arr(field(res, "weights"), index=ref.keys, what="weights")
    C = arr(field(res, "covariance"), index=ref.assets, columns=ref.assets, what="covariance")
    m = arr(field(res, "mean"), index=ref.assets, what="mean")
    mon.event("results")
    ok = mon.check(np.isfinite(wt).all() and abs(wt.sum() - 1) <= SUM and wt.min() >= -NEG, tag + "weights are a probability vector", weights=wt, time=t, window=w)
    if not ok:
        return None
    mon.peak("|sum-1|", abs(wt.sum() - 1))
    if gap:
        A, P = ref.data(t, w)
        g = ref.subopt(A, P, wt)
        al = ref.allow(A, P, wt)
        mon.peak("gap/allowed", g / al)
        mon.event("gaps")
        if al <= 1e-4:
            mon.event("sharp_gaps")
        mon.check(g <= al, tag + "weights maximise the likelihood over the window", gap=g, allowed=al, weights=wt, time=t, window=w)
    if blend:
        m0, C0 = ref.blend(t, wt)
        tol = ref.tol(t) - 1e-6 + 2e-9  # same weights on both sides
        mon.close(C, C0, ctol(C0, tol), tag + "covariance = inverse of the blended precision", time=t)
        sd = np.sqrt(np.diag(C0))
        mon.close(m, m0, tol * (sd * max(1.0, np.abs(m0 / sd).max())), tag + "mean follows from the weights", time=t)
    return wt
