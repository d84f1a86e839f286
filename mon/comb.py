"""Generators and helpers shared by the combination (K*) monitors."""
import numpy as np
import pandas as pd

from . import boot, gen, ref

KEYKINDS = ["str", "int", "tuple", "float", "mixed", "revstr", "pairs", "npint"]


def keys(rng, K, kind=None):
    kind = kind or str(rng.choice(KEYKINDS))
    if kind == "str":
        return [f"e{i}" for i in range(K)], kind
    if kind == "int":
        return [int(x) for x in rng.permutation(K)], kind
    if kind == "npint":
        return [np.int64(x) for x in rng.permutation(K) + 3], kind
    if kind == "tuple":
        return [(i, 2 * i + 1) for i in range(K)], kind
    if kind == "float":
        return [i + 0.5 for i in range(K)], kind
    if kind == "revstr":
        return [f"z{K-i}" for i in range(K)], kind
    if kind == "pairs":
        return [f"{5*(K-i)}-{7+i}" for i in range(K)], kind
    return [i if i % 2 else f"m{i}" for i in range(K)], "mixed"


def ewma_cov(X, h, ridge=0.0):
    O = np.einsum("ti,tj->tij", X, X)
    S = ref.ewma(O, h)
    return S


def experts(rng, X, K, kind=None):
    """(K, T, n, n) positive definite predictions for the frame X"""
    T, n = X.shape
    kind = kind or str(rng.choice(["ewma", "ewma", "iewma", "wishart", "near", "identical", "dominant", "scales", "static", "mixed", "noisy"]))
    sd = X.std() if len(X) > 1 and X.std() > 0 else np.abs(X).max() + 1e-12
    base = np.eye(n) * sd**2
    out = np.empty((K, T, n, n))
    for k in range(K):
        kk = kind if kind != "mixed" else str(rng.choice(["ewma", "wishart", "static", "noisy"]))
        if kk in ("ewma", "iewma", "dominant", "scales"):
            h = float(10 ** rng.uniform(0.3, 2))
            S = ewma_cov(X, h)
            # shrink towards a multiple of the identity so that it is safely positive definite
            out[k] = 0.9 * S + 0.1 * np.einsum("tii->t", S)[:, None, None] / n * np.eye(n) + 1e-3 * base
        elif kk == "wishart":
            for t in range(T):
                out[k, t] = gen.spd(rng, n, "wishart") * sd**2 / n
        elif kk == "static":
            out[k] = gen.spd(rng, n, cond=1e3) * sd**2
        elif kk == "noisy":
            S0 = gen.spd(rng, n, "factor") * sd**2
            for t in range(T):
                out[k, t] = S0 * np.exp(0.4 * rng.normal()) + np.diag(rng.uniform(0, 1, n)) * sd**2
        elif kk in ("near", "identical"):
            if k == 0:
                h = float(10 ** rng.uniform(0.5, 1.7))
                S = ewma_cov(X, h)
                out[k] = 0.8 * S + 0.2 * np.einsum("tii->t", S)[:, None, None] / n * np.eye(n) + 1e-3 * base
            elif kk == "identical" and (k < 2 or rng.random() < 0.6):
                out[k] = out[0]
            else:
                out[k] = out[0] * (1 + 10 ** rng.uniform(-9, -2))
        if kk == "dominant" and k > 0:
            out[k] *= 50.0
        if kk == "scales":
            out[k] *= 10 ** rng.uniform(-6, 6)
    return (out + out.transpose(0, 1, 3, 2)) / 2, kind


def means(rng, X, K, kind=None):
    T, n = X.shape
    kind = kind or str(rng.choice(["ewma", "noise", "big", "equal", "zero"]))
    sd = X.std() + 1e-12
    if kind == "ewma":
        return np.stack([ref.ewma(X, float(10 ** rng.uniform(0.3, 2))) for _ in range(K)]), kind
    if kind == "noise":
        return rng.normal(size=(K, T, n)) * sd * 0.5, kind
    if kind == "big":
        return rng.normal(size=(K, 1, n)) * sd * 5 + 0.1 * sd * rng.normal(size=(K, T, n)), kind
    if kind == "equal":
        return np.repeat(rng.normal(size=(1, T, n)) * sd, K, axis=0), kind
    return np.zeros((K, T, n)), "zero"


class Setup:
    """returns frame, experts and (maybe) means in the form the public interface takes"""

    def __init__(self, rng, tier, T=None, n=None, K=None, with_means=None, plain=False, kind=None, Tmax=40, nmax=6, Kmax=5, index_kind=None, keykind=None, procs=None, scale=None, columns_kind=None):
        if rng.random() < 0.06 and not plain:
            # a larger problem now and then
            Tmax, nmax, Kmax = Tmax * 3, nmax * 2, Kmax * 2
        if T is None and n is None and K is None and Tmax >= 20 and not plain and rng.random() < 0.02:
            # a long history
            T, n, K = int(rng.integers(120, 420)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
        T = T or int(rng.integers(3, Tmax + 1))
        n = n or (1 if rng.random() < 0.12 else int(rng.integers(2, nmax + 1)))
        K = K or (1 if rng.random() < 0.1 else int(rng.integers(2, Kmax + 1)))
        df, d = gen.frame(rng, tier, T=T, n=n, kinds=procs or ["gauss", "factor", "t3", "garch", "jumps", "real0", "regime", "trend", "outlier"], plain=plain, index_kind=index_kind, scale=scale, columns_kind=columns_kind)
        self.df, self.K, self.T, self.n = df, K, T, n
        X = np.array(df.values, float)
        self.X = X
        self.keys, kk = keys(rng, K, keykind or ("str" if plain else None))
        # work in units where all assets are comparable, then scale back
        sd = X.std(axis=0)
        sd = np.where(sd > 0, sd, np.abs(X).max(axis=0) + 1e-12)
        Z = X / sd
        S, ek = experts(rng, Z, K, kind)
        S = S * np.outer(sd, sd)
        self.S = S
        wm = (rng.random() < 0.5) if with_means is None else with_means
        self.M, mk = (None, None)
        if wm:
            M, mk = means(rng, Z, K)
            self.M = M * sd
        self.cover = [list(range(T)) for _ in range(K)]
        self.desc = dict(frame=d, K=K, keys=kk, experts=ek, means=mk)
        self.meanform = str(rng.choice(["series", "array"]))

    def ragged(self, rng):
        T = self.T
        for k in range(self.K):
            r = rng.random()
            a, b = 0, T
            if r < 0.5:
                a = int(rng.integers(0, max(1, T // 3)))
            if 0.3 < r < 0.8:
                b = T - int(rng.integers(0, max(1, T // 3)))
            c = list(range(a, b))
            if r > 0.6 and len(c) > 4:
                holes = set(int(x) for x in rng.choice(c, size=max(1, len(c) // 6), replace=False))
                c = [t for t in c if t not in holes]
            self.cover[k] = c
        self.desc["ragged"] = True
        return self

    def sigmas(self, order=None):
        ix, co = self.df.index, self.df.columns
        ks = order or range(self.K)
        return {self.keys[k]: {ix[t]: pd.DataFrame(self.S[k, t].copy(), index=co, columns=co) for t in self.cover[k]} for k in ks}

    def means(self, order=None):
        if self.M is None:
            return None
        ix, co = self.df.index, self.df.columns
        ks = order or range(self.K)
        mk = (lambda v: pd.Series(v.copy(), index=co)) if self.meanform == "series" else (lambda v: v.copy())
        return {self.keys[k]: {ix[t]: mk(self.M[k, t]) for t in self.cover[k]} for k in ks}

    def build(self, comb, sigmas=None, means=0, returns=None):
        s = self.sigmas() if sigmas is None else sigmas
        m = self.means() if isinstance(means, int) else means
        r = self.df if returns is None else returns
        return comb.from_sigmas(s, r) if m is None else comb.from_sigmas(s, r, means=m)

    def ref(self, order=None):
        c = ref.CombRef(self.sigmas(order), self.df, self.means(order))
        c.gaptol = 1e-5
        return c

    def sign(self, mon, *more):
        mon.sign(self.X, self.S, self.M if self.M is not None else 0, repr(self.cover), *more)


def window(rng, N):
    """1 .. beyond the sample, or None"""
    r = rng.random()
    if r < 0.12 or N < 1:
        return None
    if r < 0.25:
        return int(rng.integers(1, 3))
    if r < 0.4:
        return N + int(rng.integers(0, 5))
    return int(rng.integers(1, N + 1))


def snapshot(res):
    """plain copies of one result (None stays None)"""
    if res is None:
        return None
    # (np.array of a pandas object may share its memory, whatever is asked for: numpy 2 with pandas 2)
    return (res.time,) + tuple(np.array(np.asarray(x), dtype=float, copy=True) for x in (res.mean, res.covariance, res.weights))


def same_weights(mon, CR, t, w, a, b, what, tol=1e-4, CR2=None):
    """two solutions of (numerically) the same problem: equal up to what their measured optimality gaps allow"""
    A, P = CR.data(t, w)
    # (the measured gaps are accurate to about K * 1e-9; solvers stop at a gap of about 1e-8)
    ga, gb = max(CR.subopt(A, P, a, 1e-9), 1e-8), max(CR.subopt(A, P, b, 1e-9), 1e-8)
    rad = CR.radius(A, P, a, ga) + CR.radius(A, P, b, gb)
    t_ = max(tol, rad)
    if t_ > 0.05:
        mon.event("flat_weights")
        return
    mon.event("weights_compared")
    mon.close(a, b, t_, what, time=t, window=w)
