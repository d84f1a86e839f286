"""Causality: pairs of runs on histories that agree up to t."""
import numpy as np
import pandas as pd

from .. import boot, comb, gen, ref

PRELOAD = ["cvx.covariance.ewma", "cvx.covariance.combination", "experiments.utils.low_rank_ewma"]
FAMILIES = {"iewma": (320, 6000), "lowrank": (80, 1200), "ewmas": (70, 1000), "sigmas": (120, 1800), "reacts": (120, 1500)}
RULE = ("A case draws a history and a split time t, builds a second history that agrees up to t and differs afterwards (truncated, extended, outliers, NaN, sign flips, other data), runs both through the same "
        "function and compares every prediction stamped <= t; 'reacts' changes only the return at t and requires the estimate stamped t to move.")
NEED = {"oracle": 2000, "prefix_tuples": 2000, "blend_prefix": 300, "reactions": 60, "lowrank_prefix": 200}
MODS = ["truncate", "extend", "outlier", "nan", "flip", "fresh", "zero", "one"]


def modify(rng, df, t, kind, nan_ok=True):
    """another history with the same rows 0..t"""
    X = np.array(df.values, dtype=float)
    T, n = X.shape
    if kind == "truncate":
        return df.iloc[: t + 1]
    if kind == "nan" and not nan_ok:
        kind = "fresh"
    sd = X.std() + 1e-9
    if kind == "extend":
        return None
    if kind == "outlier":
        X[t + 1 :] *= rng.choice([1, 100.0], size=(T - t - 1, n))
    elif kind == "nan":
        X[t + 1 :][rng.random((T - t - 1, n)) < 0.5] = np.nan
    elif kind == "flip":
        X[t + 1 :] *= -1
    elif kind == "fresh":
        X[t + 1 :] = rng.normal(size=(T - t - 1, n)) * sd * 10 ** rng.uniform(-1, 1)
    elif kind == "zero":
        X[t + 1 :] = 0.0
    elif kind == "one" and t + 1 < T:
        X[t + 1, int(rng.integers(n))] += sd * 5
    return pd.DataFrame(X, index=df.index, columns=df.columns)


def compare(mon, a, b, upto, what, event):
    """streams a, b: same predictions at times up to `upto` (a set of labels)"""
    A = [r for r in a if r.time in upto]
    B = [r for r in b if r.time in upto]
    mon.check([r.time for r in A] == [r.time for r in B], what + ": times up to the split", got=len(A), want=len(B))
    for x, y in zip(A, B):
        v, C, m = np.asarray(x.volatility, float), np.asarray(x.covariance, float), np.asarray(x.mean, float)
        mon.close(np.asarray(y.volatility, float), v, 1e-9 * v + 1e-300, what + ": volatility of the past")
        mon.close(np.asarray(y.covariance, float), C, ref.ctol(C, 1e-8), what + ": covariance of the past", time=x.time)
        mon.close(np.asarray(y.mean, float), m, 1e-9 * np.abs(m) + 1e-9 * np.nan_to_num(v) + 1e-300, what + ": mean of the past")
        mon.event(event)


def run(mon, family, rng, i, tier):
    ewma = boot.load("cvx.covariance.ewma")
    co = boot.load("cvx.covariance.combination")
    kind = str(rng.choice(MODS))
    if family in ("iewma", "lowrank", "reacts"):
        df, d = gen.frame(rng, tier, kinds=gen.SMOOTH if family == "lowrank" else gen.SMOOTH + ["collapse"], Tmin=5 if family != "lowrank" else 12, n=None if family != "lowrank" else int(rng.integers(3, 8)), tmax=100)
        T, n = df.shape
        p = gen.iewma_params(rng, T)
        for k in ("vola_halflife", "cov_halflife", "mu_halflife1", "mu_halflife2"):
            if k in p:
                p[k] = max(p[k], 0.5)
        p["min_periods_vola"] = min(p["min_periods_vola"], T // 2)
        if p.get("mean"):
            p["min_periods_cov"], p["min_periods_vola"] = max(2, p["min_periods_cov"]), max(2, p["min_periods_vola"])
        t = int(rng.integers(0, T))
        gaps = rng.random() if family == "iewma" else 1.0
        if gaps < 0.45:
            X = np.array(df.values, float)
            if gaps < 0.25:
                M, _ = gen.mask(rng, T, n)
            else:  # a few missing values, the split at one of them
                M = np.zeros((T, n), bool)
                for _ in range(int(rng.integers(1, 4))):
                    t = int(rng.integers(0, T))
                    M[t, int(rng.integers(n))] = True
            X[M] = np.nan
            df = pd.DataFrame(X, index=df.index, columns=df.columns)
        other = modify(rng, df, t, kind, nan_ok=family != "lowrank")
        if other is None:  # extension: the original is the prefix of a longer sample
            df, other = df.iloc[: max(t + 1, 1)], df
            t = len(df) - 1
        mon.describe(frame=d, params=p, split=t, change=kind)
        mon.sign(np.array(df.values, float), repr(p), t, kind)
        upto = set(df.index[: t + 1])
        if family == "iewma":
            compare(mon, list(ewma.iterated_ewma(df, **p)), list(ewma.iterated_ewma(other, **p)), upto, "iterated EWMA", "prefix_tuples")
        elif family == "lowrank":
            f = boot.load("experiments.utils.low_rank_ewma").low_rank_iterated_ewma
            r = int(rng.integers(1, n))
            p["min_periods_vola"] = min(p["min_periods_vola"], t)
            p.pop("clip_at", None) if p.get("mean") else None
            if kind == "zero":
                other = other.iloc[: t + 1]
            A, B = [list(f(x, rank=r, **p)) for x in (df, other)]
            A, B = [[q for q in Z if q.time in upto] for Z in (A, B)]
            mon.check([q.time for q in A] == [q.time for q in B], "low-rank EWMA: times up to the split")
            for x, y in zip(A, B):
                Cx, Cy = [np.asarray(q.covariance.F, float) @ np.asarray(q.covariance.F, float).T + np.diag(np.asarray(q.covariance.d, float)) for q in (x, y)]
                # the iterative eigensolver starts from a random vector
                mon.close(Cy, Cx, ref.ctol(Cx, 1e-5), "low-rank EWMA: covariance of the past", time=x.time)
                mon.event("lowrank_prefix")
        else:
            # the estimate stamped t reacts to the return at t
            R = ref.IewmaRef(np.array(df.values, float), **p)
            if not R.rows:
                return
            k = int(rng.integers(len(R.rows)))
            t = R.rows[k]
            X = np.array(df.values, float)
            X[t] = X[t] * 1.5 + 0.5 * (X.std() + 1e-9)
            other = pd.DataFrame(X, index=df.index, columns=df.columns)
            if p.get("mean") and t == 0:
                return
            a, b = list(ewma.iterated_ewma(df, **p)), list(ewma.iterated_ewma(other, **p))
            if not mon.check(len(a) == len(b) == len(R.rows), "number of estimates"):
                return
            R2 = ref.IewmaRef(X, **p)
            if np.allclose(R2.V[t], R.V[t], rtol=1e-7, atol=0):
                return  # the reference does not move either (clipped before and after)
            va, vb = np.asarray(a[k].volatility, float), np.asarray(b[k].volatility, float)
            mon.check(not np.allclose(va, vb, rtol=1e-9, atol=0), "the newest return enters the estimate stamped with its time", time=df.index[t], params=p)
            mon.close(vb, R2.V[t], 1e-7 * R2.V[t] + 1e-300, "the newest return enters the volatility with its weight")
            mon.event("reactions")
        return
    if family == "ewmas":
        n = int(rng.integers(1, 4))
        df, d = gen.frame(rng, tier, T=int(rng.integers(22, 45)), n=n, kinds=gen.SMOOTH)
        T = len(df)
        pairs = [(float(rng.uniform(3, 30)), float(rng.uniform(5 + 2 * n, 60))) for _ in range(int(rng.integers(1, 4)))]
        w = int(rng.integers(1, 6))
        kw = dict(min_periods_vola=3, min_periods_cov=2 * n + 1, mean=bool(rng.random() < 0.3))
        if not kw["mean"]:
            kw["clip_at"] = float(rng.uniform(2, 8)) if rng.random() < 0.55 else None  # lower levels make the experts singular
        t = int(rng.integers(3 + 2 * n + w + 2, T))
        other = modify(rng, df, t, kind, nan_ok=False)
        if other is None:
            df, other = df.iloc[: t + 1], df
        if kind == "zero":
            other = other.iloc[: t + 1]
        mon.describe(frame=d, pairs=pairs, window=w, split=t, change=kind, options=kw)
        mon.sign(np.array(df.values, float), repr(pairs), t, kind, w)
        A, B = [co.from_ewmas(x, pairs, **kw) for x in (df, other)]
        CR = ref.CombRef(A.sigmas, df, A.means)
    else:
        S = comb.Setup(rng, tier, Tmax=30)
        df, T = S.df, S.T
        w = int(rng.integers(1, max(2, T // 2)))
        t = int(rng.integers(min(w + 1, T - 1), T))
        other = modify(rng, df, t, kind if kind != "nan" else "fresh")
        s0, m0 = S.sigmas(), S.means()
        ix = df.index
        if other is None or kind == "truncate":
            kind = "truncate"
            other = df.iloc[: t + 1]
            s1 = {k: {u: v for u, v in x.items() if u in set(ix[: t + 1])} for k, x in s0.items()}
            m1 = None if m0 is None else {k: {u: v for u, v in x.items() if u in set(ix[: t + 1])} for k, x in m0.items()}
        else:
            # later expert predictions change as well
            f = lambda j: 10 ** rng.uniform(-1, 1) if j > t else 1.0
            s1 = {k: {u: v * f(list(ix).index(u)) for u, v in x.items()} for k, x in s0.items()}
            m1 = m0
        mon.describe(**S.desc, window=w, split=t, change=kind)
        S.sign(mon, t, kind, w)
        A, B = S.build(co, s0, m0), S.build(co, s1, m1, returns=other)
        if t < w:
            return
        CR = S.ref()
    upto = set(df.index[: t + 1])
    if min(len(df), len(other)) - 1 < w:
        return
    ra = [r for r in A.solve(window=w) if r is not None and r.time in upto]
    rb = [r for r in B.solve(window=w) if r is not None and r.time in upto]
    if CR.N < w or len(rb) == 0 and len(ra) == 0:
        return
    mon.check([r.time for r in ra] == [r.time for r in rb], "blend: times up to the split", got=len(rb), want=len(ra))
    for x, y in zip(ra, rb):
        a, b = np.asarray(x.weights, float), np.asarray(y.weights, float)
        comb.same_weights(mon, CR, x.time, w, a, b, "blend: weights of the past")
        C = np.asarray(x.covariance, float)
        if np.abs(a - b).max() < 1e-9:
            mon.close(np.asarray(y.covariance, float), C, ref.ctol(C, 1e-5), "blend: covariance of the past")
            sd = np.sqrt(np.diag(C))
            m = np.asarray(x.mean, float)
            mon.close(np.asarray(y.mean, float), m, 1e-5 * (sd + np.abs(m).max()), "blend: mean of the past")
        ref.check_result(mon, CR, y, y.time, w, "blend with another future: ")
        mon.event("blend_prefix")
