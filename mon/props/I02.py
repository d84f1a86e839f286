"""Winsorised volatility and clipping against a reference recursion."""
import numpy as np
import pandas as pd

from .. import boot, gen, ref

FAMILIES = {"volatility": (300, 6000), "onset": (200, 3000), "clip": (200, 3000), "iewma": (160, 3000), "noclip": (60, 600), "zeros": (120, 1500)}
RULE = ("A case draws a frame with outliers (jumps, spikes at, before and after the end of the warm-up, repeated, both signs, after stretches of zeros), a clipping level and a warm-up, and compares "
        "the whole volatility path / clipped frame / iterated EWMA with a reference that caps exactly the squares beyond c^2 times the previous variance from the observation after min_periods+1 on. "
        "Events count how many squares the reference capped and how many it let through.")
NEED = {"oracle": 500, "capped": 500, "passed": 500, "onset_hits": 50, "clip_values": 500, "zero_vol_pass": 20}


def _spiky(rng, tier):
    df, d = gen.frame(rng, tier, kinds=["jumps", "outlier", "t3", "garch", "gauss", "real", "regime", "collapse"], Tmin=4)
    return df, d


def _count(mon, X2, h, w, c):
    V = ref.variance(X2, h, w, c**2)
    for t in range(1, len(X2)):
        over = (X2[t] > c**2 * V[t - 1]) & (V[t - 1] > 0)
        if t > w:
            mon.event("capped", int(over.sum()))
            mon.event("zero_vol_pass", int(((V[t - 1] == 0) & (X2[t] > 0)).sum()))
        mon.event("passed", int(len(over) - over.sum()))
        if t in (w, w + 1) and over.any():
            mon.event("onset_hits")
    return V


def run(mon, family, rng, i, tier):
    ewma = boot.load("cvx.covariance.ewma")
    df, d = _spiky(rng, tier)
    h = max(gen.halflife(rng), 0.2)
    w = gen.warmup(rng, len(df))
    c = gen.cliplevel(rng, 0)
    X = np.array(df.values, dtype=float)
    if family == "onset":
        # a spike at every position around the end of the warm-up
        w = int(rng.integers(0, min(len(X), 25)))
        t = w + int(rng.integers(-2, 4))
        if 0 <= t < len(X):
            X[t] = np.sign(X[t] + 1e-300) * np.abs(X).max() * rng.uniform(5, 50)
        df = pd.DataFrame(X, index=df.index, columns=df.columns)
    if family == "zeros":
        # assets that start late or stop for a while
        for j in range(X.shape[1]):
            if rng.random() < 0.7:
                X[: int(rng.integers(0, len(X))), j] = 0
        a, b = sorted(rng.integers(0, len(X) + 1, 2))
        X[a : min(b, a + 60), rng.random(X.shape[1]) < 0.3] = 0
        df = pd.DataFrame(X, index=df.index, columns=df.columns)
        h = max(h, 1.0)
    mon.describe(frame=d, halflife=h, warmup=w, clip_at=c)
    mon.sign(X, h, w, c)
    a = max(w - 1, 0)
    if family in ("volatility", "onset", "zeros"):
        V = _count(mon, X**2, h, w, c)
        v = ewma.volatility(df, h, min_periods=w, clip_at=c)
        if a < len(X):
            g = ref.arr(v, index=df.index[a:], columns=df.columns, what="volatility")
            tol = 1e-9 * np.sqrt(V) + 1e-9 * np.sqrt(np.maximum.accumulate(V)) * 0
            # a volatility of exactly zero must come out as (numerically) zero
            # ... but squares below the smallest normal numbers are rounded to multiples of 5e-324 or to zero, and what follows depends on it
            lost = np.logical_or.accumulate((V > 0) & (V < 1e-290), axis=0)
            mon.event("underflow", int(lost.any()))
            tol[lost] = np.inf
            mon.close(g, np.sqrt(V)[a:], tol[a:] + 1e-150, "clipped volatility", halflife=h, warmup=w, clip_at=c)
    elif family == "clip":
        if rng.random() < 0.4:
            M, _ = gen.mask(rng, *X.shape)
            X = np.where(M, np.nan, X)
        if rng.random() < 0.4 and X.size:
            X[tuple(rng.integers(s) for s in X.shape)] = rng.choice([c, -c, np.inf, -np.inf, 0.0, -0.0])
        df = pd.DataFrame(X, index=df.index, columns=df.columns)
        for level in (c, None, 0 if rng.random() < 0.3 else None):
            out = ewma.clip(df, clip_at=level) if level is not None or rng.random() < 0.5 else ewma.clip(df)
            keep = ~np.isnan(X).all(axis=1)
            want = X[keep] if not level else np.minimum(np.maximum(X[keep], -level), level)
            g = ref.arr(out, index=df.index[keep], columns=df.columns, what="clip")
            mon.close(g, want, 0.0, "clip limits to [-c, c] and passes the rest exactly", clip_at=level)
            mon.event("clip_values", g.size)
    elif family == "noclip":
        V = np.sqrt(ref.ewma(X**2, h))
        for level in (None, 0):
            v = ewma.volatility(df, h, min_periods=w, clip_at=level)
            if a < len(X):
                mon.close(ref.arr(v, index=df.index[a:], columns=df.columns, what="volatility"), V[a:], 1e-9 * V[a:] + 1e-150, "volatility without clipping")
        big = 1e9
        v = ewma.volatility(df, h, min_periods=w, clip_at=big)
        if a < len(X):
            mon.close(ref.arr(v, index=df.index[a:], columns=df.columns, what="volatility"), V[a:], 1e-9 * V[a:] + 1e-150, "a level never reached changes nothing")
    else:
        p = gen.iewma_params(rng, len(X))
        p["clip_at"] = c
        for k in ("vola_halflife", "cov_halflife", "mu_halflife1", "mu_halflife2"):
            if k in p:
                p[k] = max(p[k], 0.2)
        mon.describe(params=p)
        R = ref.IewmaRef(X, **p)
        _count(mon, X**2, p["vola_halflife"], p["min_periods_vola"], c)
        out = list(ewma.iterated_ewma(df, **p))
        if not mon.check(len(out) == len(R.rows), "number of estimates", got=len(out), want=len(R.rows)):
            return
        for k, r in enumerate(out):
            ref.compare_iewma(mon, r, R, k, df.columns, "clipped stream: ", mean=False, params=p)
