"""Missing returns: equal to zero returns, local to their asset, undefined only where nothing is known."""
import numpy as np
import pandas as pd

from .. import boot, gen, ref

FAMILIES = {"reference": (400, 8000), "zero_fill": (200, 3000), "local": (200, 3000), "listing": (160, 2500), "unfilled": (160, 2000)}
RULE = ("A case masks a frame (scattered, late listing, delisting, whole rows, whole columns, first row, dense, mixed) and (a) compares the stream with the reference that treats missing as zero, including the NaN "
        "pattern, (b) with the stream of the explicitly zero-filled frame, (c) restricted to a subset of assets with the stream of that subset alone, (d) checks that a listed asset has positive volatility and finite covariances. 'unfilled' switches the default handling off: complete data give the same stream, and a missing return leaves the assets without missing returns, and every asset before its first one, as in the stream of the filled frame.")
NEED = {"oracle": 2000, "tuples": 2000, "masked_cells": 5000, "undefined_entries": 200, "pairs": 1000, "late_listed": 50, "unfilled": 300}


def unfilled(mon, rng, tier, ewma):
    df, d = gen.frame(rng, tier, kinds=gen.SMOOTH, Tmin=4)
    T, n = df.shape
    if n == 1:
        df = pd.concat([df, df * -1.5], axis=1)
        df.columns = ["x", "y"]
        n = 2
    p = gen.iewma_params(rng, T, mean=bool(rng.random() < 0.25))
    for k in ("vola_halflife", "cov_halflife", "mu_halflife1", "mu_halflife2"):
        if k in p:
            p[k] = max(p[k], 1.0, T / 150)
    X = np.array(df.values, float)
    M = np.zeros((T, n), bool)
    if rng.random() < 0.75:
        M, mk = gen.mask(rng, T, n)
        M[:, rng.permutation(n)[: int(rng.integers(1, n))]] = False
    X[M] = np.nan
    df = pd.DataFrame(X, index=df.index, columns=df.columns)
    mon.describe(frame=d, missing=int(M.sum()), params=p)
    mon.sign(X, repr(p))
    want = list(ewma.iterated_ewma(df, **p))
    out = list(ewma.iterated_ewma(df, nan_to_num=False, **p))
    if not mon.check([r.time for r in out] == [r.time for r in want], "unfilled: same times", got=len(out), want=len(want), params=p):
        return
    gone = np.logical_or.accumulate(M, axis=0)
    pos = {t: k for k, t in enumerate(df.index)}
    for r, o in zip(out, want):
        keep = np.flatnonzero(~gone[pos[r.time]])
        v, C, mu = np.asarray(o.volatility, float), np.asarray(o.covariance, float), np.asarray(o.mean, float)
        mon.close(np.asarray(r.volatility, float)[keep], v[keep], 1e-12 * v[keep] + 1e-300, "unfilled: volatility of assets without missing returns so far", time=r.time)
        mon.close(np.asarray(r.covariance, float)[np.ix_(keep, keep)], C[np.ix_(keep, keep)], ref.ctol(C, 1e-10)[np.ix_(keep, keep)], "unfilled: covariance of assets without missing returns so far", time=r.time)
        mon.close(np.asarray(r.mean, float)[keep], mu[keep], (1e-10 * np.abs(mu) + 1e-12 * np.nan_to_num(v) + 1e-300)[keep], "unfilled: mean of assets without missing returns so far", time=r.time)
        mon.event("unfilled", len(keep))


def run(mon, family, rng, i, tier):
    ewma = boot.load("cvx.covariance.ewma")
    if family == "unfilled":
        return unfilled(mon, rng, tier, ewma)
    mean = family in ("reference", "zero_fill") and rng.random() < 0.3
    df, d = gen.frame(rng, tier, kinds=gen.SMOOTH + ["collapse"], Tmin=2)
    T, n = df.shape
    X = np.array(df.values, dtype=float)
    M, mk = gen.mask(rng, T, n, "late" if family == "listing" else None)
    X[M] = np.nan
    df = pd.DataFrame(X, index=df.index, columns=df.columns)
    if rng.random() < 0.3:
        df, lay = gen.layout(rng, df)
    p = gen.iewma_params(rng, T, mean=mean)
    for k in ("vola_halflife", "cov_halflife", "mu_halflife1", "mu_halflife2"):
        if k in p:
            p[k] = max(p[k], 1.0, T / 150)
    mon.describe(frame=d, mask=mk, missing=int(M.sum()), params=p)
    mon.sign(X, repr(p))
    mon.event("masked_cells", int(M.sum()))
    if rng.random() < 0.2:
        p["nan_to_num"] = True
    q = {k: v for k, v in p.items() if k != "nan_to_num"}
    out = list(ewma.iterated_ewma(df, **p))
    R = ref.IewmaRef(X, **q)
    if not mon.check(len(out) == len(R.rows), "number of estimates", got=len(out), want=len(R.rows), params=p, mask=mk):
        return
    if family in ("reference", "listing"):
        for k, r in enumerate(out):
            if r.time != df.index[R.rows[k]]:
                mon.fail("time stamp", got=r.time, want=df.index[R.rows[k]])
                continue
            ref.compare_iewma(mon, r, R, k, df.columns, "masked: ", params=p)
            mon.event("undefined_entries", int(np.isnan(R.at(k)[2]).sum()))
    if family == "listing":
        a = max(int(p["min_periods_vola"]) - 1, 0)
        alive = np.zeros(n, bool)
        seen = np.logical_or.accumulate(np.nan_to_num(X) != 0, axis=0)
        for k, r in enumerate(out):
            row = R.rows[k]
            alive = (np.nan_to_num(X[a : row + 1]) != 0).any(axis=0)
            v = np.asarray(r.volatility, float)
            C = np.asarray(r.covariance, float)
            mon.check((v[seen[row]] > 0).all(), "positive volatility after the first return", time=row, v=v)
            mon.check(np.isfinite(C[np.ix_(alive, alive)]).all(), "finite covariances between assets that have returned", time=row, clip=p.get("clip_at"))
            dead = ~seen[row]
            mon.check(np.isnan(C[dead]).all() and np.isnan(C[:, dead]).all() and (np.nan_to_num(v[dead]) == 0).all(), "undefined before the first return", time=row)
            mon.event("late_listed", int((alive & M[0]).sum()))
    if family == "zero_fill":
        out0 = list(ewma.iterated_ewma(df.fillna(0.0), **p))
        mon.check(len(out0) == len(out), "zero-filled frame: number of estimates")
        for r, o in zip(out, out0):
            mon.check(r.time == o.time, "zero-filled frame: time stamps")
            v, C = np.asarray(o.volatility, float), np.asarray(o.covariance, float)
            mon.close(np.asarray(r.volatility, float), v, 1e-12 * v + 1e-300, "zero-filled frame: volatility")
            mon.close(np.asarray(r.covariance, float), C, ref.ctol(C, 1e-10), "zero-filled frame: covariance")
            mu = np.asarray(o.mean, float)
            mon.close(np.asarray(r.mean, float), mu, 1e-10 * np.abs(mu) + 1e-12 * np.nan_to_num(v) + 1e-300, "zero-filled frame: mean")
            mon.event("pairs")
    if family == "local" and n > 1:
        keep = np.sort(rng.permutation(n)[: int(rng.integers(1, n))])
        sub = df.iloc[:, keep]
        by = {r.time: r for r in ewma.iterated_ewma(sub, **p)}
        common = 0
        for r in out:
            o = by.get(r.time)
            if o is None:
                continue
            v, C = np.asarray(o.volatility, float), np.asarray(o.covariance, float)
            mon.close(np.asarray(r.volatility, float)[keep], v, 1e-10 * v + 1e-300, "volatility with and without the other assets", params=p)
            mon.close(np.asarray(r.covariance, float)[np.ix_(keep, keep)], C, ref.ctol(C, 1e-8), "covariance with and without the other assets", params=p)
            mon.event("pairs")
            common += 1
        # the subset's stream may only lack leading times (its assets come alive later)
        t = [r.time for r in out]
        mon.check(list(by) == t[len(t) - len(by) :], "a subset emits a suffix of the times")
