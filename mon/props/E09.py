"""Vectorised iterated EWMA against the streaming one (and both against the reference)."""
import numpy as np
import pandas as pd

from .. import boot, gen, ref

PRELOAD = ["cvx.covariance.ewma", "experiments.utils.iterated_ewma_vec"]
FAMILIES = {"plain": (160, 2500), "clip": (160, 2500), "mean": (100, 1500), "lowrank": (100, 1500), "long": (4, 60)}
RULE = ("A case draws complete data without zero returns, half-life pairs, warm-ups (positive; at least two with means) shorter than the sample, clipping levels and the mean flag; times, covariances and means of the vectorised version are compared with the streaming version "
        "of the package and the reference; with a rank, with the leading eigen-components of the streaming correlation plus a diagonal.")
NEED = {"oracle": 3000, "matrices": 3000, "means": 500, "lowrank": 300, "caps": 100}


def run(mon, family, rng, i, tier):
    ve = boot.load("experiments.utils.iterated_ewma_vec")
    ew = boot.load("cvx.covariance.ewma")
    T = int(rng.integers(8, 80)) if family != "long" else int(rng.integers(500, 1200))
    df, d = gen.frame(rng, tier, T=T, n=int(rng.integers(2, 8)) if family == "lowrank" else None, kinds=gen.SMOOTH)
    X = np.array(df.values, float)
    T, n = X.shape
    mean = family == "mean" or family in ("clip", "long") and rng.random() < 0.3
    lo = 2 if mean else 1
    a = int(rng.integers(lo, max(lo + 1, T // 2)))
    b = int(rng.integers(lo, max(lo + 1, T - a - 1)))
    p = dict(vola_halflife=max(gen.halflife(rng), 0.7), cov_halflife=max(gen.halflife(rng), 0.7), min_periods_vola=a, min_periods_cov=b)
    if family == "clip" or family == "long" and rng.random() < 0.5 or family == "lowrank" and rng.random() < 0.3:
        p["clip_at"] = gen.cliplevel(rng, 0)
        if mean:
            p["clip_at"] = max(p["clip_at"], 1.2)
    if mean:
        p["mean"] = True
    if rng.random() < 0.2:
        # the defaults
        if T > 45:
            p.pop("min_periods_vola"), p.pop("min_periods_cov")
    r = int(rng.integers(1, n + 1)) if family == "lowrank" else None
    mon.describe(frame=d, params=p, rank=r)
    mon.sign(X, repr(p), r)
    if (X == 0).any():
        mon.event("zero_returns")
        return
    R = ref.IewmaRef(X, **p)
    got = ve.iterated_ewma(df, **p, **(dict(low_rank=r) if r else {}))
    mus = None
    if mean:
        mus, got = ref.field(got, "mean"), ref.field(got, "covariance")
    stream = list(ew.iterated_ewma(df, **p))
    times = [x.time for x in stream]
    if not mon.check(list(got.keys()) == times, "same times as the streaming version", got=len(got), want=len(times), params=p):
        return
    if mean:
        mon.check(list(mus.keys()) == times, "times of the means")
    for k, x in enumerate(stream):
        if T > 300 and k % 11:
            continue
        row, m0, C0, v = R.at(k)
        if R.und[k].any():
            mon.event("undecided")
            continue
        C = ref.arr(got[x.time], index=df.columns, columns=df.columns, what="covariance")
        mon.event("matrices")
        mon.event("caps", int(bool(p.get("clip_at"))))
        S = np.asarray(x.covariance, float)
        if r:
            s = np.sqrt(np.diag(S))
            w, Q = np.linalg.eigh(S / np.outer(s, s))
            mon.close(np.diag(C), np.diag(S), 1e-8 * np.diag(S), "variances are kept", t=row, rank=r)
            if r < n and w[n - r] - w[n - r - 1] < 1e-5:
                mon.event("no_gap")
                continue
            L = (Q[:, n - r :] * w[n - r :]) @ Q[:, n - r :].T
            want = (L + np.diag(1 - np.diag(L))) * np.outer(s, s)
            gap = 1.0 if r == n else w[n - r] - w[n - r - 1]
            mon.close(C, want, ref.ctol(S, 1e-7 + 1e-12 / gap), "leading eigen-components plus a diagonal", t=row, rank=r)
            mon.event("lowrank")
            continue
        mon.close(C, S, ref.ctol(S, 1e-7), "covariance agrees with the streaming version", t=row, params=p)
        mon.close(C, C0, ref.ctol(C0, 1e-6), "covariance agrees with the reference", t=row, params=p)
        if mean:
            m = ref.arr(mus[x.time], index=df.columns, what="mean")
            tol = 1e-7 * (np.abs(R.M[row]) + R.V[row] * (1 + np.abs(R.Arow[k])))
            mon.close(m, np.asarray(x.mean, float), tol, "mean agrees with the streaming version", t=row, params=p)
            mon.event("means")
