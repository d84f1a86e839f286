"""Invariants of every emitted covariance: finite, symmetric, positive (semi)definite, labelled, correlations in [-1, 1]."""
import numpy as np
import pandas as pd

from .. import boot, comb, gen, ref

PRELOAD = ["cvx.covariance.ewma", "cvx.covariance.combination", "cvx.covariance.regularization", "experiments.utils.experiment_utils", "experiments.utils.low_rank_ewma"]
FAMILIES = {"iewma": (260, 5000), "blend": (160, 2500), "ewmas": (60, 900), "lowrank": (160, 2500), "rolling": (120, 1500), "lriewma": (80, 1000), "long": (4, 60)}
RULE = ("A case draws complete data (fat tails, near-collinear assets, T < n, scales over many orders of magnitude, long runs) and passes every covariance emitted by iterated EWMA, blending, "
        "low-rank regularisation, EM, rolling window and low-rank iterated EWMA through the invariant monitor (finite, symmetric, eigenvalues of the scaled matrix >= -1e-9 n, labels, |corr| <= 1).")
NEED = {"oracle": 3000, "matrices": 3000, "blended": 500, "factors": 300, "rank_deficient": 100}


def monitor(mon, C, labels, what, definite=False, cond=None):
    V = ref.arr(C, index=labels, columns=labels, what=what)
    mon.event("matrices")
    if not mon.check(np.isfinite(V).all(), what + ": finite", n=len(V)):
        return
    d = np.diag(V)
    if not mon.check((d >= 0).all(), what + ": nonnegative variances", d=d):
        return
    s = np.sqrt(np.where(d > 0, d, 1))
    R = V / np.outer(s, s)
    a = np.abs(R - R.T).max()
    mon.peak("asymmetry", a)
    mon.check(a <= 1e-9, what + ": symmetric", asymmetry=a)
    off = np.abs(R - np.diag(np.diag(R))).max() if len(R) > 1 else 0
    mon.check(off <= 1 + 1e-8, what + ": correlations within [-1, 1]", max=off)
    ev = np.linalg.eigvalsh((R + R.T) / 2)
    mon.peak("-min eigenvalue", -ev[0])
    if definite:
        mon.check(ev[0] > 0, what + ": positive definite", eig=ev[:3])
    else:
        mon.check(ev[0] >= -1e-9 * len(R), what + ": positive semidefinite", eig=ev[:3])
    if ev[0] < 1e-10:
        mon.event("rank_deficient")


def run(mon, family, rng, i, tier):
    ewma = boot.load("cvx.covariance.ewma")
    co = boot.load("cvx.covariance.combination")
    if family in ("iewma", "long", "lriewma"):
        mean = rng.random() < 0.3
        kinds = [k for k in gen.PROCESSES if k not in ("ints", "sparse", "real", "alternating")] + ["real0"]
        if family == "long":
            df, d = gen.frame(rng, tier, T=int(rng.integers(1000, 2500)), n=int(rng.integers(2, 12)), kinds=kinds)
        elif rng.random() < 0.3:
            df, d = gen.frame(rng, tier, T=int(rng.integers(3, 12)), n=int(rng.integers(5, 25)), kinds=kinds)
        else:
            df, d = gen.frame(rng, tier, kinds=kinds)
        p = gen.iewma_params(rng, len(df), mean=mean)
        for k in ("vola_halflife", "cov_halflife", "mu_halflife1", "mu_halflife2"):
            if k in p:
                p[k] = max(p[k], 0.5)
        if mean:
            p["min_periods_vola"], p["min_periods_cov"] = max(2, p["min_periods_vola"]), max(2, p["min_periods_cov"])
        if mean and p.get("clip_at"):
            p["clip_at"] = None  # runs of equal clipped returns have no residual
        mon.describe(frame=d, params=p)
        mon.sign(df.values, repr(p))
        if family == "lriewma":
            n = df.shape[1]
            if n < 3:
                df = pd.concat([df.add_prefix("a") if not isinstance(df.columns, pd.MultiIndex) else df], axis=1)
                df, d = gen.frame(rng, tier, n=int(rng.integers(3, 8)), Tmin=8, kinds=kinds)
                n = df.shape[1]
            f = boot.load("experiments.utils.low_rank_ewma").low_rank_iterated_ewma
            if max(p["min_periods_vola"] - 1, 0) >= len(df):
                p["min_periods_vola"] = 2
            r = int(rng.integers(1, n))
            for item in f(df, p["vola_halflife"], p["cov_halflife"], r, p["min_periods_vola"], p["min_periods_cov"], mean=mean):
                F, dd = ref.arr(item.covariance.F, what="F"), ref.arr(item.covariance.d, index=df.columns, what="d")
                mon.check(F.shape == (n, r), "factor shape", got=F.shape)
                mon.check((dd >= 0).all(), "nonnegative diagonal part")
                monitor(mon, pd.DataFrame(F @ F.T + np.diag(dd), index=item.covariance.F.index, columns=item.covariance.F.index), df.columns, "low-rank iterated EWMA")
                mon.event("factors")
            return
        out = list(ewma.iterated_ewma(df, **p))
        for r in out[:: max(1, len(out) // 60)]:
            monitor(mon, ref.field(r, "covariance"), df.columns, "iterated EWMA")
    elif family == "blend":
        S = comb.Setup(rng, tier)
        mon.describe(**S.desc)
        S.sign(mon)
        w = comb.window(rng, S.T - 1)
        for r in S.build(co).solve(window=w):
            if r is not None:
                monitor(mon, r.covariance, S.df.columns, "blended predictor", definite=True)
                mon.event("blended")
    elif family == "ewmas":
        n = int(rng.integers(1, 5))
        df, d = gen.frame(rng, tier, T=int(rng.integers(20, 60)), n=n, kinds=gen.SMOOTH)
        pairs = [(gen.halflife(rng) + 2, gen.halflife(rng) + 2 * n + 3) for _ in range(int(rng.integers(1, 4)))]
        mp_ = int(rng.integers(2, 5)) + n
        mon.describe(frame=d, pairs=pairs)
        mon.sign(df.values, repr(pairs))
        c = co.from_ewmas(df, pairs, min_periods_vola=mp_, min_periods_cov=max(mp_, 2 * n + 1), clip_at=float(rng.uniform(2, 8)) if rng.random() < 0.5 else None, mean=bool(rng.random() < 0.3))
        for s in c.sigmas.values():
            for C in list(s.values())[::7]:
                monitor(mon, C, df.columns, "expert")
        for r in c.solve(window=int(rng.integers(1, 10))):
            if r is not None:
                monitor(mon, r.covariance, df.columns, "blended iterated EWMAs", definite=True)
                mon.event("blended")
    elif family == "lowrank":
        reg = boot.load("cvx.covariance.regularization")
        n, T = int(rng.integers(1, 20)), int(rng.integers(1, 4))
        labels, ck = gen.columns(rng, n)
        sig = {t: pd.DataFrame((gen.gram(rng, n) if rng.random() < 0.4 else gen.spd(rng, n)) * 10 ** rng.uniform(-8, 4), index=labels, columns=labels) for t in range(T)}
        mon.describe(n=n, times=T, columns=ck)
        mon.sign(*[s.values for s in sig.values()])
        for r in {1, n, int(rng.integers(1, n + 1))}:
            for t, C in reg.regularize_covariance(sig, r):
                monitor(mon, C, labels, "low rank plus diagonal")
            fac = dict(reg.regularize_covariance(sig, r, low_rank_format=True))
            for t, lr in fac.items():
                F, dd = ref.arr(lr.F, what="F"), ref.arr(lr.d, index=labels, what="d")
                sc = np.diag(sig[t].values)
                mon.check((dd >= -1e-9 * sc).all(), "nonnegative diagonal part", d=dd / sc)
                mon.check(F.shape == (n, r) and list(lr.F.index) == list(labels), "factor shape and labels", got=F.shape)
                monitor(mon, pd.DataFrame(F @ F.T + np.diag(dd), index=labels, columns=labels), labels, "factor form")
                mon.event("factors")
    elif family == "rolling":
        eu = boot.load("experiments.utils.experiment_utils")
        kinds = [k for k in gen.PROCESSES if k not in ("ints", "sparse")]
        df, d = gen.frame(rng, tier, kinds=kinds)
        mem, mp_ = int(rng.integers(1, len(df) + 3)), int(rng.integers(0, 12))
        mon.describe(frame=d, memory=mem)
        mon.sign(df.values, mem)
        # the recursion's rounding is relative to the largest return seen: outliers leave a trace of that size
        X = np.abs(np.asarray(df.values, float))
        if X.max() > 1e3 * np.sqrt((X**2).mean(axis=0)).min():
            mon.event("skipped_scale")
            return
        for t, C in eu.rolling_window(df, mem, mp_).items():
            if mem >= 3 * df.shape[1] or mem >= len(df):
                monitor(mon, C, df.columns, "rolling window")
