"""Iterated EWMA covariances against an independent two-stage reference, at every time."""
import numpy as np
import pandas as pd

from .. import boot, gen, ref

FAMILIES = {"stream": (500, 10000), "structure": (160, 2500), "stages": (100, 1500), "large": (6, 60)}
RULE = ("A case draws a complete frame and all parameters (half-lives 0.1..3e4, warm-ups, clipping, means with own half-lives), consumes the stream and compares every covariance and volatility with "
        "the reference D R D; 'structure' checks the identity on the emitted objects alone (diagonal = volatility^2, correlation independent of the volatility half-life's scale); "
        "'stages' varies one parameter and checks that only its own stage reacts.")
NEED = {"oracle": 2000, "tuples": 3000, "stage_pairs": 100}


def prep(rng, tier, mean=None, **kw):
    p0 = (rng.random() < 0.4) if mean is None else mean
    df, d = gen.frame(rng, tier, kinds=gen.SMOOTH + ["collapse"] if p0 else gen.PROCESSES, **kw)
    p = gen.iewma_params(rng, len(df), mean=p0)
    for k in ("vola_halflife", "cov_halflife", "mu_halflife1", "mu_halflife2"):
        if k in p:
            p[k] = max(p[k], 0.1)
    if d["process"] in ("sparse", "ints", "real"):
        for k in ("vola_halflife", "cov_halflife"):
            p[k] = max(p[k], len(df) / 200, 0.5)
    return df, d, p


def run(mon, family, rng, i, tier):
    ewma = boot.load("cvx.covariance.ewma")
    if family == "large":
        df, d, p = prep(rng, tier, T=int(rng.integers(100, 500)), n=int(rng.integers(20, 50)))
    else:
        df, d, p = prep(rng, tier)
    X = np.array(df.values, dtype=float)
    mon.describe(frame=d, params=p)
    mon.sign(X, repr(p))
    if family in ("stream", "large"):
        R = ref.IewmaRef(X, **p)
        if rng.random() < 0.2 and "clip_at" not in p:
            # positional call in the documented order
            q = [p.get(k, dv) for k, dv in (("vola_halflife", 0), ("cov_halflife", 0), ("min_periods_vola", 20), ("min_periods_cov", 20), ("mean", False))]
            rest = {k: v for k, v in p.items() if k.startswith("mu_")}
            out = list(ewma.iterated_ewma(df, *q, **rest))
        else:
            if rng.random() < 0.1:
                p = {k: v for k, v in p.items() if not k.startswith("min_periods")}
                R = ref.IewmaRef(X, **p)
            out = list(ewma.iterated_ewma(df, **p))
        if not mon.check(len(out) == len(R.rows), "number of estimates", got=len(out), want=len(R.rows), params=p):
            return
        for k, r in enumerate(out):
            ref.compare_iewma(mon, r, R, k, df.columns, mean=False, params=p)
    elif family == "structure":
        out = list(ewma.iterated_ewma(df, **p))
        R = ref.IewmaRef(X, **p)
        if len(out) != len(R.rows):
            mon.fail("number of estimates", got=len(out), want=len(R.rows))
            return
        for k, r in enumerate(out):
            v = ref.arr(ref.field(r, "volatility"), index=df.columns, what="volatility")
            C = ref.arr(ref.field(r, "covariance"), index=df.columns, columns=df.columns, what="covariance")
            ok = ~(R.und[k] | np.isnan(np.diag(C)))
            d_ = np.diag(C)[ok]
            mon.close(d_, v[ok] ** 2, 1e-9 * v[ok] ** 2 + 1e-300, "diagonal = squared volatility", params=p)
            mon.close(C, C.T, ref.ctol(C, 1e-12), "symmetric")
            mon.event("tuples")
    else:
        # vary one parameter
        base = list(ewma.iterated_ewma(df, **p))
        if not base:
            mon.event("stage_empty")
            return
        by = {r.time: r for r in base}
        # covariance stage only: volatilities stay
        q = dict(p)
        q["cov_halflife"] = p["cov_halflife"] * float(rng.choice([0.5, 2, 3.3]))
        if p.get("mean"):
            q["mu_halflife2"] = p.get("mu_halflife2") or p["cov_halflife"]
            if rng.random() < 0.5:
                q["mu_halflife2"] = q["mu_halflife2"] * 2
        moved = False
        for r in ewma.iterated_ewma(df, **q):
            o = by.get(r.time)
            if not mon.check(o is not None, "the covariance half-life must not move the schedule", time=r.time):
                continue
            v = np.asarray(o.volatility, float)
            mon.close(np.asarray(r.volatility, float), v, 1e-10 * v + 1e-300, "the covariance half-life does not touch the volatilities")
            moved |= not np.allclose(np.asarray(r.covariance, float), np.asarray(o.covariance, float), rtol=1e-6, atol=0, equal_nan=True)
            mon.event("stage_pairs")
        # correlations: with clipping and means off, scaling all returns after standardisation does not matter:
        # correlation of the result equals the reference's second stage
        R = ref.IewmaRef(X, **p)
        for k in range(0, len(base), max(1, len(base) // 5)):
            if k < len(R.rows):
                ref.compare_iewma(mon, base[k], R, k, df.columns, mean=False, params=p)
