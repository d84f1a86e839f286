"""Emission schedule of all streams."""
import numpy as np
import pandas as pd

from .. import boot, gen, ref

FAMILIES = {"schedule": (500, 9000), "small": (300, 3000), "nested": (120, 2000), "dead_start": (120, 2000), "basic": (150, 2000)}
RULE = ("A case draws a frame (complete, masked, or with a dead start), warm-ups from 0 to beyond the sample, clipping and mean flags, consumes the streams and checks the sequence of time stamps "
        "against the specified one, then enlarges warm-ups and checks that the remaining estimates are unchanged. The small family enumerates short histories.")
NEED = {"oracle": 500, "stamps": 5000, "empty_streams": 5, "suffix_compared": 300}


def stamps(mon, out, R, df, p):
    want = [df.index[r] for r in R.rows]
    got = [ref.field(r, "time") for r in out]
    mon.event("stamps", len(got))
    if not want:
        mon.event("empty_streams")
    mon.check(len(got) == len(want) and all(a == b for a, b in zip(got, want)), "time stamps of the stream", n_got=len(got), n_want=len(want), first_got=got[:2], first_want=want[:2], last_got=got[-1:], params=p)


def run(mon, family, rng, i, tier):
    ewma = boot.load("cvx.covariance.ewma")
    if family == "small":
        T, n = 1 + i % 6, 1 + (i // 6) % 3
        df, d = gen.frame(rng, tier, T=T, n=n, kinds=["gauss", "t3", "factor"])
    else:
        df, d = gen.frame(rng, tier, tmax=120, kinds=gen.SMOOTH + ["collapse"])
    if family in ("schedule", "nested") and i % 40 == 21:
        df, d = gen.frame(rng, tier, T=int(rng.integers(620, 1400)), n=int(rng.integers(1, 3)), kinds=gen.SMOOTH)
    T, n = df.shape
    X = np.array(df.values, dtype=float)
    if family == "dead_start" or (family in ("schedule", "basic") and rng.random() < 0.35):
        X = X.copy()
        if family == "dead_start":
            X[: int(rng.integers(0, T + 1))] = rng.choice([0.0, np.nan])
        M, mk = gen.mask(rng, T, n)
        X[M] = np.nan
        d["mask"] = mk
        df = pd.DataFrame(X, index=df.index, columns=df.columns)
    p = gen.iewma_params(rng, T)
    if family == "small":
        p["min_periods_vola"], p["min_periods_cov"] = int(rng.integers(0, T + 2)), int(rng.integers(0, T + 2))
    for k in ("vola_halflife", "cov_halflife", "mu_halflife1", "mu_halflife2"):
        if k in p:
            p[k] = max(p[k], 1.0)
    if p.get("mean"):
        # a column without any return must not depend on rounding of its mean: zeros are exact
        pass
    mon.describe(frame=d, params=p)
    mon.sign(X, repr(p), d["index"])
    if family == "basic":
        # plain streams on complete data
        Y = pd.DataFrame(np.nan_to_num(X, nan=0.5), index=df.index, columns=df.columns)
        h = p["vola_halflife"]
        for w in {0, 1, 2, int(p["min_periods_vola"]), T, T + 1}:
            a = max(w - 1, 0)
            if n > 1 and w <= T:
                # assets without data do not hold back the others
                Z = Y.copy()
                gone = [int(k) for k in rng.choice(n, size=int(rng.integers(1, n)), replace=False)]
                Z.iloc[: int(rng.integers(1, T + 1)), gone] = np.nan
                keep = [k for k in range(n) if k not in gone]
                for name, f in (("volatility", lambda D: ewma.volatility(D, h, min_periods=w)), ("mean", lambda D: ewma.center(D, h, w, True)[1])):
                    got, alone = f(Z), f(Y.iloc[:, keep])
                    mon.check(list(got.index) == list(Y.index[a:]), name + ": one estimate per time, also when some assets have no data", got=len(got), want=max(T - a, 0), warmup=w)
                    if got.shape == (len(alone), n) and len(alone):
                        mon.close(got.values[:, keep].astype(float), alone.values.astype(float), 1e-12 * np.abs(alone.values.astype(float)) + 1e-300, name + ": assets without data do not affect the others")
                    mon.event("stamps", len(got))
            for name, got in (("volatility", ewma.volatility(Y, h, min_periods=w)), ("clipped volatility", ewma.volatility(Y, h, w, 2.0)), ("mean", ewma.center(Y, h, w, True)[1])):
                mon.check(list(got.index) == list(Y.index[a:]), name + ": one estimate per time from the warm-up on", got=len(got), want=max(T - a, 0), warmup=w)
                mon.event("stamps", len(got))
            for priv in ("_ewma_mean", "_ewma_cov"):
                f = boot.optional("cvx.covariance.ewma", priv)
                if f is not None:
                    t = [t for t, _ in f(Y, halflife=h, min_periods=w)]
                    mon.check(t == list(Y.index[a:]), priv + ": one estimate per time from the warm-up on", got=len(t), want=max(T - a, 0), warmup=w)
                    mon.event("stamps", len(t))
        return
    R = ref.IewmaRef(X, **p)
    out = list(ewma.iterated_ewma(df, **p))
    stamps(mon, out, R, df, p)
    if family in ("nested", "schedule", "small"):
        # a longer covariance warm-up removes leading estimates only
        q = dict(p)
        q["min_periods_cov"] = int(p["min_periods_cov"]) + int(rng.integers(1, 8))
        R2 = ref.IewmaRef(X, **q)
        out2 = list(ewma.iterated_ewma(df, **q))
        stamps(mon, out2, R2, df, q)
        by = {r.time: r for r in out}
        for r in out2[:: max(1, len(out2) // 6)]:
            o = by.get(r.time)
            if not mon.check(o is not None, "a longer warm-up must not add estimates", time=r.time):
                continue
            v = np.asarray(o.volatility, float)
            C = np.asarray(o.covariance, float)
            mon.close(np.asarray(r.volatility, float), v, 1e-9 * np.nan_to_num(v) + 1e-300, "same volatility under a longer warm-up")
            mon.close(np.asarray(r.covariance, float), C, ref.ctol(C, 1e-7), "same covariance under a longer warm-up")
            mon.close(np.asarray(r.mean, float), np.asarray(o.mean, float), 1e-8 * (np.abs(np.asarray(o.mean, float)) + np.nan_to_num(v)) + 1e-300, "same mean under a longer warm-up")
            mon.event("suffix_compared")
    if family == "nested":
        # same for the volatility stream, without clipping
        h, w = p["vola_halflife"], int(p["min_periods_vola"])
        a, b = ewma.volatility(df.fillna(0.0), h, w), ewma.volatility(df.fillna(0.0), h, w + int(rng.integers(1, 6)))
        if len(b):
            mon.close(b.values.astype(float), a.loc[b.index].values.astype(float), 1e-12 * np.abs(a.loc[b.index].values.astype(float)) + 1e-300, "same volatilities under a longer warm-up")
            mon.event("suffix_compared")
