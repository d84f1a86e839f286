"""Predicted means and centering against the reference."""
import numpy as np

from .. import boot, gen, ref
from .I04 import prep

FAMILIES = {"mean": (500, 9000), "zero": (160, 2000), "center": (160, 2000), "defaults": (100, 1200)}
RULE = ("A case draws a complete frame with means small or large relative to volatility and mean half-lives (own or default); every predicted mean in the stream is compared with the two-stage "
        "reference (or with zero when means are off), and centering with return minus EWMA mean.")
NEED = {"oracle": 1500, "tuples": 3000, "zero_means": 1000, "centered": 1000, "default_pairs": 200}


def run(mon, family, rng, i, tier):
    ewma = boot.load("cvx.covariance.ewma")
    df, d, p = prep(rng, tier, mean=family != "zero")
    if family in ("mean", "defaults") and rng.random() < 0.5:
        X = np.array(df.values, dtype=float)
        df = df + rng.normal(size=X.shape[1]) * X.std() * 10 ** rng.uniform(-1, 1.5)
        d["shifted"] = True
    X = np.array(df.values, dtype=float)
    mon.describe(frame=d, params=p)
    mon.sign(X, repr(p))
    if family == "mean":
        R = ref.IewmaRef(X, **p)
        out = list(ewma.iterated_ewma(df, **p))
        if not mon.check(len(out) == len(R.rows), "number of estimates", got=len(out), want=len(R.rows), params=p):
            return
        for k, r in enumerate(out):
            ref.compare_iewma(mon, r, R, k, df.columns, params=p)
    elif family == "zero":
        for r in ewma.iterated_ewma(df, **p):
            m = ref.arr(ref.field(r, "mean"), index=df.columns, what="mean")
            mon.close(m, np.zeros(len(m)), 0.0, "mean is zero when means are off")
            mon.event("zero_means")
            mon.event("tuples")
        c, m = ewma.center(df, p["vola_halflife"], mean_adj=False) if rng.random() < 0.5 else ewma.center(df, p["vola_halflife"])
        mon.close(ref.arr(c, index=df.index, columns=df.columns, what="centered"), X, 0.0, "returns are uncentered when means are off")
        mon.close(np.broadcast_to(np.asarray(m, float), X.shape), np.zeros_like(X), 0.0, "the mean is zero when means are off")
        mon.event("centered", len(X))
    elif family == "center":
        h, w = p.get("mu_halflife1") or p["vola_halflife"], int(p["min_periods_vola"])
        a = max(w - 1, 0)
        c, m = ewma.center(df, h, w, True)
        W = ref.ewma(X, h)
        tol = 1e-9 * ref.ewma(np.abs(X), h) + 1e-11 * np.abs(X)
        if a < len(X):
            mon.close(ref.arr(m, index=df.index[a:], columns=df.columns, what="mean"), W[a:], tol[a:], "EWMA mean")
            mon.close(ref.arr(c, index=df.index[a:], columns=df.columns, what="centered"), (X - W)[a:], 2 * tol[a:], "return minus the mean that includes it")
            mon.event("centered", len(X) - a)
        mon.event("tuples")
    else:
        # default mean half-lives are the volatility and covariance half-lives
        q = {k: v for k, v in p.items() if not k.startswith("mu_")}
        e = dict(q, mu_halflife1=q["vola_halflife"], mu_halflife2=q["cov_halflife"])
        a, b = list(ewma.iterated_ewma(df, **q)), list(ewma.iterated_ewma(df, **e))
        mon.check(len(a) == len(b), "default mean half-lives: same number of estimates")
        R = ref.IewmaRef(X, **q)
        for k, (x, y) in enumerate(zip(a, b)):
            if k < len(R.rows):
                ref.compare_iewma(mon, x, R, k, df.columns, "default half-lives: ", params=q)
                ref.compare_iewma(mon, y, R, k, df.columns, "explicit half-lives: ", params=e)
            mon.event("default_pairs")
