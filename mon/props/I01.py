"""EWMA mean, volatility and covariance against explicit normalised weighted averages."""
import numpy as np

from .. import boot, gen, ref

FAMILIES = {"volatility": (260, 5000), "center": (180, 3000), "streams": (200, 3500), "iewma": (80, 1200), "long": (10, 120), "labels": (64, 400)}
RULE = ("A case draws a return frame (15 processes, 16 index types, 11 column label types, 5 memory layouts), a half-life and a warm-up, and compares every "
        "emitted value with the weighted average of all observations so far (running sums and, at sampled times, explicit weights). Non-trivial: at least one value was compared.")
NEED = {"oracle": 500, "values": 5000, "explicit": 100, "firstobs": 20}


def etol(X, h, rel=1e-9):
    """error allowance: relative to the average of the magnitudes, plus the cancellation of the last steps"""
    b = 0.5 ** (1.0 / float(h))
    A = ref.ewma(np.abs(X), h)
    E = np.zeros_like(A)
    e = np.zeros(A.shape[1:])
    for t in range(len(A)):
        e = b * e + 1e-13 * (A[t - 1] if t else 0) + 1e-13 * np.abs(X[t])
        E[t] = e
    return rel * A + E


def _compare(mon, got, X, h, warm, rng, what, index, columns):
    """got: frame of EWMAs of X's rows"""
    a = max(int(warm) - 1, 0)
    T = len(X)
    if a >= T:
        mon.check(len(got) == 0, what + ": no estimate during the warm-up", got=len(got))
        mon.event("empty")
        return
    mon.check(list(got.index) == list(index[a:]), what + ": one estimate per time after the warm-up", got=len(got), want=T - a)
    if len(got) != T - a:
        return
    g = ref.arr(got, index=index[a:], columns=columns, what=what)
    W, tol = ref.ewma(X, h), etol(X, h)
    mon.close(g, W[a:], tol[a:], what + " = weighted average", halflife=h)
    for t in {a, T - 1, int(rng.integers(a, T))}:
        mon.close(g[t - a], ref.ewma_direct(X, h, t), tol[t], what + " = explicit sum", t=t, halflife=h)
        mon.event("explicit")
    if a == 0:
        mon.close(g[0], X[0], 1e-12 * np.abs(X[0]), what + ": first estimate is the first observation")
        mon.event("firstobs")


def run(mon, family, rng, i, tier):
    ewma = boot.load("cvx.covariance.ewma")
    if family == "long":
        df, d = gen.frame(rng, tier, T=int(rng.integers(1500, 3000)) if i % 5 else int(rng.integers(4200, 6000)), n=int(rng.integers(1, 4)), kinds=["gauss", "t3", "garch", "jumps", "regime"])
    elif family == "labels":
        ik = ["date", "business", "gaps", "tz", "int", "int0", "intgap", "float", "str", "period", "timedelta", "isostr", "intraday", "negint", "pydate", "date"][i % 16]
        df, d = gen.frame(rng, tier, T=int(rng.integers(2, 15)), index_kind=ik)
    else:
        df, d = gen.frame(rng, tier)
    h, w = gen.halflife(rng), gen.warmup(rng, len(df))
    if family == "long":
        h = float(rng.choice([5.0, 60.0, 500.0, 5000.0])) if i % 2 else float(10 ** rng.uniform(0, 3))
    X = np.array(df.values, dtype=float)
    mon.describe(frame=d, halflife=h, warmup=w)
    mon.sign(X, h, w, d["index"], d["columns"])
    if family in ("volatility", "long", "labels"):
        v = ewma.volatility(df, h, min_periods=w) if rng.random() < 0.7 else ewma.volatility(returns=df, halflife=h, min_periods=w, clip_at=None)
        a = max(w - 1, 0)
        if a < len(X):
            mon.check((np.asarray(v.values, float) >= 0).all(), "volatility is nonnegative")
        _compare(mon, v**2, X**2, h, w, rng, "variance", df.index, df.columns)
    if family in ("center", "labels"):
        c, m = ewma.center(df, h, min_periods=w, mean_adj=True)
        _compare(mon, m, X, h, w, rng, "mean", df.index, df.columns)
        a = max(w - 1, 0)
        if a < len(X):
            g = ref.arr(c, index=df.index[a:], columns=df.columns, what="centered")
            mon.close(g, (X - ref.ewma(X, h))[a:], etol(X, h)[a:] + 1e-12 * np.abs(X[a:]), "centered = return - mean")
    if family == "streams":
        f = boot.optional("cvx.covariance.ewma", "_ewma_mean")
        if f is not None:
            import pandas as pd

            out = list(f(df, halflife=h, min_periods=w))
            got = pd.DataFrame([s.values for _, s in out], index=[t for t, _ in out], columns=df.columns)
            for _, s in out[:2]:
                ref.arr(s, index=df.columns, what="ewma mean")
            got.index = df.index[[df.index.get_loc(t) for t, _ in out]] if out else df.index[:0]
            _compare(mon, got, X, h, w, rng, "ewma mean", df.index, df.columns)
        f = boot.optional("cvx.covariance.ewma", "_ewma_cov")
        if f is not None:
            out = list(f(df, halflife=h, min_periods=w))
            a = max(w - 1, 0)
            mon.check([t for t, _ in out] == list(df.index[a:]), "ewma covariance: one estimate per time after the warm-up", got=len(out), want=max(len(X) - a, 0))
            if out and len(out) == len(X) - a:
                O = np.einsum("ti,tj->tij", X, X)
                W, tol = ref.ewma(O, h), etol(np.abs(O), h)
                g = np.array([ref.arr(C, index=df.columns, columns=df.columns, what="ewma covariance") for _, C in out])
                mon.close(g, W[a:], tol[a:], "ewma covariance = weighted average", halflife=h)
                t = int(rng.integers(a, len(X)))
                mon.close(g[t - a], ref.ewma_direct(O, h, t), tol[t], "ewma covariance = explicit sum", t=t)
                mon.event("explicit")
    if family == "iewma":
        # the same estimates as the iterated EWMA reports them
        hm = gen.halflife(rng)
        if h < 0.1 or hm < 0.1:
            h, hm = max(h, 0.1), max(hm, 0.1)
        out = list(ewma.iterated_ewma(df, h, hm, min_periods_vola=w, min_periods_cov=0))
        pos = {t: k for k, t in enumerate(df.index)}
        W, tol = ref.ewma(X**2, h), etol(X**2, h)
        for r in out:
            k = pos[r.time]
            mon.close(ref.arr(ref.field(r, "volatility"), index=df.columns, what="volatility") ** 2, W[k], tol[k], "volatility^2 = weighted average of squares", t=k, halflife=h)
