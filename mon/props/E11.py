"""Evaluation helpers against direct formulas."""
import numpy as np
import pandas as pd

from .. import boot, gen, ref

PRELOAD = ["experiments.utils.experiment_utils", "experiments.utils.trading_model"]
FAMILIES = {"realized": (140, 2000), "volas": (60, 800), "turnover": (80, 1000), "ecdf": (60, 800), "rows": (60, 800), "mse": (80, 1000), "diagonal": (60, 800), "rho": (100, 1500), "sharpe": (100, 1000)}
RULE = ("A case draws inputs for one helper (periods of 1..30 intra-period returns in order or interleaved, weights of any sign and leverage, samples with ties, triangular rows, predictions with labels of every type) and compares every value and label "
        "with the direct formula.")
NEED = {"oracle": 600, "periods": 300, "single_return_periods": 20, "values": 3000, "families": 9, "years": 60, "repeated_rows": 100, "trends": 10, "trends_over_a_gap": 1}


def drawn(mon, rng, eu, Trader, out):
    """the same ratios when they are drawn, the curve through them and the least-squares trend"""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    plt.close("all")
    try:
        line = bool(rng.random() < 0.8)
        kw = dict(plot=True) if rng.random() < 0.5 else {}
        if not line or rng.random() < 0.3:
            kw["regression_line"] = line
        again = eu.yearly_SR(Trader(), **kw)
        mon.check(out.equals(again), "drawing does not change the ratios", without=out, drawn=again)
        curves = plt.gca().get_lines() if plt.get_fignums() else []
        points, trends = ([c for c in curves if (c.get_linestyle() == "--") == dashed] for dashed in (False, True))
        if not mon.check(len(points) == 1 and len(trends) == int(line), "one curve of ratios, and one trend when it is asked for", curves=len(points), trends=len(trends), asked=line):
            return
        y = np.asarray(points[0].get_ydata(), float)
        v = np.asarray(out.values, float)
        mon.check(len(y) == len(v) and np.array_equal(y, v, equal_nan=True), "the ratios are what is drawn", got=y, want=v)
        if line:
            ok = ~np.isnan(v)
            years = np.asarray(out.index.year, float)
            if ok.sum() >= 2:
                x = years - years[ok].mean()
                slope = (x[ok] * v[ok]).sum() / (x[ok] ** 2).sum()
                got = np.asarray(trends[0].get_ydata(), float)
                if mon.check(len(got) == len(v), "the trend has a value for every year drawn", got=len(got), want=len(v)):
                    tol = 1e-7 * (np.abs(v[ok]).max() + np.abs(slope)) * np.ones(ok.sum()) + 1e-9
                    mon.close(got[ok], v[ok].mean() + slope * x[ok], tol, "the trend is the least-squares line through the ratios", years=years, ratios=v)
                    mon.event("trends")
                    mon.event("trends_over_a_gap", int(not ok.all()))
    finally:
        plt.close("all")


def run(mon, family, rng, i, tier):
    eu = boot.load("experiments.utils.experiment_utils")
    mon.event("families", int(i == 0))
    n = 1 if rng.random() < 0.08 else int(rng.integers(2, 7))
    if family in ("rows", "diagonal", "turnover", "mse", "rho") and i % 20 == 11:
        n = int(rng.integers(20, 60))
    if family in ("realized", "volas"):
        P = int(rng.integers(1, 25)) if rng.random() < 0.92 else int(rng.integers(60, 150))
        ix, ik = gen.index(rng, P)
        labels, ck = gen.columns(rng, n)
        counts = rng.integers(1, 12, P) if rng.random() < 0.7 else np.full(P, int(rng.integers(1, 31)))
        own = np.repeat(np.arange(P), counts)
        if rng.random() < 0.25:
            # intra-period returns of different periods interleaved; every period starts in order
            rest = np.array([p for p in range(P) for _ in range(counts[p] - 1)], int)
            own = np.concatenate([np.arange(P), rng.permutation(rest)])
        X = rng.normal(size=(len(own), n)) * 10 ** rng.uniform(-4, 1) + rng.normal(size=n) * 0.01 * (rng.random() < 0.5)
        if rng.random() < 0.35 and len(own) > 1:
            # the same return twice, within a period and across periods
            for _ in range(int(rng.integers(1, 1 + max(1, len(own) // 3)))):
                b = int(rng.integers(len(own)))
                same = np.flatnonzero(own == own[b])
                a = int(rng.choice(same)) if rng.random() < 0.7 else int(rng.integers(len(own)))
                X[a] = X[b]
                mon.event("repeated_rows", int(a != b))
        df = pd.DataFrame(X, index=ix[own], columns=labels)
        mon.describe(periods=P, n=n, index=ik, columns=ck)
        mon.sign(X, own)
        mon.event("periods", P)
        mon.event("single_return_periods", int((counts == 1).sum()))
        order = list(dict.fromkeys(own.tolist()))
        if family == "volas":
            out = list(eu.realized_volas(df))
            if not mon.check([t for t, _ in out] == [ix[p] for p in order], "one realised volatility per period", got=len(out), want=P):
                return
            for p, (t, v) in zip(order, out):
                x = X[own == p]
                mon.close(ref.arr(v, index=labels, what="realised volatility"), np.sqrt((x**2).sum(axis=0)), 1e-10 * np.sqrt((x**2).sum(axis=0)) + 1e-300, "root of the sum of squares", period=p)
            return
        h = max(gen.halflife(rng), 0.2)
        RC = []
        for p in order:
            x = X[own == p]
            z = x - x.mean(axis=0)
            RC.append(z.T @ z)
        RC = np.array(RC)
        scale = np.array([(X[own == p] ** 2).sum() for p in order]).cumsum()
        f = getattr(eu, "_realized_covariance", None)
        if f is not None:
            out = list(f(df))
            if mon.check([t for t, _ in out] == [ix[p] for p in order], "one realised covariance per period", got=len(out)):
                for k, (t, C) in enumerate(out):
                    mon.close(ref.arr(C, index=labels, columns=labels, what="realised covariance"), RC[k], 1e-9 * (np.abs(RC[k]).max() + 1e-6 * scale[k]) + 1e-300, "sum of outer products of centered returns", period=k)
        out = list(eu.realized_ewma(df, h))
        want = ref.ewma(RC, h)
        if not mon.check([t for t, _ in out] == [ix[p] for p in order][1:], "EWMA of realised covariances from the second period on", got=len(out), want=P - 1):
            return
        for k, (t, C) in enumerate(out, start=1):
            mon.close(ref.arr(C, index=labels, columns=labels, what="EWMA of realised covariances"), want[k], 1e-9 * (np.abs(want[k]).max() + 1e-6 * scale[k]) + 1e-300, "normalised exponential average", period=k, halflife=h)
    elif family == "turnover":
        T = int(rng.integers(2, 60)) if i % 20 != 3 else int(rng.integers(600, 3000))
        W = rng.normal(size=(T, n)) + rng.choice([0, 0.5])
        if rng.random() < 0.3:
            W[int(rng.integers(1, T)) :] = W[0]
        mon.sign(W)
        mon.describe(T=T, n=n)
        want = 100 * 252 * np.mean([np.abs(W[t + 1] - W[t]).sum() / np.abs(W[t]).sum() for t in range(T - 1)])
        mon.close(float(eu.turnover(W.copy())), want, 1e-9 * want + 1e-12, "annualised mean relative change of weights in percent")
        mon.event("values")
    elif family == "ecdf":
        N = int(rng.integers(1, 200)) if i % 20 != 3 else int(rng.integers(2000, 9000))
        x = rng.normal(size=N)
        if rng.random() < 0.4:
            x = np.rint(2 * x)
        data = x.copy() if rng.random() < 0.6 else pd.Series(x) if rng.random() < 0.5 else list(x)
        mon.sign(x)
        mon.describe(N=N)
        a, b = eu.ecdf(data)
        mon.close(np.asarray(a, float), np.sort(x), 0, "sorted sample")
        mon.close(np.asarray(b, float), np.arange(1, N + 1) / N, 1e-14, "i/n")
    elif family == "rows":
        T = int(rng.integers(1, 12)) if i % 20 != 3 else int(rng.integers(300, 900))
        S = np.stack([gen.spd(rng, n) for _ in range(T)])
        iu = [(a, b) for a in range(n) for b in range(a, n)]
        M = np.array([[S[t][a, b] for a, b in iu] for t in range(T)])
        mon.sign(M)
        mon.describe(T=T, n=n)
        mon.close(eu.from_row_matrix_to_covariance(M.copy(), n), S, 1e-14 * np.abs(S), "symmetric matrices encoded by the rows")
        mon.close(eu.from_row_to_covariance(M[-1].copy(), n), S[-1], 1e-14 * np.abs(S[-1]), "symmetric matrix encoded by the row")
    elif family == "mse":
        df, d = gen.frame(rng, tier, T=int(rng.integers(2, 40)) if i % 20 != 3 else int(rng.integers(200, 500)), n=n)
        X = np.array(df.values, float)
        T = len(X)
        times = [int(t) for t in (range(T - 1) if rng.random() < 0.5 else rng.choice(T - 1, size=int(rng.integers(1, T)), replace=False))]
        sd = X.std() + 1e-9
        S = {t: gen.spd(rng, n) * sd**2 for t in times}
        cov = {df.index[t]: pd.DataFrame(S[t], index=df.columns, columns=df.columns) for t in times}
        mon.sign(X, repr(times))
        mon.describe(frame=d, times=times[:10])
        full = eu.MSE(df, cov)
        if rng.random() < 0.3:  # nothing to score the last prediction on
            c2 = dict(cov)
            c2[df.index[T - 1]] = pd.DataFrame(gen.spd(rng, n) * sd**2, index=df.columns, columns=df.columns)
            more = eu.MSE(df, c2)
            last = more.get(df.index[T - 1]) if df.index.is_unique else None
            mon.check(last is None or np.isnan(last), "a prediction without a next return has no error", got=last)
            mon.check(full.equals(more.iloc[: len(times)]), "a prediction without a next return does not change the others")
        got = ref.arr(full, index=[df.index[t] for t in times], what="MSE")
        want = np.array([((S[t] - np.outer(X[t + 1], X[t + 1])) ** 2).sum() for t in times])
        mon.close(got, want, 1e-9 * want + 1e-300, "squared error against the next outer product")
    elif family == "sharpe":
        # calendar years of 1..252 observations; those with at most 100 do not count
        parts, y = [], int(rng.integers(1990, 2015))
        for _ in range(int(rng.integers(1, 5))):
            m = int(rng.choice([1, 60, 99, 100, 101, 102, 150, 250]))
            d = pd.bdate_range(f"{y}-01-01", f"{y}-12-31")
            parts.append(d[np.sort(rng.choice(len(d), size=min(m, len(d)), replace=False))])
            y += 1 if rng.random() < 0.9 else 2
        if not any(len(d) > 100 for d in parts):
            d = pd.bdate_range(f"{y}-01-01", f"{y}-12-31")
            parts.append(d[:150])
        ix = parts[0]
        for d in parts[1:]:
            ix = ix.append(d)
        x = (rng.normal(size=len(ix)) + rng.normal() * 0.1) * 10 ** rng.uniform(-4, 0)
        mon.sign(x, repr(list(ix[:3])))
        mon.describe(T=len(x), years=[len(d) for d in parts])
        Trader = type("Trader", (), {"rets": x.reshape(-1, 1) if rng.random() < 0.5 else x.copy(), "returns": pd.DataFrame(rng.normal(size=(len(x), 2)), index=ix)})
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = eu.yearly_SR(Trader(), plot=False)
            if rng.random() < 0.7:
                drawn(mon, rng, eu, Trader, out)
        out = out.dropna()
        want = {}
        for d in parts:
            if len(d) > 100:
                z = x[ix.isin(d)]
                want[int(d[0].year)] = z.mean() * 252 / (z.std(ddof=1) * np.sqrt(252))
                mon.event("years")
        if not mon.check([int(t.year) for t in out.index] == list(want), "one ratio per calendar year with more than 100 returns", got=[str(t) for t in out.index], want=list(want)):
            return
        v = np.array(list(want.values()))
        mon.close(np.asarray(out.values, float), v, 1e-9 * np.abs(v) + 1e-9, "annualised mean over annualised deviation")
    elif family == "diagonal":
        T = int(rng.integers(1, 6))
        labels, ck = gen.columns(rng, n)
        ix, ik = gen.index(rng, T)
        lam = float(rng.choice([0.05, 0, 1.0])) if rng.random() < 0.5 else float(rng.uniform(0, 3)) if rng.random() < 0.8 else float(rng.uniform(-0.9, 0))
        S = np.stack([gen.spd(rng, n) * 10 ** rng.uniform(-6, 3) for _ in range(T)])
        out = eu.add_to_diagonal({ix[t]: pd.DataFrame(S[t].copy(), index=labels, columns=labels) for t in range(T)}, lamda=lam)
        mon.sign(S, lam)
        mon.describe(n=n, lam=lam)
        if not mon.check(list(out.keys()) == list(ix), "times are kept"):
            return
        for t in range(T):
            want = S[t] + lam * np.diag(np.diag(S[t]))
            mon.close(ref.arr(out[ix[t]], index=labels, columns=labels, what="loaded covariance"), want, 1e-12 * np.abs(want) + 1e-300, "variances times 1 + lambda, covariances kept")
    else:
        tm = boot.load("experiments.utils.trading_model")
        df, d = gen.frame(rng, tier, T=int(rng.integers(1, 120)) if i % 20 != 3 else int(rng.integers(500, 1200)), n=n)
        X = np.array(df.values, float)
        k = None if rng.random() < 0.3 else float(rng.choice([1, 2, 3, 0.5]))
        got = ref.arr(tm.construct_rho(df) if k is None else tm.construct_rho(df, n_devs=k), index=df.index, columns=df.columns, what="uncertainty")
        k = 2.0 if k is None else k
        mon.sign(X, k)
        mon.describe(frame=d, n_devs=k)
        # unbiased exponentially weighted deviation, half-life 125
        want = np.zeros_like(X)
        for t in range(2, len(X)):
            w = ref.weights(t, 125)
            m = w @ X[:t]
            var = w @ (X[:t] - m) ** 2 / (1 - (w**2).sum())
            want[t] = k * np.sqrt(np.maximum(var, 0))
        size = np.maximum.accumulate(np.abs(X), axis=0)
        mon.close(got, want, 1e-7 * (want + k * size * 0.1) + 1e-300, "n_devs lagged deviations, zero where undefined", n_devs=k)
        mon.check((got >= 0).all(), "nonnegative")
