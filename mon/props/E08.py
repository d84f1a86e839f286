"""Accounting of backtests: returns, growth, drawdown, annualised numbers, risk targets and the printed table."""
import contextlib, io, re

import numpy as np
import pandas as pd

from .. import boot, gen, pool, port, ref

PRELOAD = ["experiments.utils.trading_model", "experiments.utils.portfolio_backtests"]
FAMILIES = {"metrics": (120, 1500), "weights": (200, 2500), "sequence": (160, 1200), "table": (60, 800)}
RULE = ("'metrics' runs a backtest of any type and asks for metrics once; 'weights' puts arbitrary weight paths (also hedged, short, constant, long losing streaks) through the same accounting; 'sequence' mixes backtests and metric calls with changing "
        "targets, cash, risk-free rates and excess flags on one trader and recomputes every answer from the current weights; 'table' parses the printed LaTeX. Everything is recomputed independently from weights, returns and covariances.")
NEED = {"oracle": 4000, "metrics": 700, "diluted": 250, "excess": 150, "drawdowns": 500, "first day peak": 20, "new target": 50, "after backtest": 20, "table rows": 100, "prescient": 20, "risk adjusted": 60, "cash types": 15, "other units": 60, "excess in other units": 10}
ASSUMPTIONS = ["ECOS is replaced by CLARABEL", "multiprocessing.Pool is replaced by an in-process pool", "drawdown is measured on the growth path that starts after the first day"]


def expected(b, W, cash, rf, excess, sigma=None, k=1):
    """returns, growth and metrics of the weights W (cash: last column earns rf or zero), diluted to sigma if given"""
    n, T = b.n, b.T
    if sigma is not None:
        th = np.array([sigma / np.sqrt(252) / port.risk(b.S[t], W[t, :n]) for t in range(T)])
        W = np.hstack([W * th[:, None], (1 - th)[:, None]])
        cash = True
    rets = (W[:, :n] * b.R).sum(axis=1)
    size = (np.abs(W[:, :n]) * np.abs(b.R)).sum(axis=1)
    if cash:
        rets = rets + W[:, n] * (0 if rf is None else rf)
        size = size + np.abs(W[:, n]) * (0 if rf is None else np.abs(rf))
    # the returns may be stated in other units (k times the returns); the metrics are not
    real = rets / k
    V = np.cumprod(1 + real)
    dd = float((1 - V / np.maximum.accumulate(V)).max())
    m = (real - rf if excess else real).mean() * 252
    s = real.std() * np.sqrt(252)
    return rets, V, m, s, dd, float(size.max()) + 1e-300


def compare(mon, t, b, out, W, cash, rf, excess, sigma, tag, k=1):
    rets, V, m, s, dd, size = expected(b, W, cash, rf, excess, sigma, k)
    if not (V > 1e-6).all():
        mon.event("ruin")
        return
    mon.event("metrics")
    tol = 1e-10 * size
    got = np.ravel(np.asarray(t.rets, float))
    if not mon.close(got, rets, tol, tag + "daily returns are weights times asset returns plus cash", sigma=sigma):
        return
    tol, size = tol / k, size / k
    mon.event("other units", int(k != 1))
    mon.event("excess in other units", int(k != 1 and bool(excess)))
    mon.close(np.ravel(np.asarray(t.Vs, float)), V, 1e-9 * V, tag + "growth compounds the returns from one")
    g = [float(np.squeeze(x)) for x in out]
    mon.check(list(out._fields) == ["mean_return", "risk", "sharpe", "drawdown"] if hasattr(out, "_fields") else len(g) == 4, tag + "four metrics")
    mt = 252 * (tol + 1e-12 * (np.abs(rf).max() if excess else 0))
    mon.close(g[0], m, mt, tag + "annualised (excess) mean return", excess=excess)
    mon.close(g[1], s, 1e-8 * s + 20 * tol, tag + "annualised risk")
    if s > 1e-9 * size:
        sh = m / s
        mon.close(g[2], sh, abs(sh) * (1e-7 + 20 * tol / s) + mt / s, tag + "Sharpe ratio is their ratio")
    mon.close(g[3], dd, 1e-9, tag + "largest fall from the running peak")
    if dd > 0:
        mon.event("drawdowns")
        if np.argmax(1 - V / np.maximum.accumulate(V)) > 0 and np.maximum.accumulate(V)[np.argmax(1 - V / np.maximum.accumulate(V))] == V[0]:
            mon.event("first day peak")


def rate(rng, b):
    """a risk-free rate for the trading days, or None"""
    if rng.random() < 0.4:
        return None
    r = rng.normal(size=b.T) * 1e-4 + 1.5e-4 if rng.random() < 0.8 else np.full(b.T, 2e-4)
    return pd.Series(r * rng.choice([1, 10]), index=b.index, name="RF")


def ask(mon, rng, t, b, W, cash, tag, sigma=None, rf="draw", excess=None, k=1):
    rf = rate(rng, b) if isinstance(rf, str) else rf
    excess = (rf is not None and rng.random() < 0.5) if excess is None else excess
    dil = not cash and (sigma is not None or rng.random() < 0.5)
    kw = dict(rf=rf, excess=excess)
    s = None
    if dil:
        s = sigma or float(rng.choice([0.03, 0.05, 0.1, 0.1, 0.2, 0.5]))
        kw.update(diluted_with_cash=True)
        if not (s == 0.1 and rng.random() < 0.5):  # 0.1 is the default
            kw["sigma_des"] = s
        mon.event("diluted")
    mon.event("excess", int(excess))
    before = (None if rf is None else rf.copy(), np.array(t.ws, float))
    out = t.get_metrics(**kw)
    mon.check((rf is None or rf.equals(before[0])) and np.array_equal(before[1], np.asarray(t.ws, float)), tag + "asking changes neither the rate nor the weights")
    compare(mon, t, b, out, W, cash, None if rf is None else rf.values, excess, s, tag, k)
    return s


def bt(rng, t, b, tm, ptype=None):
    from .E06 import pick

    ptype, kw, _ = pick(rng, b, ptype)
    port.schedule(rng)
    t.backtest(**kw)
    return ptype, kw, np.array(t.ws, float), ptype in ("vol_cont", "mean_variance")


def metrics(mon, rng, tm):
    b = port.Book(rng, T=int(rng.integers(2, 12)))
    t = b.trader(tm)
    ptype, kw, W, cash = bt(rng, t, b, tm)
    mon.event("cash types", int(cash))
    mon.describe(**b.desc(), type=ptype, options=kw)
    mon.sign(b.R, W)
    ask(mon, rng, t, b, W, cash, "")


def weights(mon, rng, tm):
    b = port.Book(rng, T=int(rng.integers(1, 40)) if rng.random() < 0.93 else int(rng.integers(200, 560)), daily=10 ** rng.uniform(-3, -1.2))
    t = b.trader(tm)
    kind = str(rng.choice(["free", "short", "constant", "losing", "hedged", "zero day"]))
    t.backtest(portfolio_type="eq_weighted")
    W = rng.dirichlet(np.ones(b.n), b.T)
    if kind == "short":
        W = W * rng.choice([1, 1, -1], (b.T, b.n))
    elif kind == "constant":
        W[:] = W[0]
    elif kind == "losing":
        b.R = -np.abs(b.R)
        t = b.trader(tm)
        t.backtest(portfolio_type="eq_weighted")
    elif kind == "hedged":
        W = W - W.mean(axis=1, keepdims=True) + 1e-3
    elif kind == "zero day":
        b.R[rng.integers(0, b.T)] = 0
        t = b.trader(tm)
        t.backtest(portfolio_type="eq_weighted")
    k = 1
    if rng.random() < 0.3:
        # a model of, say, a hundred times the returns
        k = float(rng.choice([10, 100, 100, 10000]))
        b.R = b.R * k
        t = b.trader(tm)
        t.backtest(portfolio_type="eq_weighted", adjust_factor=k)
    t.ws = W.copy()
    mon.describe(**b.desc(), kind=kind, adjust_factor=k)
    mon.sign(b.R, W)
    last = None
    for _ in range(int(rng.integers(1, 4))):
        s = ask(mon, rng, t, b, W, False, "", k=k)
        if last is not None and s is not None and s != last:
            mon.event("new target")
        last = s or last
    if k == 1 and rng.random() < 0.6 and b.T > 1 and np.std(t.rets) > 1e-12:
        s = float(rng.choice([0.05, 0.1, 0.3]))
        r = np.ravel(np.array(t.rets, float))
        t.get_risk_adj_portfolio_growth(sigma_des=s) if rng.random() < 0.7 or s != 0.1 else t.get_risk_adj_portfolio_growth()
        a = s / np.sqrt(252) / r.std()
        mon.event("risk adjusted")
        mon.close(np.ravel(t.rets_adjusted), a * r, 1e-9 * np.abs(a * r).max(), "risk-adjusted returns are scaled to the target")
        V = np.cumprod(1 + a * r)
        mon.close(np.ravel(t.Vs_adjusted), V, 1e-8 * np.maximum(np.abs(V), 1e-6), "and compound from one")
        mon.close(np.ravel(t.rets), r, 0, "without touching the returns")


def sequence(mon, rng, tm):
    b = port.Book(rng, T=int(rng.integers(2, 7)))
    t = b.trader(tm)
    trail = []
    mon.describe(**b.desc(), trail=trail)
    mon.sign(b.S, b.R)
    ptype, kw, W, cash = bt(rng, t, b, tm)
    trail.append(ptype)
    last, fresh = None, False
    for step in range(int(rng.integers(3, 8))):
        u = rng.random()
        if u < 0.4:
            # often the same type again, with other constraints or targets
            ptype, kw, W, cash = bt(rng, t, b, tm, ptype if rng.random() < 0.5 else None)
            trail.append(ptype)
            fresh = last is not None
        elif u < 0.47 and not cash:
            s = float(rng.choice([0.05, 0.15]))
            t.dilute_with_cash(sigma_des=s)  # by hand, before asking for metrics
            trail.append(f"dilute {s}")
        else:
            s = ask(mon, rng, t, b, W, cash, "sequence: ")
            trail.append(f"metrics {s}")
            if fresh:
                mon.event("after backtest")
            fresh = False
            if s is not None:
                if last is not None and s != last:
                    mon.event("new target")
                last = s


ROW = re.compile(r"-?\d+\.?\d*(?:e[-+]?\d+)?|-?nan|-?inf")


def table(mon, rng, tm):
    pb = boot.load("experiments.utils.portfolio_backtests")
    k = int(rng.integers(1, 5))
    T, n = int(rng.integers(2, 9)), int(rng.integers(2, 6))
    names = [f"M{j}-{int(rng.integers(1, 99))}" for j in rng.permutation(k)]
    pres = bool(rng.random() < 0.6)
    if pres:
        names.insert(int(rng.integers(0, k + 1)), "PRESCIENT")
        mon.event("prescient")
    # risk targets make no sense for portfolios that already hold cash
    sigma = float(rng.choice([0.05, 0.1, 0.2])) if rng.random() < 0.6 else None
    rf0 = None
    traders, books, info = {}, {}, {}
    for nm in names:
        b = port.Book(rng, T=T, n=n)
        t = b.trader(tm)
        ptype = None if sigma is None else str(rng.choice(["eq_weighted", "min_risk", "risk_parity"]))
        info[nm] = bt(rng, t, b, tm, ptype)
        traders[nm], books[nm] = t, b
    b0 = books[names[0]]
    rf = rate(rng, b0)
    excess = rf is not None and bool(rng.random() < 0.6)
    mon.describe(names=names, sigma=sigma, excess=excess, types={nm: info[nm][0] for nm in names})
    mon.sign(b0.R, repr(names))
    for rep in range(2 if rng.random() < 0.4 else 1):
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            pb.create_table(traders, sigma, rf, excess, **({} if pres else {"prescient": False}))
        rows = [l for l in text.getvalue().splitlines() if "&" in l and any(l.strip().startswith(nm) for nm in names)]
        got = {}
        for l in rows:
            c = l.split("&")
            got[c[0].strip()] = [float(ROW.search(x).group()) for x in c[1:]]
        if not mon.check(list(got) == [x for x in names if x != "PRESCIENT"] + (["PRESCIENT"] if pres else []) and len(rows) == len(got), "one row per trader, the prescient one last", got=list(got), names=names):
            return
        for nm, v in got.items():
            b, (ptype, kw, W, cash) = books[nm], info[nm]
            rets, V, m, s, dd, size = expected(b, W, cash, None if rf is None else rf.values, excess, sigma)
            want = [100 * m, 100 * s, m / s, 100 * dd]
            mon.event("table rows")
            mon.event("excess", int(excess))
            if sigma:
                mon.event("diluted")
            if not mon.check(len(v) == 4, "return, risk, Sharpe and drawdown", got=v):
                return
            for got_, want_, half, what in zip(v, want, (0.05, 0.05, 0.05, 0.5), ("return", "risk", "Sharpe", "drawdown")):
                mon.check(abs(got_ - want_) <= half * 1.0001 + 1e-7 * abs(want_), "table prints the metrics of the named trader", name=nm, metric=what, got=got_, want=want_)
        sigma = sigma if sigma is None else float(rng.choice([0.05, 0.1, 0.2]))  # another target the second time


def run(mon, family, rng, i, tier):
    tm = boot.load("experiments.utils.trading_model")
    globals()[family](mon, rng, tm)
