"""Backtests earn the next day's returns, day by day, independent of the task schedule, of other days and of earlier backtests."""
import copy

import numpy as np
import pandas as pd

from .. import boot, gen, pool, port, ref

PRELOAD = ["experiments.utils.trading_model", "experiments.utils.portfolio_backtests"]
FAMILIES = {"classes": (50, 600), "holes": (24, 240), "schedules": (40, 500), "alone": (40, 500), "perturbed": (30, 400), "history": (50, 600), "processes": (16, 160), "large": (8, 60)}
RULE = ("'classes' runs the five portfolio backtests over random date ranges and several predictors and checks labels, returns and every day's weights; 'holes' leaves out predictions inside the range (refused, or the following day's return is still earned); 'schedules' repeats one backtest under other task orders and chunk sizes; "
        "'processes' repeats a backtest with real worker processes; 'alone' compares each day with a backtest of that day only; 'perturbed' replaces the predictions of other days; 'history' runs 2..4 backtests of different types, constraints and targets on one trader and compares with a fresh one. Inputs are compared with copies afterwards.")
NEED = {"oracle": 2500, "portfolios": 600, "same weights": 200, "ranges": 30, "histories": 40, "inputs untouched": 100, "default constraints": 8, "pairs": 40, "holes": 8, "real pools": 8}
ASSUMPTIONS = ["ECOS is replaced by CLARABEL", "multiprocessing.Pool is replaced by a pickling in-process pool with a random schedule, except in `processes`"]
CLASSES = dict(EqWeighted="eq_weighted", MinRisk="min_risk", MaxDiverse="max_diverse", RiskParity="risk_parity", MeanVariance="mean_variance")


class _All:
    def __init__(self, books):
        self.S = np.concatenate([x.S for x in books])


def pick(rng, b, ptype=None, books=None):
    """type and backtest arguments (feasible for all the books the portfolios may meet)"""
    ptype = ptype or str(rng.choice(port.TYPES))
    while True:
        kw = port.options(rng, ptype, b.n, book=_All(books or [b]))
        if port.feasible(kw, b.n):
            break
    rho = ptype == "mean_variance" and rng.random() < 0.5
    return ptype, kw, rho


def go(t, b, kw, rho, ts=None):
    kw = copy.deepcopy(kw)
    if rho:
        kw["rhos"] = b.frame(b.rho) if ts is None else b.frame(b.rho).iloc[ts]
    t.backtest(**kw)
    return np.array(t.ws, float)


def frozen(x):
    """a comparable copy of an input"""
    if isinstance(x, pd.DataFrame):
        return ("frame", x.values.tobytes(), tuple(x.index), tuple(x.columns))
    if isinstance(x, dict):
        return ("dict", tuple((k, frozen(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(frozen(v) for v in x))
    return repr(x)


def same(mon, a, b, what, **kw):
    mon.event("same weights", len(np.atleast_2d(a)))
    return mon.close(a, b, 2e-5, what, **kw)


def classes(mon, rng, tier):
    pb = boot.load("experiments.utils.portfolio_backtests")
    name = str(rng.choice(list(CLASSES)))
    ptype = CLASSES[name]
    b = port.Book(rng, T=int(rng.integers(4, 9)))
    if b.index.has_duplicates or not b.index.is_monotonic_increasing:
        mon.event("undecided")
        return
    T, n = b.T, b.n
    # predictors for a stretch of the sample, in order
    lo = int(rng.integers(0, 2))
    hi = T - int(rng.integers(0, 2)) if T - lo > 3 else T
    k = int(rng.integers(1, 4))
    books = [b] + [port.Book(rng, T=T, n=n) for _ in range(k - 1)]
    covs = [{b.index[t]: pd.DataFrame(x.S[t], index=b.assets, columns=b.assets) for t in range(lo, hi)} for x in books]
    means = [pd.DataFrame(x.mu, index=b.index, columns=b.assets) for x in books]
    R = b.frame(b.R)
    names = [f"p{j}" for j in rng.permutation(k)]
    s = int(rng.integers(lo, hi - 2)) if rng.random() < 0.7 else None
    e = int(rng.integers((lo if s is None else s) + 2, hi)) if rng.random() < 0.7 else None
    kw = {}
    if s is not None:
        kw["start_date"] = b.index[s]
    if e is not None:
        kw["end_date"] = b.index[e]
    mon.event("ranges")
    a, z = (lo if s is None else s), (hi - 1 if e is None else e)
    _, opt, rho = pick(rng, b, ptype, books)
    if ptype == "mean_variance":
        args = dict(additonal_cons=opt["additonal_cons"], sigma_tar=opt["sigma_des"])
        rhos = b.frame(b.rho)
        if rho:
            args["rhos"] = rhos
        bt = pb.MeanVariance(R, covs, names, means, **kw)
    else:
        args = dict(additonal_cons=opt["additonal_cons"]) if ptype in ("min_risk", "max_diverse") else {}
        bt = getattr(pb, name)(R, covs, names, **kw)
    before = frozen([R, covs, means, names, args])
    mon.describe(**b.desc(), cls=name, predictors=k, start=s, end=e, have=(lo, hi), options=opt, rho=rho)
    mon.sign(b.S, repr(opt), repr((lo, hi, s, e)))
    for rep in range(1 + int(rng.random() < 0.45)):
        port.schedule(rng)
        if rep and rng.random() < 0.7:
            # the same portfolio once more, with other limits
            _, opt, rho = pick(rng, b, ptype, books)
            if "additonal_cons" in args:
                args["additonal_cons"] = opt["additonal_cons"]
            if ptype == "mean_variance":
                args["sigma_tar"] = opt["sigma_des"]
                args.pop("rhos", None)
                if rho:
                    args["rhos"] = rhos
            before = frozen([R, covs, means, names, args])
            mon.describe(options=opt, rho=rho, again=True)
            mon.event("other limits")
        out = bt.backtest(**args)
        if not mon.check(list(out) == names, "one trader per predictor, under its name", got=list(out), want=names):
            return
        for j, nm in enumerate(names):
            tr = out[nm]
            want = list(range(a, z))
            got = list(tr.returns.index)
            if not mon.check(got == [b.index[t] for t in want], "trades at the predicted dates of the range", got=got, want=[b.index[t] for t in want]):
                return
            mon.check(np.array_equal(tr.returns.values, b.R[a + 1 : z + 1]) and list(tr.returns.columns) == list(b.assets), "and earns the returns of the following day", predictor=nm)
            W = np.asarray(tr.ws, float)
            if not mon.check(len(W) == len(want), "weights for every trade", got=W.shape):
                return
            x = books[j]
            for q, t in enumerate(want):
                port.judge(mon, ptype, opt, x.S[t], x.v[t], W[q], mu=x.mu[t], rho=b.rho[t] if rho and ptype == "mean_variance" else None, tag="range: ", t=t)
            # what it earned, in the units of the returns
            m = tr.get_metrics()
            e = (W[:, :n] * b.R[a + 1 : z + 1]).sum(axis=1)
            got, scale = (float(np.ravel(m.mean_return)[0]), float(np.ravel(m.risk)[0])), np.abs(e).max() * 252 + 1e-300
            mon.close(got, (e.mean() * 252, e.std() * np.sqrt(252)), 1e-9 * scale, "metrics of what the weights earned", predictor=nm)
    mon.event("inputs untouched")
    mon.check(frozen([R, covs, means, names, args]) == before, "inputs are left as they were", cls=name)


def holes(mon, rng, tier):
    """a predictor without a prediction on some days inside the range: refused, or every trade still earns the following day's return"""
    pb = boot.load("experiments.utils.portfolio_backtests")
    name = str(rng.choice(list(CLASSES)))
    ptype = CLASSES[name]
    b = port.Book(rng, T=int(rng.integers(5, 10)))
    if b.index.has_duplicates or not b.index.is_monotonic_increasing:
        mon.event("undecided")
        return
    T = b.T
    lo = int(rng.integers(0, 2))
    gone = {int(x) for x in rng.choice(np.arange(lo + 1, T - 2), size=int(rng.integers(1, min(3, T - 3 - lo) + 1)), replace=False)}
    cov = {b.index[t]: pd.DataFrame(b.S[t], index=b.assets, columns=b.assets) for t in range(lo, T) if t not in gone}
    _, opt, rho = pick(rng, b, ptype)
    kw = {}
    if rng.random() < 0.5:
        kw.update(start_date=b.index[lo], end_date=b.index[T - 1])
    args = dict(additonal_cons=opt["additonal_cons"], sigma_tar=opt["sigma_des"]) if ptype == "mean_variance" else dict(additonal_cons=opt["additonal_cons"]) if ptype in ("min_risk", "max_diverse") else {}
    mon.describe(**b.desc(), cls=name, holes=sorted(gone), options=opt)
    mon.sign(b.S, repr(opt), repr(gone))
    port.schedule(rng)
    mon.event("holes")
    try:
        tr = getattr(pb, name)(b.frame(b.R), [cov], ["p"], *([[b.frame(b.mu)]] if ptype == "mean_variance" else []), **kw).backtest(**args)["p"]
    except Exception:
        mon.event("holes refused")
        mon.event("oracle")
        return
    pos = {t: k for k, t in enumerate(b.index)}
    got = list(tr.returns.index)
    W = np.asarray(tr.ws, float)
    mon.check(len(W) == len(got), "weights for every trade", got=W.shape)
    for q, t in enumerate(got):
        k = pos[t]
        mon.check(k + 1 < T and np.array_equal(tr.returns.values[q], b.R[min(k + 1, T - 1)]), "with holes in the predictions: a trade earns the return of the following day", t=t, hole=k in gone)
        if k not in gone:
            port.judge(mon, ptype, opt, b.S[k], b.v[k], W[q], mu=b.mu[k], tag="holes: ", t=t)


def schedules(mon, rng, tier):
    tm = boot.load("experiments.utils.trading_model")
    b = port.Book(rng, T=int(rng.integers(3, 8)))
    ptype, kw, rho = pick(rng, b)
    mon.describe(**b.desc(), type=ptype, options=kw, rho=rho)
    mon.sign(b.S, b.mu, repr(kw))
    pool.SCHEDULE.reset()
    W0 = go(b.trader(tm), b, kw, rho)
    seen = set()
    for chunk, order in ((1, "lifo"), (b.T, "fifo"), (int(rng.integers(1, b.T + 1)), "random"), (1, "random")):
        pool.SCHEDULE.reset(rng=rng, chunk=chunk, order=order)
        t = b.trader(tm)
        W = go(t, b, kw, rho)
        seen |= set(pool.SCHEDULE.trace)
        same(mon, W, W0, "same weights under another task schedule", chunk=chunk, order=order, type=ptype)
        mon.event("tasks", pool.SCHEDULE.tasks)
    mon.event("schedules", len(seen))
    # through the pool of real processes' semantics: objective values belong to their day
    if getattr(t, "obj", None) is not None and ptype in ("min_risk", "vol_cont") and np.size(t.obj) == b.T:
        x = W[:, : b.n] / W[:, : b.n].sum(axis=1, keepdims=True)
        mon.close(np.ravel(t.obj), [port.risk(b.S[d], x[d]) for d in range(b.T)], 1e-5 * b.v.max(), "objective values belong to their day")


def alone(mon, rng, tier):
    tm = boot.load("experiments.utils.trading_model")
    b = port.Book(rng, T=int(rng.integers(2, 6)))
    ptype, kw, rho = pick(rng, b)
    mon.describe(**b.desc(), type=ptype, options=kw, rho=rho)
    mon.sign(b.S, b.mu, repr(kw))
    port.schedule(rng)
    W = go(b.trader(tm), b, kw, rho)
    for d in range(b.T):
        w = go(b.trader(tm, [d]), b, kw, rho, [d])
        same(mon, W[d], w[0], "a day's weights equal those of that day alone", t=d, type=ptype)
    # any subset in order
    ts = sorted(rng.choice(b.T, int(rng.integers(1, b.T + 1)), replace=False))
    port.schedule(rng)
    same(mon, go(b.trader(tm, ts), b, kw, rho, ts), W[ts], "and those of any other selection of days", type=ptype)
    mon.event("tasks", pool.SCHEDULE.tasks)


def large(mon, rng, tier):
    """months of days or dozens of assets: some days alone, all of them under another schedule"""
    tm = boot.load("experiments.utils.trading_model")
    b = port.Book(rng, T=int(rng.integers(62, 90)), n=int(rng.integers(2, 4))) if rng.random() < 0.6 else port.Book(rng, T=int(rng.integers(2, 5)), n=int(rng.integers(16, 30)))
    ptype, kw, rho = pick(rng, b)
    mon.describe(**b.desc(), type=ptype, options=kw, rho=rho)
    mon.sign(b.S, b.mu, repr(kw))
    port.schedule(rng)
    W = go(b.trader(tm), b, kw, rho)
    if not mon.check(len(W) == b.T, "one row of weights per day", got=W.shape):
        return
    for d in sorted({0, b.T - 1, *(int(x) for x in rng.choice(b.T, min(b.T, 5), replace=False))}):
        same(mon, W[d], go(b.trader(tm, [d]), b, kw, rho, [d])[0], "a day's weights equal those of that day alone", t=d, type=ptype)
    pool.SCHEDULE.reset(rng=rng, chunk=int(rng.integers(1, b.T + 1)), order="random")
    same(mon, go(b.trader(tm), b, kw, rho), W, "same weights under another task schedule", type=ptype)
    mon.event("tasks", pool.SCHEDULE.tasks)


def processes(mon, rng, tier):
    """the same with real worker processes"""
    tm = boot.load("experiments.utils.trading_model")
    b = port.Book(rng, T=int(rng.integers(2, 8)))
    ptype, kw, rho = pick(rng, b)
    mon.describe(**b.desc(), type=ptype, options=kw, rho=rho)
    mon.sign(b.S, b.mu, repr(kw))
    port.schedule(rng)
    W0 = go(b.trader(tm), b, kw, rho)
    for _ in range(2):
        pool.SCHEDULE.reset()
        pool.SCHEDULE.real = int(rng.integers(1, 5))
        try:
            W = go(b.trader(tm), b, kw, rho)
        finally:
            mon.event("real pools", pool.SCHEDULE.pools)
            pool.SCHEDULE.reset()
        same(mon, W, W0, "same weights with worker processes", type=ptype)


def perturbed(mon, rng, tier):
    tm = boot.load("experiments.utils.trading_model")
    b = port.Book(rng, T=int(rng.integers(2, 7)))
    c = port.Book(rng, T=b.T, n=b.n)
    ptype, kw, rho = pick(rng, b, None, [b, c])
    mon.describe(**b.desc(), type=ptype, options=kw, rho=rho)
    mon.sign(b.S, b.mu, repr(kw))
    port.schedule(rng)
    W = go(b.trader(tm), b, kw, rho)
    keep = rng.random(b.T) < 0.5
    keep[rng.integers(0, b.T)] = True
    # everything else of the other days changes; realised returns change everywhere
    for f in ("S", "v", "mu", "rho"):
        getattr(b, f)[~keep] = getattr(c, f)[~keep]
    b.R = c.R * 3
    port.schedule(rng)
    V = go(b.trader(tm), b, kw, rho)
    same(mon, V[keep], W[keep], "weights depend on that day's predictions only", keep=keep, type=ptype)
    mon.event("tasks", pool.SCHEDULE.tasks)


def history(mon, rng, tier):
    tm = boot.load("experiments.utils.trading_model")
    b = port.Book(rng, T=int(rng.integers(2, 5)), n=int(rng.integers(7, 9)) if rng.random() < 0.5 else None)
    R, cov, mu, rhos = b.frame(b.R), b.cov(), b.frame(b.mu), b.frame(b.rho)
    t = tm.Trader(R, cov, r_hats=mu)
    ob = port.Book(rng, T=b.T, n=b.n)
    other = ob.trader(tm) if rng.random() < 0.4 else None
    cons = []
    trail = []
    same_type = str(rng.choice(port.TYPES)) if rng.random() < 0.4 else None  # the same type with other constraints
    mon.describe(**b.desc(), trail=trail)
    mon.sign(b.S, b.mu)
    # the caller's dictionary is reused, changed in between by the caller
    for step in range(int(rng.integers(2, 5))):
        ptype, kw, rho = pick(rng, b, same_type)
        if b.n >= 7 and ptype in ("min_risk", "mean_variance", "vol_cont", "robust_min_risk", "max_diverse") and rng.random() < 0.4:
            kw.pop("additonal_cons")
            mon.event("default constraints")
        if rng.random() < 0.4:
            kw["cons"] = cons
        trail.append(dict(type=ptype, options={k: v for k, v in kw.items() if k != "cons"}, rho=rho, reads=None))
        use = dict(kw)
        if rho:
            use["rhos"] = rhos
        before = frozen([R, cov, mu, rhos, {k: v for k, v in use.items() if k not in ("cons", "rhos")}])
        port.schedule(rng)
        t.backtest(**use)
        W = np.array(t.ws, float)
        mon.event("inputs untouched")
        mon.check(frozen([R, cov, mu, rhos, {k: v for k, v in use.items() if k not in ("cons", "rhos")}]) == before and len(cons) == 0, "inputs are left as they were", type=ptype, step=step, cons=len(cons))
        f = b.trader(tm)
        port.schedule(rng)
        fresh = go(f, b, {k: v for k, v in kw.items() if k != "cons"}, rho)
        mon.event("pairs")
        same(mon, W, fresh, "same weights as a fresh trader's", step=step, type=ptype, previous=[x["type"] for x in trail[:-1]])
        full = dict(kw)
        full.setdefault("additonal_cons", {"short_lim": 1.6, "upper_bound": 0.15, "lower_bound": -0.1})
        for d in range(b.T):
            port.judge(mon, ptype, full, b.S[d], b.v[d], W[d], mu=b.mu[d], rho=b.rho[d] if rho else None, tag="history: ", t=d)
        # what users do in between
        if rng.random() < 0.5 and ptype not in ("vol_cont", "mean_variance"):
            trail[-1]["reads"] = "metrics diluted"
            t.get_metrics(diluted_with_cash=True, sigma_des=float(rng.choice([0.05, 0.1, 0.2])))
            mon.check(np.array_equal(np.asarray(t.ws, float), W), "looking at metrics leaves the weights alone", step=step)
        elif rng.random() < 0.5:
            trail[-1]["reads"] = "metrics"
            t.get_metrics()
            mon.check(np.array_equal(np.asarray(t.ws, float), W), "looking at metrics leaves the weights alone", step=step)
        if other is not None:
            p2, k2, _ = pick(rng, ob)
            other.backtest(**k2)
            mon.check(np.array_equal(np.asarray(t.ws, float), W), "another trader's backtest leaves the weights alone", step=step)
    mon.event("histories")
    mon.event("tasks", pool.SCHEDULE.tasks)


def run(mon, family, rng, i, tier):
    globals()[family](mon, rng, tier)
