"""Purity: inputs untouched, no state from call to call, memory layout irrelevant. A monitor around every public function."""
import copy, types

import numpy as np
import pandas as pd

from .. import boot, comb, gen, pool, ref

PRELOAD = ["cvx.covariance.ewma", "cvx.covariance.combination", "cvx.covariance.regularization", "experiments.utils.experiment_utils", "experiments.utils.low_rank_ewma",
           "experiments.utils.iterated_ewma_vec", "experiments.utils.return_combination", "experiments.utils.trading_model"]
FAMILIES = {"inputs": (432, 4000), "hostile": (324, 3000), "history": (216, 2000), "reuse": (324, 3000), "layout": (324, 3000)}
RULE = ("A registry of the public functions (29 entries) with random arguments. 'inputs' snapshots every argument (values, labels, dtypes, dictionary order, identity of entries) around the call; 'hostile' does the same with missing, zero, infinite, negative or repeated values in one argument (the call may fail); 'history' runs a random sequence of calls, "
        "with data of equal shapes and labels, and compares each with the same call made first thing; 'reuse' changes the values inside the same container objects and calls again; 'layout' passes read-only and strided copies.")
NEED = {"oracle": 1500, "calls": 1500, "snapshots": 300, "hostile snapshots": 250, "histories": 200, "reused": 100, "layouts": 150, "functions": 20}


# ---------------------------------------------------------------- plain form of anything
def plain(x, path="", out=None):
    """-> list of (path, labels, array) in order"""
    out = [] if out is None else out
    if len(out) > 4000:
        return out
    if isinstance(x, pd.DataFrame):
        out.append((path, ("DataFrame", tuple(map(repr, x.index)), tuple(map(repr, x.columns)), tuple(map(str, x.dtypes.unique())), tuple(map(repr, list(x.index.names) + list(x.columns.names)))), np.array(x.values)))
    elif isinstance(x, pd.Series):
        out.append((path, ("Series", tuple(map(repr, x.index)), repr(x.name), tuple(map(repr, x.index.names))), np.array(x.values)))
    elif isinstance(x, np.ndarray):
        out.append((path, ("array", x.dtype.str), np.array(x)))
    elif isinstance(x, dict):
        out.append((path, ("dict", tuple(map(repr, x.keys()))), None))
        for k, v in x.items():
            plain(v, f"{path}[{k!r}]", out)
    elif isinstance(x, (list, tuple)):
        out.append((path, (type(x).__name__, len(x)), None))
        for k, v in enumerate(x):
            plain(v, f"{path}[{k}]", out)
    elif isinstance(x, (types.GeneratorType, map, zip)):
        return plain(list(x), path, out)
    elif isinstance(x, (float, np.floating)):
        out.append((path, ("float",), np.array(float(x))))
    else:
        out.append((path, (repr(x),), None))
    return out


def differ(a, b, rtol, atol=0.0):
    """first difference between two plain forms, or None"""
    if len(a) != len(b):
        return "number of parts: %d, %d" % (len(a), len(b))
    for (p, la, va), (q, lb, vb) in zip(a, b):
        if p != q or la != lb and not (la[0] == lb[0] == "DataFrame" and la[:3] == lb[:3] and (rtol > 0 or la[4] == lb[4])):
            return "labels at %s / %s: %r, %r" % (p, q, la[:2], lb[:2])
        if va is None:
            continue
        if va.shape != vb.shape:
            return "shape at " + p
        if va.dtype == object or vb.dtype == object or va.dtype.kind in "US":
            try:
                va, vb = va.astype(float), vb.astype(float)
            except (TypeError, ValueError):
                if repr(va.tolist()) != repr(vb.tolist()):
                    return "values at " + p
                continue
        if va.dtype.kind in "mMb":
            if not np.array_equal(va, vb):
                return "values at " + p
            continue
        if rtol == 0:
            if not np.array_equal(va, vb, equal_nan=True):
                return "values at " + p
        else:
            s = np.nanmax(np.abs(va)) if va.size and not np.isnan(va).all() else 0.0
            if not np.allclose(va, vb, rtol=0, atol=rtol * s + atol + 1e-300, equal_nan=True):
                return "values at %s (off by %.3g of %.3g)" % (p, np.nanmax(np.abs(va - vb)), s)
    return None


def freeze(args):
    """exact snapshot of arguments, including the identity of dictionary and list entries"""
    ids = []

    def walk(x):
        ids.append(id(x))
        if isinstance(x, dict):
            for v in x.values():
                walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                walk(v)

    walk(args)
    return plain(args), ids


# ---------------------------------------------------------------- the registry
class Draw:
    """random arguments of one size; the same size gives equal shapes and labels"""

    def __init__(self, rng, T, n, K):
        self.rng, self.T, self.n, self.K = rng, T, n, K
        self.index = pd.date_range("2005-01-03", periods=T, freq="B")
        self.assets = [f"a{j}" for j in range(n)]

    def df(self):
        X = gen.process(self.rng, self.T, self.n, str(self.rng.choice(["gauss", "factor", "t3", "garch", "regime"])))
        return pd.DataFrame(np.asarray(X, float) * 0.01, index=self.index, columns=self.assets)

    def sig(self, times=None):
        times = self.index if times is None else times
        return {t: pd.DataFrame(gen.spd(self.rng, self.n, "wishart") * 1e-4, index=self.assets, columns=self.assets) for t in times}

    def experts(self):
        return {f"e{k}": {t: v * (1 + k) for t, v in self.sig().items()} for k in range(self.K)}

    def lowrank(self, reg, sig, r):
        return dict(reg.regularize_covariance(sig, r, low_rank_format=True))


def registry():
    ew = boot.load("cvx.covariance.ewma")
    co = boot.load("cvx.covariance.combination")
    rg = boot.load("cvx.covariance.regularization")
    eu = boot.load("experiments.utils.experiment_utils")
    lr = boot.load("experiments.utils.low_rank_ewma")
    ve = boot.load("experiments.utils.iterated_ewma_vec")
    rc = boot.load("experiments.utils.return_combination")
    tm = boot.load("experiments.utils.trading_model")
    E = {}

    def reg(name, draw, call, rtol=1e-9, atol=0.0, layout=True):
        E[name] = (draw, call, rtol, atol, layout)

    reg("volatility", lambda d: [d.df()], lambda a, o: ew.volatility(a[0], o["h"], o["mp"], o["clip"]))
    reg("center", lambda d: [d.df()], lambda a, o: ew.center(a[0], o["h"], 1, True))
    reg("center off", lambda d: [d.df()], lambda a, o: ew.center(a[0], o["h"]))
    reg("clip", lambda d: [d.df()], lambda a, o: ew.clip(a[0], 0.012))
    reg("iterated_ewma", lambda d: [d.df()], lambda a, o: list(ew.iterated_ewma(a[0], o["h"], 2 * o["h"] + 5, o["mp"] + 2, 3, mean=o["mean"], clip_at=o["clip"])))
    reg("iterated_ewma nan", lambda d: [d.df().mask(d.rng.random((d.T, d.n)) < 0.1)], lambda a, o: list(ew.iterated_ewma(a[0], o["h"], 2 * o["h"] + 5, o["mp"] + 2, 3, clip_at=o["clip"])))

    def sigmas_draw(d):
        e = d.experts()
        mu = {k: {t: pd.Series(d.rng.normal(size=d.n) * 0.003, index=d.assets) for t in v} for k, v in e.items()}
        return [e, d.df(), mu]

    reg("from_sigmas", sigmas_draw, lambda a, o: list(co.from_sigmas(a[0], a[1], means=a[2]).solve(window=o["w"])), 2e-3, 1e-6)
    reg("from_sigmas times", lambda d: [d.experts(), d.df(), list(d.index[3:7])], lambda a, o: list(co.from_sigmas(a[0], a[1]).solve(window=3, times=a[2])), 2e-3, 1e-6)
    reg("from_ewmas", lambda d: [d.df(), [(5, 3 * d.n + 15), (9, 3 * d.n + 30)]], lambda a, o: list(co.from_ewmas(a[0], a[1], min_periods_vola=3, min_periods_cov=2 * a[0].shape[1] + 1, clip_at=o["clip4"]).solve(window=4)), 2e-3, 1e-6)
    reg("regularize", lambda d: [d.sig()], lambda a, o: list(rg.regularize_covariance(a[0], o["r"])), 1e-8)
    reg("regularize factors", lambda d: [d.sig()], lambda a, o: [(t, x.F @ x.F.T, x.d) for t, x in rg.regularize_covariance(a[0], o["r"], low_rank_format=True)], 1e-8)

    def em_draw(d):
        s = d.sig(d.index[:5])
        return [s, {t: rg.LowRankDiag(F=pd.DataFrame(d.rng.normal(size=(d.n, 2)) * 0.01, index=d.assets), d=pd.Series(d.rng.uniform(1, 3, d.n) * 1e-4, index=d.assets)) for t in s}]

    reg("em", em_draw, lambda a, o: list(rg.em_regularize_covariance(a[0], a[1])), 1e-7)

    def ll_draw(d):
        return [np.array(d.df()), np.stack([v.values for v in d.sig().values()]), d.rng.normal(size=(d.T, d.n)) * 0.001]

    reg("log_likelihood", ll_draw, lambda a, o: eu.log_likelihood(a[0], a[1], a[2], scale=o["scale"]), 1e-8)
    reg("log_likelihood zero mean", ll_draw, lambda a, o: eu.log_likelihood(a[0], a[1]), 1e-8)
    reg("log_likelihood_sequential", ll_draw, lambda a, o: eu.log_likelihood_sequential(a[0], a[1], a[2], scale=o["scale"]), 1e-8)
    reg("log_likelihood_regularized", lambda d: [d.df(), d.sig(), d.df() * 0.1], lambda a, o: eu.log_likelihood_regularized(a[0], a[1], a[2], r=o["r"]), 1e-8)
    reg("log_likelihood_low_rank", lambda d: (lambda s: [d.df(), d.lowrank(rg, s, 2)])(d.sig()), lambda a, o: eu.log_likelihood_low_rank(a[0], a[1]), 1e-8)
    reg("rolling_window", lambda d: [d.df()], lambda a, o: eu.rolling_window(a[0], 7, o["mp"] + 1), 1e-8)
    reg("from_row_matrix", lambda d: [d.rng.normal(size=(4, d.n * (d.n + 1) // 2)), d.n], lambda a, o: eu.from_row_matrix_to_covariance(a[0], a[1]))
    reg("add_to_diagonal", lambda d: [d.sig()], lambda a, o: eu.add_to_diagonal(a[0], 0.05))
    reg("ecdf", lambda d: [d.rng.normal(size=d.T)], lambda a, o: eu.ecdf(a[0]))
    reg("turnover", lambda d: [d.rng.normal(size=(d.T, d.n)) + 0.5], lambda a, o: float(eu.turnover(a[0])))
    reg("MSE", lambda d: [d.df(), d.sig(d.index[:-1])], lambda a, o: eu.MSE(a[0], a[1]))

    def intraday(d):
        x = d.df()
        x.index = d.index[np.arange(d.T) // 3]
        return [x]

    reg("realized_ewma", intraday, lambda a, o: list(eu.realized_ewma(a[0], o["h"])))
    reg("realized_volas", intraday, lambda a, o: list(eu.realized_volas(a[0])))
    reg("vectorised iterated_ewma", lambda d: [d.df()], lambda a, o: ve.iterated_ewma(a[0], o["h"], 2 * o["h"] + 5, o["mp"] + 2, 3, mean=o["mean"], clip_at=o["clip"]))
    reg("low_rank_iterated_ewma", lambda d: [d.df()], lambda a, o: [(x.time, x.mean, x.volatility, x.covariance.F @ x.covariance.F.T + np.diag(x.covariance.d)) for x in lr.low_rank_iterated_ewma(a[0], o["h"], 2 * o["h"] + 5, 1, o["mp"] + 2, 3)], 1e-4)
    reg("predictors", lambda d: [d.df()["a0"], [1, 2, 5], [3, 10]], lambda a, o: [rc.daily_predictors(a[0], a[1]), rc.ewma_predictors(a[0], a[2])])
    reg("feature_engineer", lambda d: [d.df()], lambda a, o: rc.feature_engineer(a[0]))
    reg("ReturnCombinator", lambda d: (lambda x: [x, [rc.ewma_predictors(x[c], [2, 5]).dropna() for c in x]])(d.df()), lambda a, o: rc.ReturnCombinator().fit(a[0], a[1], 5, 1e-3), 1e-6)
    reg("construct_rho", lambda d: [d.df()], lambda a, o: tm.construct_rho(a[0]))

    def trader(a, o):
        pool.SCHEDULE.reset()
        t = tm.Trader(a[0], a[1])
        t.backtest(portfolio_type="min_risk", cons=a[2], additonal_cons=a[3])
        m = t.get_metrics(diluted_with_cash=True, sigma_des=0.1)
        return [t.ws, t.rets, float(m.risk), float(m.mean_return)]

    reg("Trader", lambda d: [d.df().iloc[:5], d.sig(d.index[:5]), [], {"short_lim": 1.6, "upper_bound": 1.2, "lower_bound": -0.4}], trader, 2e-3, 1e-5)
    return E


def options(rng, n):
    return dict(h=int(rng.integers(2, 20)), mp=int(rng.integers(0, 4)), clip=None if rng.random() < 0.5 else float(rng.uniform(1.5, 4)), clip4=None if rng.random() < 0.5 else 4.2, mean=bool(rng.random() < 0.4),
                w=int(rng.integers(1, 8)), r=int(rng.integers(1, n + 1)), scale=float(rng.choice([1.0, 10.0, 100.0])))


def relayout(rng, x, how):
    """a copy of the arguments in another memory layout"""
    if isinstance(x, pd.DataFrame):
        return gen.layout(rng, x.copy(), how)[0]
    if isinstance(x, pd.Series):
        if how == "readonly":
            v = x.values.copy()
            v.flags.writeable = False
            return pd.Series(v, index=x.index, name=x.name, copy=False)
        b = np.full(2 * len(x), 7.0)
        b[::2] = x.values
        return pd.Series(b[::2], index=x.index, name=x.name, copy=False)
    if isinstance(x, np.ndarray):
        if how == "readonly":
            y = x.copy()
            y.flags.writeable = False
            return y
        if how == "F":
            return np.asfortranarray(x.copy())
        y = np.full(tuple(2 * s for s in x.shape), 7.0)
        sl = tuple(slice(None, None, 2) for _ in x.shape)
        y[sl] = x
        return y[sl]
    if isinstance(x, dict):
        return {k: relayout(rng, v, how) for k, v in x.items()}
    if hasattr(x, "_fields"):
        return type(x)(*[relayout(rng, v, how) for v in x])
    if isinstance(x, (list, tuple)):
        return type(x)(relayout(rng, v, how) for v in x)
    return x


def corrupt(rng, x):
    """unusual values in one of the arguments; -> how"""
    leaves = []

    def walk(v):
        if isinstance(v, (pd.DataFrame, pd.Series, np.ndarray)):
            if np.asarray(v).dtype.kind == "f" and np.asarray(v).size:
                leaves.append(v)
        elif isinstance(v, dict):
            for q in v.values():
                walk(q)
        elif isinstance(v, (list, tuple)):
            for q in v:
                walk(q)

    walk(x)
    if not leaves:
        return None
    how = str(rng.choice(["nan", "zero asset", "nan row", "inf", "negative", "zeros", "scale", "indefinite"]))
    many = rng.random() < 0.5
    for v in [leaves[int(k)] for k in rng.permutation(len(leaves))[: 1 + int(rng.integers(0, 3)) if not many else len(leaves)]]:
        a = np.array(np.asarray(v), dtype=float)
        j = int(rng.integers(a.shape[-1]))
        if how == "nan":
            a.flat[int(rng.integers(a.size))] = np.nan
        elif how == "zero asset":
            a[..., j] = 0.0
            if a.ndim >= 2 and a.shape[-1] == a.shape[-2]:
                a[..., j, :] = 0.0
        elif how == "nan row":
            a[int(rng.integers(len(a)))] = np.nan
        elif how == "inf":
            a.flat[int(rng.integers(a.size))] = np.inf
        elif how == "negative":
            a = -a
        elif how == "zeros":
            a[:] = 0.0
        elif how == "indefinite":
            a.flat[0] *= -1
        else:
            a[..., j] *= 1e-9
        b = v if isinstance(v, np.ndarray) else v.values
        if b.flags.writeable:
            b[...] = a
    return how


def pour(src, dst):
    """writes the values of src into the containers of dst (same structure)"""
    if isinstance(dst, pd.DataFrame):
        dst.iloc[:, :] = src.values
    elif isinstance(dst, pd.Series):
        dst.iloc[:] = src.values
    elif isinstance(dst, np.ndarray):
        dst[...] = src
    elif isinstance(dst, dict):
        for k in dst:
            pour(src[k], dst[k])
    elif isinstance(dst, (list, tuple)):
        for s, t in zip(src, dst):
            pour(s, t)


def run(mon, family, rng, i, tier):
    E = registry()
    names = list(E)
    name = names[i % len(names)]
    T, n, K = int(rng.integers(9, 40)) + 20, int(rng.integers(3, 6)), int(rng.integers(2, 4))
    if name.startswith(("from_sigmas", "Trader")):
        T = int(rng.integers(9, 15))
    d = Draw(rng, T, n, K)
    o = options(rng, n)
    mon.describe(function=name, T=T, n=n, options=o)
    mon.event("functions", 1)
    draw, call, rtol, atol, layout = E[name]
    mon.event("fn " + name)

    def out(a):
        mon.event("calls")
        return plain(call(a, o))

    args = draw(d)
    mon.sign(*[v for _, _, v in plain(args)[:30] if v is not None and v.dtype.kind == "f"], repr(o), name)
    if family == "inputs":
        snap, ids = freeze(args)
        first = out(args)
        snap2, ids2 = freeze(args)
        mon.event("snapshots")
        mon.check(ids == ids2, "entries of the arguments replaced", function=name)
        x = differ(snap, snap2, 0)
        mon.check(x is None, "arguments modified", function=name, where=x)
        x = differ(first, out(args), rtol, atol)
        mon.check(x is None, "the same call again gives another result", function=name, where=x)
        # and options such as dictionaries and lists shared between calls
        return
    if family == "hostile":
        how = corrupt(rng, args)
        if how is None:
            return
        mon.describe(corrupted=how)
        snap, ids = freeze(args)
        try:
            out(args)
        except Exception as e:
            mon.event("refused: " + type(e).__name__)
        snap2, ids2 = freeze(args)
        mon.event("hostile snapshots")
        mon.check(ids == ids2, "entries of the arguments replaced", function=name, corrupted=how)
        x = differ(snap, snap2, 0)
        mon.check(x is None, "arguments modified", function=name, where=x, corrupted=how)
        return
    if family == "history":
        fresh = out(copy.deepcopy(args))
        for _ in range(int(rng.integers(2, 6))):
            other = names[int(rng.integers(len(names)))] if rng.random() < 0.5 else name
            if other.startswith(("from_sigmas", "Trader", "from_ewmas")) and T > 20 and other != name:
                other = name
            od = E[other]
            od[1](od[0](d), o if rng.random() < 0.5 else options(rng, n))
            mon.event("calls")
        x = differ(fresh, out(args), rtol, atol)
        mon.event("histories", 3)
        mon.check(x is None, "the result depends on calls made before", function=name, where=x)
        b = draw(d)
        one = out(b)
        x = differ(out(copy.deepcopy(b)), one, rtol, atol)
        mon.check(x is None, "the result depends on calls on data of the same shape and labels", function=name, where=x)
        return
    if family == "reuse":
        new = draw(d)
        out(args)
        try:
            pour(new, args)
        except ValueError:  # a container pandas made read-only
            mon.event("not_poured")
            return
        x = differ(plain(new), plain(args), 0)
        if x is not None:
            mon.event("not_poured")
            return
        got = out(args)
        want = out(copy.deepcopy(new))
        x = differ(want, got, rtol, atol)
        mon.event("reused")
        mon.check(x is None, "new values in the same containers are not seen", function=name, where=x)
        return
    want = out(copy.deepcopy(args))
    for how in (["readonly", "strided"] if rng.random() < 0.5 else ["F", "readonly"]):
        got = out(relayout(rng, args, how))
        x = differ(want, got, max(rtol, 1e-7), atol)
        mon.event("layouts")
        mon.check(x is None, "the result depends on the memory layout", function=name, layout=how, where=x)
