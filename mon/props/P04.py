"""The parts fit together: returns -> predictions -> regularisation -> portfolios is causal, free of units and order, and any predictor of the package can be an expert."""
import copy

import numpy as np
import pandas as pd

from .. import boot, comb, gen, pool, port, ref
from . import E06

PRELOAD = ["experiments.utils.trading_model", "experiments.utils.portfolio_backtests", "experiments.utils.experiment_utils", "experiments.utils.low_rank_ewma", "experiments.utils.iterated_ewma_vec"]
FAMILIES = {"causal": (110, 1200), "units": (40, 500), "experts": (120, 1800), "chain": (50, 600)}
RULE = ("'causal' runs returns -> from_ewmas -> solve(window) -> optional factor regularisation -> a portfolio backtest (own or EWMA/least-squares return predictions for mean-variance), then again with the returns after a random day replaced or cut off, and compares all predictions, weights and trades up to that day (a quarter with missing returns, single iterated EWMAs only); "
        "'units' repeats the chain with the returns in other units, assets in another order, dates and assets renamed; 'chain' judges every prediction and every day's portfolio of the chain against the references from the returns alone; "
        "'experts' feeds 1..4 predictors of the package (iterated EWMAs streaming and vectorised, low-rank and factor models, rolling windows, regularised, EM-fitted, diagonally loaded, earlier blends) and pandas' EWMAs, as they are handed out, to from_sigmas and checks every result against the blending problem.")
NEED = {"oracle": 2500, "predictions": 1200, "same weights": 250, "experts": 100, "results": 400, "futures": 30, "reactions": 10, "portfolios": 100, "kinds": 100, "missing returns": 4, "units compared": 200}
ASSUMPTIONS = ["ECOS is replaced by CLARABEL (days on which CLARABEL gives up are not judged)", "multiprocessing.Pool is replaced by a pickling in-process pool with a random schedule"]


class Cfg:
    def __init__(self, rng, n, T):
        K = int(rng.integers(1, 4))
        self.pairs = [(int(rng.integers(2, 15)), int(rng.integers(6, 40))) for _ in range(K)]
        self.pairs = list(dict.fromkeys(self.pairs))
        self.mpv = int(rng.integers(1, 6))
        self.mpc = int(rng.integers(2 * n + 2, 3 * n + 5))
        self.missing = False
        self.window = int(rng.integers(1, 7))
        self.mean = bool(rng.random() < 0.35)
        self.clip = float(rng.choice([3.0, 4.2])) if rng.random() < 0.3 else None
        self.rank = int(rng.integers(1, n)) if n > 1 and rng.random() < 0.45 else None
        self.diag = float(rng.choice([0.01, 0.1])) if rng.random() < 0.2 else None
        self.cls = str(rng.choice(list(E06.CLASSES)))
        self.ptype = E06.CLASSES[self.cls]
        self.predictor = str(rng.choice(["lags", "ewma", "blend"])) if self.ptype == "mean_variance" else None
        while True:
            self.opt = port.options(rng, self.ptype, n)
            if port.feasible(self.opt, n) and self.opt["additonal_cons"].get("lower_bound", 0) <= 0:
                break

    def desc(self):
        return dict(self.__dict__)


def predict(c, R):
    """times -> results of the chain"""
    co = boot.load("cvx.covariance.combination")
    rg = boot.load("cvx.covariance.regularization")
    eu = boot.load("experiments.utils.experiment_utils")
    if c.missing:
        # (a combination needs complete returns)
        ew = boot.load("cvx.covariance.ewma")
        res = list(ew.iterated_ewma(R, *c.pairs[0], min_periods_vola=c.mpv, min_periods_cov=c.mpc, clip_at=c.clip, mean=c.mean))
    else:
        res = list(co.from_ewmas(R, c.pairs, min_periods_vola=c.mpv, min_periods_cov=c.mpc, clip_at=c.clip, mean=c.mean).solve(window=c.window))
    if any(r is None for r in res):
        return None
    covs = {r.time: r.covariance for r in res}
    blended = dict(covs)
    if c.rank:
        covs = dict(rg.regularize_covariance(covs, c.rank))
    if c.diag:
        covs = eu.add_to_diagonal(covs, c.diag)
    return res, blended, covs


def returns_predicted(c, R):
    """one column per asset, from the predictors of the single assets"""
    rc = boot.load("experiments.utils.return_combination")
    out = []
    for j in range(R.shape[1]):
        x = R.iloc[:, j]
        out.append((rc.daily_predictors(x, [1, 2])[1] if c.predictor == "lags" else rc.ewma_predictors(x, [5, 2])[5]).reindex(R.index).values)
    return pd.DataFrame(np.stack(out, axis=1), index=R.index, columns=R.columns)


class StandIn(Exception):
    """the solver standing in for ECOS gives up (on small volatilities, now and then)"""


def trade(c, R, covs, res, rng):
    import cvxpy

    try:
        return _trade(c, R, covs, res, rng)
    except cvxpy.SolverError as e:
        if "CLARABEL" in str(e):
            raise StandIn() from e
        raise


def _trade(c, R, covs, res, rng):
    pb = boot.load("experiments.utils.portfolio_backtests")
    port.schedule(rng)
    o = copy.deepcopy(c.opt)
    if c.ptype == "mean_variance":
        if c.predictor == "blend":
            mu = pd.DataFrame({r.time: r.mean for r in res}).T
            mu = mu + R.loc[mu.index] * 0.05 if not c.mean else mu
        else:
            # the prediction for a date uses the returns before it; at a date it is the one for the next date
            P = returns_predicted(c, R)
            mu = P.shift(-1)
            mu = mu.fillna(0.0).loc[list(covs)]
        t = pb.MeanVariance(R, [covs], ["x"], [mu]).backtest(additonal_cons=o["additonal_cons"], sigma_tar=o["sigma_des"])["x"]
        return t, mu
    args = dict(additonal_cons=o["additonal_cons"]) if c.ptype in ("min_risk", "max_diverse") else {}
    return getattr(pb, c.cls)(R, [covs], ["x"]).backtest(**args)["x"], None


def sample(rng, tier, extra=0):
    n = int(rng.integers(2, 6))
    T = 4 * n + int(rng.integers(18, 34)) + extra
    while True:
        df, d = gen.frame(rng, tier, T=T, n=n, kinds=["gauss", "factor", "t3", "garch"], scale=float(rng.choice([0.01, 0.02])))
        if df.index.is_unique and df.index.is_monotonic_increasing and np.isfinite(df.values).all():
            v = df.values.std(axis=0)
            if v.max() < 50 * v.min():
                return df, d, n, T


def usable(c, covs, worst=1e6, low=0.0):
    """well conditioned enough for solvers to agree"""
    for S in covs.values():
        x = np.asarray(S.values, float)
        s = np.sqrt(np.diag(x))
        if not np.isfinite(x).all() or not (s > low).all() or np.linalg.cond(x / np.outer(s, s)) > worst:
            return False
    return True


def frames(mon, a, b, tol, what, times, **kw):
    for t in times:
        s = np.sqrt(np.diag(np.asarray(b[t].values, float)))
        mon.event("predictions")
        if not mon.check(list(a[t].index) == list(b[t].index) and list(a[t].columns) == list(b[t].columns), what + ": labels", t=t):
            return False
        if not mon.close(a[t].values / np.outer(s, s), b[t].values / np.outer(s, s), tol, what, t=t, **kw):
            return False
    return True


def same_weights(mon, A, B, what, tol=2e-4, **kw):
    mon.event("same weights", len(A))
    return mon.close(A, B, tol, what, **kw)


# ---------------------------------------------------------------- experts
def sources(rng, R, n, T):
    """name -> {time: DataFrame}, as the package hands them out"""
    ew = boot.load("cvx.covariance.ewma")
    co = boot.load("cvx.covariance.combination")
    rg = boot.load("cvx.covariance.regularization")
    eu = boot.load("experiments.utils.experiment_utils")
    lr = boot.load("experiments.utils.low_rank_ewma")
    ve = boot.load("experiments.utils.iterated_ewma_vec")
    h1, h2 = int(rng.integers(2, 12)), int(rng.integers(8, 40))
    mp = 2 * n + int(rng.integers(1, 4))
    mean = {}

    def stream(h1=h1, m=False):
        out = list(ew.iterated_ewma(R, h1, h2, min_periods_vola=2, min_periods_cov=mp, mean=m))
        return {x.time: x.covariance for x in out}, {x.time: x.mean for x in out}

    def lowrank():
        out = {}
        for x in lr.low_rank_iterated_ewma(R, h1, h2, min_periods_vola=2, min_periods_cov=mp, rank=max(1, n - 2)):
            out[x.time] = x.covariance.F @ x.covariance.F.T + np.diag(x.covariance.d)
        return out

    def factor_form(S):
        return {t: x.F @ x.F.T + np.diag(x.d) for t, x in S.items()}

    def pandas_ewm():
        e = R.ewm(halflife=h2, min_periods=mp + 1).cov().dropna()
        return {t: e.loc[t] for t in e.index.get_level_values(0).unique()}

    def blend():
        return {x.time: x.covariance for x in co.from_ewmas(R, [(h1, h2), (h1 + 4, h2 + 11)], min_periods_vola=2, min_periods_cov=mp).solve(window=4)}

    out = {
        "stream": lambda: stream()[0],
        "stream with means": lambda: stream(h1 + 2, True),
        "vectorised": lambda: ve.iterated_ewma(R, h1, h2, min_periods_vola=2, min_periods_cov=mp),
        "vectorised with means": lambda: (lambda x: (x.covariance, x.mean))(ve.iterated_ewma(R, h1 + 1, h2, min_periods_vola=2, min_periods_cov=mp, mean=True)),
        "rolling": lambda: eu.rolling_window(R, memory=2 * n + 6 + int(rng.integers(0, 20)), min_periods=mp),
        "pandas": pandas_ewm,
        "blend": blend,
    }
    if n > 1:
        r = int(rng.integers(1, n))
        out["low rank stream"] = lowrank
        out["regularised"] = lambda: dict(rg.regularize_covariance(stream()[0], r))
        out["factor form"] = lambda: factor_form(dict(rg.regularize_covariance(stream()[0], r, low_rank_format=True)))
        out["loaded"] = lambda: eu.add_to_diagonal(eu.rolling_window(R, memory=40, min_periods=mp), 0.1)
        if n > 2:
            out["em"] = lambda: (lambda S: factor_form(dict(rg.em_regularize_covariance(S, dict(rg.regularize_covariance(S, 1, low_rank_format=True))))))(stream()[0])
    return out


def experts(mon, rng, tier):
    co = boot.load("cvx.covariance.combination")
    n = 1 if rng.random() < 0.08 else int(rng.integers(2, 6))
    T = 3 * n + int(rng.integers(12, 28))
    df, d = gen.frame(rng, tier, T=T, n=n, kinds=["gauss", "factor", "t3", "garch", "regime", "trend"], scale=float(10 ** rng.uniform(-3, 1)))
    if not df.index.is_unique or not np.isfinite(df.values).all() or not (df.values.std(axis=0) > 0).all() or ((df.values == 0).any(axis=0)).any():
        mon.event("undecided")
        return
    src = sources(rng, df, n, T)
    K = int(rng.integers(1, 5))
    names = [str(x) for x in rng.choice(list(src), size=min(K, len(src)), replace=False)]
    keep = df.copy()
    keys, _ = comb.keys(rng, len(names))
    sig, mu = {}, {}
    for k, nm in zip(keys, names):
        got = src[nm]()
        if isinstance(got, tuple):
            got, mu[k] = got
        sig[k] = got
        mon.event("experts")
        mon.event("kinds")
        mon.event("kind " + nm)
    if rng.random() < 0.5 and mu:
        for k in keys:
            mu.setdefault(k, {t: pd.Series(0.0, index=df.columns) for t in sig[k]})
        if any(set(mu[k]) != set(sig[k]) for k in keys):
            mon.fail("means and covariances of a predictor have the same times")
            return
    else:
        mu = None
    mon.describe(frame=d, experts=names, means=mu is not None, keys=keys)
    mon.sign(df.values, repr(names))
    for k in keys:
        if not usable(None, sig[k], 1e8):
            mon.event("undecided")
            return
    try:
        CR = ref.CombRef(sig, df, mu)
    except np.linalg.LinAlgError:
        mon.event("undecided")
        return
    CR.gaptol = 1e-5
    if len(CR.times) < 2:
        mon.event("undecided")
        return
    w = comb.window(rng, len(CR.times) - 1)
    before = E06.frozen([sig])
    c = co.from_sigmas(sig, df) if mu is None else co.from_sigmas(sig, df, means=mu)
    out = list(c.solve(window=w))
    want = CR.result_times(w)
    if not mon.check(len(out) == len(want), "one result per time the experts have in common", got=len(out), want=len(want), experts=names, window=w):
        return
    for r, t in zip(out, want):
        ref.check_result(mon, CR, r, t, w, tag="")
    mon.check(E06.frozen([sig]) == before and df.equals(keep), "predictors and returns are left as they were", experts=names)


# ---------------------------------------------------------------- the chain
def run(mon, family, rng, i, tier):
    try:
        return experts(mon, rng, tier) if family == "experts" else whole(mon, family, rng, i, tier)
    except StandIn:
        mon.event("stand-in solver gave up")


def whole(mon, family, rng, i, tier):
    df, d, n, T = sample(rng, tier)
    c = Cfg(rng, n, T)
    missing = c.missing = family == "causal" and rng.random() < 0.35
    if missing:
        X = df.values.copy()
        X[8:][rng.random(X[8:].shape) < rng.uniform(0.01, 0.08)] = np.nan
        gap = int(rng.integers(c.mpv + c.mpc + 1, T - 2))
        X[gap, int(rng.integers(n))] = np.nan
        c.mean = bool(rng.random() < 0.6)
        df = pd.DataFrame(X, index=df.index, columns=df.columns)
        mon.event("missing returns")
    mon.describe(frame=d, **c.desc())
    mon.sign(np.nan_to_num(df.values), repr(c.desc()))
    keep = df.copy()
    got = predict(c, df)
    if got is None:
        mon.fail("None without a solver failure")
        return
    res, blended, covs = got
    first = c.mpv + c.mpc - 1 + c.window - 1
    times = [r.time for r in res]
    if not mon.check(times == list(df.index[len(df) - len(times) :]) and len(times) >= 3, "predictions reach to the end of the sample", n=len(times), T=T):
        return
    if not usable(c, covs, low=1e-3):
        mon.event("undecided")
        return
    pos = {t: k for k, t in enumerate(df.index)}
    if not missing:
        tr, mu = trade(c, df, covs, res, rng)
        W = np.array(tr.ws, float)
        traded = list(tr.returns.index)
        if not mon.check(traded == times[:-1] and len(W) == len(traded), "one trade per prediction but the last", got=len(traded), want=len(times) - 1):
            return
        for k, t in enumerate(traded):
            if not mon.check(np.array_equal(tr.returns.values[k], df.values[pos[t] + 1]), "the trade made with the prediction at t earns the return of t+1", t=t):
                return
    mon.check(df.equals(keep), "returns are left as they were")
    if family == "causal":
        k = int(rng.integers(1, len(times) - 1))
        t = times[k]
        if missing and rng.random() < 0.6:
            t = df.index[gap]  # the day of a missing return
        p = pos[t]
        X = df.values.copy()
        how = str(rng.choice(["replaced", "outlier", "cut", "zero", "constant"]))
        if how == "replaced":
            X[p + 1 :] = rng.normal(size=X[p + 1 :].shape) * np.nanstd(X) * float(rng.choice([0.3, 3]))
        elif how == "outlier":
            X[p + 1] = X[p + 1] * 50
        elif how == "zero":
            X[p + 1 :] = 0.0
        elif how == "constant":
            X[p + 1 :] = X[p]
        R2 = pd.DataFrame(X, index=df.index, columns=df.columns)
        if how == "cut":
            R2 = R2.iloc[: p + 2]
        mon.event("futures")
        mon.describe(future=how, after=t)
        got2 = predict(c, R2)
        if got2 is None:
            mon.event("other future unsolved")
            return
        res2, blended2, covs2 = got2
        have = [x for x in times if pos[x] <= p]
        if not mon.check([x for x in covs2 if pos[x] <= p] == have, "later returns decide which predictions there are", future=how):
            return
        frames(mon, blended2, blended, 1e-6, "later returns change a prediction", have, future=how)
        frames(mon, covs2, covs, 1e-6, "later returns change a regularised prediction", have, future=how)
        m1, m2 = {r.time: r for r in res}, {r.time: r for r in res2}
        for x in have:
            if not missing:
                mon.close(m2[x].weights.values, m1[x].weights.values, 1e-6, "later returns change the experts' weights", t=x)
            s = np.sqrt(np.diag(blended[x].values))
            mon.close(np.asarray(m2[x].mean, float) / s, np.asarray(m1[x].mean, float) / s, 1e-6, "later returns change a predicted mean", t=x)
        if not missing and usable(c, covs2, worst=3e3, low=2e-3):
            tr2, mu2 = trade(c, R2, covs2, res2, rng)
            ids = list(tr2.returns.index)
            m = sum(pos[x] <= p for x in ids)
            if mon.check(ids[:m] == traded[:m] and (m == len(have) or how == "cut"), "later returns change which trades there are", future=how):
                same_weights(mon, np.array(tr2.ws, float)[:m], W[:m], "later returns change earlier portfolios", future=how, cls=c.cls)
                mon.check(np.array_equal(tr2.returns.values[: m - 1], tr.returns.values[: m - 1]), "later returns change earlier gains")
        # the prediction does use the return of its own day
        if not missing and c.clip is None and p > c.mpv + c.mpc:
            X = df.values.copy()
            X[p] = X[p] + 15 * X.std(axis=0) * rng.choice([-1, 1], n)
            got3 = predict(c, pd.DataFrame(X, index=df.index, columns=df.columns).iloc[: p + 1])
            if got3 is not None:
                a, b = np.diag(got3[1][t].values), np.diag(blended[t].values)
                mon.event("reactions")
                mon.check((a > 1.01 * b).any() or np.abs(np.log(a / b)).max() > 0.01, "the prediction at t uses the return at t", ratio=a / b, t=t)
    elif family == "units":
        s = float(2.0 ** rng.choice([-12, -8, -2, -1, 1, 2, 8, 12]))
        perm = rng.permutation(n)
        index = pd.RangeIndex(5, 5 + len(df)) if rng.random() < 0.4 else df.index
        cols = [f"q{j}" for j in rng.permutation(n)] if rng.random() < 0.4 else list(df.columns[perm])
        R2 = pd.DataFrame(df.values[:, perm] * s, index=index, columns=cols)
        back = dict(zip(index, df.index))
        c2 = copy.copy(c)
        c2.opt = dict(c.opt)
        if "sigma_des" in c2.opt:
            c2.opt["sigma_des"] = c.opt["sigma_des"] * s
        mon.event("futures")
        mon.describe(units=s, order=perm)
        got2 = predict(c2, R2)
        if got2 is None:
            mon.fail("in other units there is no result")
            return
        res2, _, covs2 = got2
        if not mon.check([back[r.time] for r in res2] == times, "units or names decide which predictions there are"):
            return
        for r, r2 in zip(res, res2):
            mon.event("predictions")
            C, C2 = covs[r.time].values[np.ix_(perm, perm)], covs2[r2.time].values
            v = np.sqrt(np.diag(C))
            mon.check(list(covs2[r2.time].columns) == cols and list(covs2[r2.time].index) == cols, "labels follow the returns")
            g = np.abs(np.asarray(r.weights, float) - np.asarray(r2.weights, float)).max()
            if g < 1e-6:
                mon.event("units compared")
                mon.close(C2 / s**2 / np.outer(v, v), C / np.outer(v, v), 1e-5, "covariances scale with the square of the units and follow the assets", t=r.time)
            else:
                mon.event("solver differences")
        if c.ptype == "mean_variance" or not 0.2 < s < 5:
            return  # (optima need not be unique, and solvers' tolerances are absolute)
        # the same predictions, in the other units: portfolios do not change
        exact = {r2.time: pd.DataFrame(covs[r.time].values[np.ix_(perm, perm)] * s**2, index=cols, columns=cols) for r, r2 in zip(res, res2)}
        tr2, _ = trade(c2, R2, exact, res2, rng)
        same_weights(mon, np.array(tr2.ws, float), W[:, perm], "portfolios do not depend on units, names and order", tol=1e-3, cls=c.cls)
    else:
        # every step against the references, from the returns alone
        IR = [ref.IewmaRef(df.values, a, b, min_periods_vola=c.mpv, min_periods_cov=c.mpc, mean=c.mean, clip_at=c.clip) for a, b in c.pairs]
        if any(x.und.any() for x in IR):
            mon.event("undecided")
            return
        sig, mean = {}, {}
        for key, x in zip(range(len(IR)), IR):
            sig[key], mean[key] = {}, {}
            for q in range(len(x.rows)):
                row, m, S, v = x.at(q)
                sig[key][df.index[row]] = pd.DataFrame(S, index=df.columns, columns=df.columns)
                mean[key][df.index[row]] = m
        CR = ref.CombRef(sig, df, mean if c.mean else None)
        CR.gaptol = 1e-5
        want = CR.result_times(c.window)
        if not mon.check(times == want, "predictions from warm-ups and window on", got=len(times), want=len(want)):
            return
        for r in res:
            mon.event("predictions")
            A, P = CR.data(r.time, c.window)
            w = np.asarray(r.weights, float)
            g = CR.subopt(A, P, w)
            mon.check(abs(w.sum() - 1) < ref.SUM and w.min() > -ref.NEG and g <= CR.allow(A, P, w), "the blend is the likelihood maximiser over the window", gap=g, t=r.time)
            m0, C0 = CR.blend(r.time, w)
            v = np.sqrt(np.diag(C0))
            mon.close(r.covariance.values / np.outer(v, v), C0 / np.outer(v, v), 1e-6, "blended covariance from the returns alone", t=r.time)
            mon.close(np.asarray(r.mean, float) / v, m0 / v, 1e-6, "blended mean from the returns alone", t=r.time)
            C = C0
            if c.rank:
                lam, Q = np.linalg.eigh(C / np.outer(v, v))
                if lam[-c.rank] - lam[-c.rank - 1] < 1e-3:
                    mon.event("close eigenvalues")
                    continue
                lo = (Q[:, -c.rank :] * lam[-c.rank :]) @ Q[:, -c.rank :].T
                np.fill_diagonal(lo, 1.0)
                C = lo * np.outer(v, v)
            if c.diag:
                C = C + c.diag * np.diag(np.diag(C))
            mon.close(covs[r.time].values / np.outer(v, v), C / np.outer(v, v), 1e-5, "leading factors plus diagonal of the blend", t=r.time)
            if r.time in traded:
                k = traded.index(r.time)
                if c.ptype == "mean_variance":
                    m = np.asarray(mu.loc[r.time], float)
                    if c.predictor == "lags":
                        mon.close(m, df.values[pos[r.time]], 1e-12, "the lagged prediction made at t is the return at t", t=r.time)
                    if (m <= 0).all():
                        continue
                else:
                    m = None
                port.judge(mon, c.ptype, c.opt, C, np.sqrt(np.diag(C)), W[k], mu=m, tag="chain: ", t=r.time)
        # and what the portfolios earned
        earned = np.array([W[k][:n] @ df.values[pos[t] + 1] for k, t in enumerate(traded)])
        tr.get_total_returns()
        tot = np.asarray(tr.rets, float).ravel()
        met = tr.get_metrics()
        mon.close(float(met.mean_return), earned.mean() * 252, 1e-8 * (np.abs(earned).mean() * 252) + 1e-12, "mean return of the chain")
        mon.close(float(met.risk), earned.std() * np.sqrt(252), 1e-6 * earned.std() * np.sqrt(252) + 1e-9, "risk of the chain")
        mon.close(tot, earned, 1e-10 + 1e-10 * np.abs(earned), "what the chain earned")
