H = '''
import numpy as np, pandas as pd, sys, os, types, pickle, collections, multiprocessing
import cvxpy as cp
# solvers and packages that are not installed, and the pool of processes, replaced by stand-ins
_solve, _have = cp.Problem.solve, set(cp.installed_solvers())
def solve(self, *a, **k):
    if k.get("solver") is not None and k["solver"] not in _have:
        k["solver"] = "CLARABEL"
    try:
        return _solve(self, *a, **k)
    finally:
        self._solver_cache.clear()
cp.Problem.solve = solve
class Pool:
    def __init__(self, *a, **k): pass
    def starmap(self, f, tasks, chunksize=None):
        return [pickle.loads(pickle.dumps(g(*t))) for g, t in (pickle.loads(pickle.dumps((f, t))) for t in tasks)]
    def map(self, f, tasks, chunksize=None):
        return self.starmap(f, [(t,) for t in tasks])
    def close(self): pass
    def join(self): pass
    def terminate(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
multiprocessing.Pool = Pool
linalg = types.ModuleType("cvx.linalg")
def pca(returns, n_components=10, **k):
    V = np.linalg.svd(returns.values, full_matrices=False)[2][:n_components]
    V = V * np.sign(V[np.arange(len(V)), np.abs(V).argmax(axis=1)])[:, None]
    E = pd.DataFrame(V, columns=returns.columns)
    return collections.namedtuple("PCA", ["exposure", "factors"])(E, pd.DataFrame(returns.values @ V.T, index=returns.index))
linalg.pca = pca
sys.modules["cvx.linalg"] = linalg
rng = np.random.default_rng(0)
def frame(T, n, scale=0.01):
    return pd.DataFrame(rng.standard_normal((T, n)) * scale, index=pd.date_range("2020-01-01", periods=T), columns=[f"a{i}" for i in range(n)])
def gauss(r, S, m):
    e = r - m
    return -0.5 * (len(r) * np.log(2 * np.pi) + np.linalg.slogdet(S)[1] + e @ np.linalg.solve(S, e))
def cov(n, s=1.0):
    X = rng.standard_normal((4 * n, n)) * s
    return X.T @ X / len(X)
'''
U = "experiments/utils/experiment_utils.py"
IV = "experiments/utils/iterated_ewma_vec.py"
LR = "experiments/utils/low_rank_ewma.py"
RC = "experiments/utils/return_combination.py"
TM = "experiments/utils/trading_model.py"
PB = "experiments/utils/portfolio_backtests.py"
FM = "experiments/utils/factor_model.py"
CC = "experiments/utils/ccp_regularize.py"

bug("E01-means-unscaled", "E01",
    [(U, "    means = means * scale\n    Sigmas = Sigmas * scale**2\n\n    ll = np.zeros(T)", "    means = means * min(scale, 100)\n    Sigmas = Sigmas * scale**2\n\n    ll = np.zeros(T)")],
    H + '''
from experiments.utils.experiment_utils import log_likelihood_sequential
S = cov(3); r = rng.standard_normal((4, 3)); m = rng.standard_normal((4, 3))
got = log_likelihood_sequential(r, np.stack([S] * 4), m, scale=1000.0)
np.testing.assert_allclose(np.ravel(got), [gauss(1000 * r[t], 1e6 * S, 1000 * m[t]) for t in range(4)], rtol=1e-8)
''', "the sequential log-likelihood with means and a scale above 100", "means are not rescaled with the returns")
bug("E01-means-position", "E01",
    [(U, "        if not returns.loc[time].isna().iloc[0]:\n            if means is not None:\n                m = means.loc[time].values.reshape(-1, 1)\n            ll.append(", "        if not returns.loc[time].isna().iloc[0]:\n            if means is not None:\n                m = means.iloc[len(times)].values.reshape(-1, 1)\n            ll.append(")],
    H + '''
from experiments.utils.experiment_utils import log_likelihood_low_rank
from cvx.covariance.regularization import LowRankDiag
r = frame(20, 3, 1.0); mu = frame(20, 3, 1.0)
f = pd.DataFrame(np.ones((3, 1)), index=r.columns); d = pd.Series(np.ones(3), index=r.columns)
S = {t: LowRankDiag(F=f, d=d) for t in r.index[5:]}
out = log_likelihood_low_rank(r, S, means=mu)
for t, v in out.items():
    nxt = r.index[list(r.index).index(t) + 1]
    np.testing.assert_allclose(v, gauss(r.loc[nxt].values, np.ones((3, 3)) + np.eye(3), mu.loc[t].values), rtol=1e-8)
''', "means given for more (earlier) times than the predictions", "means are taken by position instead of by time")
bug("E02-window-one-too-long", "E02",
    [(U, "        if t >= memory:\n", "        if t > memory:\n")],
    H + '''
from experiments.utils.experiment_utils import rolling_window
r = frame(30, 2)
out = rolling_window(r, memory=5, min_periods=5)
for i in range(5, 30):
    x = r.values[i - 4 : i + 1]
    np.testing.assert_allclose(out[r.index[i]].values, x.T @ x / 5, atol=1e-12)
''', "more returns than the memory", "the oldest return at the moment the window fills is never removed")
bug("E02-min-periods-memory", "E02",
    [(U, "    min_periods = max(min_periods, 1)\n", "    min_periods = min(max(min_periods, 1), memory)\n")],
    H + '''
from experiments.utils.experiment_utils import rolling_window
r = frame(30, 2)
assert list(rolling_window(r, memory=5, min_periods=20)) == list(r.index[19:])
''', "a memory shorter than min_periods", "results start when the memory is full rather than after min_periods returns")
bug("E03-unit-diagonal-lost", "E03",
    [(LR, "            np.ones((n, 1))\n            + d * (scale**2)\n", "            np.ones((n, 1))\n            + d * (scale**2) * (rank > 1)\n")],
    H + '''
from experiments.utils.low_rank_ewma import low_rank_iterated_ewma, _low_rank_sum
F = rng.standard_normal((4, 1)); d = np.abs(rng.standard_normal(4)); r = rng.standard_normal(4)
o = _low_rank_sum(F, d, r)
np.testing.assert_allclose((o.F ** 2).sum(1) + o.d, (F ** 2).sum(1) + d + r ** 2, rtol=1e-8)
''', "rank one", "with one factor the accumulated idiosyncratic variance is forgotten at each update", checks=[])
bug("E03-mean-shared", "E03",
    [(LR, "            m = scale_mean(\n                vola=vola.loc[t].values, vec1=returns_mean.loc[t], vec2=adj_mean.loc[t]\n            )\n", "            m = scale_mean(\n                vola=vola.loc[t].values,\n                vec1=returns_mean.loc[t],\n                vec2=adj_mean.loc[t] if mu_halflife2 >= mu_halflife1 else adj_mean.shift(1).fillna(0.0).loc[t],\n            )\n")],
    H + '''
from experiments.utils.low_rank_ewma import low_rank_iterated_ewma
from cvx.covariance.ewma import iterated_ewma
r = frame(60, 4)
a = list(low_rank_iterated_ewma(r, 20, 5, 2, 5, 5, mean=True)); b = list(iterated_ewma(r, 20, 5, 5, 5, mean=True))
np.testing.assert_allclose(a[-1].mean.values, b[-1].mean.values, rtol=1e-8)
''', "mean estimation with a covariance half-life shorter than the volatility half-life", "the second-stage mean is lagged by one period")
bug("E04-linearisation-kept", "E04",
    [(CC, "        self.Gk_par.value = self.Gk.copy()\n", "        if not hasattr(self, \"started\"):\n            self.started = True\n            self.Gk_par.value = self.Gk.copy()\n")],
    H + '''
from experiments.utils.ccp_regularize import _State
S = cov(4); F = 0.5 * rng.standard_normal((4, 1)); d = np.ones(4)
a = _State(S, F, d); a.construct_problem(); a.iterate(); F1, d1 = a.build(); a.iterate()
b = _State(S, F1, d1); b.construct_problem(); b.iterate()
assert abs(a.objective() - b.objective()) < 1e-5, (a.objective(), b.objective())
''', "a second iteration", "the linearisation point is not updated after the first iteration")
bug("E04-proximal-diag", "E04",
    [(CC, "        Lamda = np.linalg.cholesky(\n            np.linalg.inv(np.eye(self.rank) - self.Gk.T @ (e_inv * self.Gk))\n        )\n        F = e_inv * (self.Gk @ Lamda)\n        d = e_inv.flatten()\n\n        return F, d\n\n\nclass _State2",
          "        Lamda = np.linalg.cholesky(\n            np.linalg.inv(np.eye(self.rank) - self.Gk.T @ (e_inv * self.Gk))\n        ).T\n        F = e_inv * (self.Gk @ Lamda)\n        d = e_inv.flatten()\n\n        return F, d\n\n\nclass _State2")],
    H + '''
from experiments.utils.ccp_regularize import _State
S = cov(5); F = rng.standard_normal((5, 2)); d = np.ones(5)
F1, d1 = _State(S, F, d).build()
np.testing.assert_allclose(F1 @ F1.T + np.diag(d1), F @ F.T + np.diag(d), rtol=1e-7)
''', "rank two or more with correlated factors (rank one and orthogonal loadings are unaffected)", "the Cholesky factor is transposed when the factor form is rebuilt")
bug("E05-window-includes-today", "E05",
    [(RC, "            t_start = times[max(0, t - memory)]\n            t_end = times[t - 1]\n", "            t_start = times[max(0, t - memory)]\n            t_end = times[t - 1] if t < len(times) - 1 else times[t]\n")],
    H + '''
from experiments.utils.return_combination import ReturnCombinator, ewma_predictors
r = frame(40, 2)
P = [ewma_predictors(r[c], [1, 5]) for c in r.columns]
r1 = r.iloc[1:]
a, _ = ReturnCombinator().fit(r1, P, 10, 0.1)
r2 = r1.copy(); r2.iloc[-1] *= 5
b, _ = ReturnCombinator().fit(r2, P, 10, 0.1)
np.testing.assert_allclose(a.iloc[-1].values, b.iloc[-1].values, rtol=1e-9)
''', "the last time of the sample", "the combination for the last time also uses the return of that time")
bug("E05-decay-not-reversed", "E05",
    [(RC, "        decay_weights = decay_weights[::-1]\n        b = decay_weights.reshape(-1, 1)", "        b = decay_weights.reshape(-1, 1)")],
    H + '''
from experiments.utils.return_combination import ReturnCombinator, ewma_predictors
r = frame(60, 1); P = ewma_predictors(r.iloc[:, 0], [1, 5])
_, w = ReturnCombinator().fit(r.iloc[1:], [P], 40, 0.0)
w = w[0]; t = P.index[-1]; i = len(P) - 1
X = P.values[i - 40 : i]; y = r.iloc[1:].iloc[i - 40 : i, 0].values
q = 0.5 ** (np.arange(40)[::-1] / 500)
np.testing.assert_allclose(w.loc[t].values, np.linalg.solve((X.T * q) @ X, (X.T * q) @ y), rtol=1e-6)
''', "any memory (the effect is small: a half-life of 500 days)", "old observations get the larger weights")
bug("E06-gap-days-dropped", "E06",
    [(PB, "    returns_temp = returns.loc[start_date:end_date].shift(-1).dropna()", "    returns_temp = returns.loc[[t for t in Sigmas if start_date <= t <= end_date]].shift(-1).dropna()")],
    H + '''
from experiments.utils.portfolio_backtests import _get_causal
r = frame(10, 2)
S = {t: pd.DataFrame(np.eye(2)) for t in r.index[3:]}
S.pop(r.index[6])
a = None
try:
    a, _ = _get_causal(r, S, r.index[3], r.index[-1])
except KeyError:
    sys.exit(0)
# a day without a prediction must not be skipped silently: the trade at t earns the next day's return
for t in a.index:
    np.testing.assert_allclose(a.loc[t].values, r.values[list(r.index).index(t) + 1])
''', "a covariance predictor that has no prediction at some time inside the period", "a trade earns the return of the next predicted day instead of the next day")
bug("E06-defaults-shared", "E06",
    [(TM, "        self.additonal_cons = additonal_cons\n", "        additonal_cons.setdefault(\"upper_bound\", 1.0)\n        self.additonal_cons = dict(additonal_cons)\n")],
    H + '''
from experiments.utils.trading_model import Trader
r = frame(3, 3); S = {t: pd.DataFrame(cov(3)) for t in r.index}
c = {"lower_bound": -0.5}
Trader(r, S).backtest("min_risk", additonal_cons=c)
assert c == {"lower_bound": -0.5}, c
''', "constraints without an upper bound that the caller goes on using", "the caller's dictionary of constraints gets a default upper bound")
bug("E06-parameter-state", "E06",
    [(TM, "        L_inv_param.value = L_inv\n        if sigma_param is not None and sigma is not None:\n            sigma_param.value = sigma\n", "        L_inv_param.value = L_inv\n        if sigma_param is not None and sigma_param.value is None:\n            sigma_param.value = sigma\n")],
    H + '''
from experiments.utils.trading_model import Trader
r = frame(6, 3); S = {t: pd.DataFrame(cov(3) * (1 + 5 * i) * np.outer([1, 1 + i, 1], [1, 1 + i, 1])) for i, t in enumerate(r.index)}
tr = Trader(r, S); tr.backtest("robust_min_risk", additonal_cons={}, kappa=1.0)
last = Trader(r.iloc[-1:], {r.index[-1]: S[r.index[-1]]}); last.backtest("robust_min_risk", additonal_cons={}, kappa=1.0)
np.testing.assert_allclose(tr.ws[-1], last.ws[0], atol=1e-3)
''', "the robust portfolio on a day whose volatilities differ from the first day's", "the robustness penalty keeps the first day's volatilities", checks=["E07"])
bug("E07-meanvar-lower-bound", "E07",
    [(TM, "                    cons += [w[:-1] >= additonal_cons[\"lower_bound\"]]", "                    cons += [w[:-1] >= min(additonal_cons[\"lower_bound\"], 0)]")],
    H + '''
from experiments.utils.trading_model import Trader
r = frame(4, 3); S = {t: pd.DataFrame(cov(3) * 1e-4) for t in r.index}
tr = Trader(r, S, r_hats=frame(4, 3)); tr.r_hats = pd.DataFrame(-np.abs(rng.standard_normal((4, 3))), index=r.index, columns=r.columns)
tr.backtest("mean_variance", sigma_des=0.5, additonal_cons={"lower_bound": 0.1, "upper_bound": 1.0})
assert (tr.ws[:, :-1] >= 0.1 - 1e-4).all(), tr.ws
''', "a positive lower bound (minimum holdings) in the mean-variance backtest", "a positive lower bound is ignored for mean-variance portfolios")
bug("E07-maxdiverse-bound", "E07",
    [(TM, "            cons = [z >= 0, z <= M * cp.sum(z), sigma_param.T @ z == 1]", "            cons = [z >= 0, z <= max(M, 2 / self.n) * cp.sum(z), sigma_param.T @ z == 1]")],
    H + '''
from experiments.utils.trading_model import Trader
S0 = np.eye(4) + 0.9 * (np.ones((4, 4)) - np.eye(4)); S0[0, 1:] = S0[1:, 0] = -0.3
r = frame(3, 4); S = {t: pd.DataFrame(S0) for t in r.index}
tr = Trader(r, S); tr.backtest("max_diverse", additonal_cons={"upper_bound": 0.3})
assert (tr.ws <= 0.3 + 1e-4).all(), tr.ws
''', "an upper bound below 2/n that binds", "tight upper bounds are loosened in the maximum diversification portfolio")
bug("E07-sharpe-short", "E07",
    [(TM, "            cons = [z >= 0, r_hat_param.T @ z == 1]", "            cons = [cp.sum(z) >= 0, r_hat_param.T @ z == 1] if self.n > 4 else [z >= 0, r_hat_param.T @ z == 1]")],
    H + '''
from experiments.utils.trading_model import Trader
r = frame(4, 6); S = {t: pd.DataFrame(cov(6)) for t in r.index}
m = pd.DataFrame(np.where(np.arange(6) % 2, 0.5, 0.01) * np.ones((4, 1)), index=r.index, columns=r.columns)
tr = Trader(r, S, r_hats=m); tr.backtest("max_sharpe")
assert (tr.ws >= -1e-5).all(), tr.ws
''', "maximum Sharpe with five or more assets where the unconstrained optimum is short in some", "the long-only constraint is lost for larger universes")
bug("E08-drawdown-from-start", "E08",
    [(TM, "            if V > peak:\n                peak = V\n            dd = (peak - V) / peak\n            if dd > max_dd:\n                max_dd = dd\n", "            dd = (peak - V) / peak\n            if dd > max_dd:\n                max_dd = dd\n            elif V > peak:\n                peak = V if max_dd == 0 else max(peak, (peak + V) / 2)\n")],
    H + '''
from experiments.utils.trading_model import Trader
r = pd.DataFrame([[0.0], [-0.1], [0.5], [-0.3]], index=pd.date_range("2020", periods=4)); S = {t: pd.DataFrame([[1.0]]) for t in r.index}
tr = Trader(r, S); tr.backtest("eq_weighted"); tr.get_total_returns(); tr.get_portfolio_growth()
assert abs(tr.compute_max_drawdown() - 0.3) < 1e-9, tr.compute_max_drawdown()
''', "a new peak after an earlier drawdown", "peaks that follow a first drawdown are only half recognised")
bug("E08-rf-zero", "E08",
    [(TM, "                if rf is None:\n                    r_t = np.vstack([r_t, 0])", "                if rf is None or not (rf.iloc[t] > 0):\n                    r_t = np.vstack([r_t, 0])")],
    H + '''
from experiments.utils.trading_model import Trader
r = frame(4, 2); S = {t: pd.DataFrame(cov(2, 1e-4)) for t in r.index}
tr = Trader(r, S); tr.backtest("eq_weighted")
rf = pd.Series([-0.01] * 4, index=r.index)
tr.get_total_returns(diluted_with_cash=True, sigma_des=0.1, rf=rf)
want = [tr.ws_diluted[i] @ np.append(r.values[i], -0.01) for i in range(4)]
np.testing.assert_allclose(tr.rets.flatten(), want, rtol=1e-9)
''', "a negative risk-free rate", "cash earns zero instead of a negative risk-free rate")
bug("E08-stale-dilution", "E08",
    [(TM, "        # new weights, not diluted yet\n        self.diluted = False\n", ""),
     (TM, "        self.portfolio_type = portfolio_type\n        self.adjust_factor = adjust_factor\n", "        self.diluted = self.diluted and portfolio_type == getattr(self, \"portfolio_type\", None)\n        self.portfolio_type = portfolio_type\n        self.adjust_factor = adjust_factor\n")],
    H + '''
from experiments.utils.trading_model import Trader
r = frame(4, 3); S = {t: pd.DataFrame(cov(3)) for t in r.index}
tr = Trader(r, S)
tr.backtest("min_risk", additonal_cons={}); tr.get_metrics(diluted_with_cash=True)
tr.backtest("min_risk", additonal_cons={"lower_bound": 0.3}); a = tr.get_metrics(diluted_with_cash=True)
t2 = Trader(r, S); t2.backtest("min_risk", additonal_cons={"lower_bound": 0.3}); b = t2.get_metrics(diluted_with_cash=True)
np.testing.assert_allclose(a, b, rtol=1e-6)
''', "two backtests of the same type with different constraints on one trader, metrics with cash after each", "the cash-diluted weights of the previous backtest are reused")
bug("E09-clip-onset", "E09",
    [(IV, "        if t >= min_periods + 2:\n", "        if t >= min_periods + 1:\n")],
    H + '''
from experiments.utils.iterated_ewma_vec import iterated_ewma as vec
from cvx.covariance.ewma import iterated_ewma
r = frame(60, 3); r.iloc[5] *= 20
a = vec(r, 10, 20, 5, 5, clip_at=2.0); b = {x.time: x.covariance for x in iterated_ewma(r, 10, 20, 5, 5, clip_at=2.0)}
np.testing.assert_allclose(a[r.index[-1]].values, b[r.index[-1]].values, rtol=1e-6)
''', "clipping with an outlier exactly at the end of the volatility warm-up", "winsorisation starts one observation early in the vectorised estimator", checks=[])
bug("E09-rank-truncation", "E09",
    [(IV, "    Lamda = Lamda[:, ::-1]\n    Q = Q[:, :, ::-1]\n", "    order = np.argsort(-Lamda[0])\n    Lamda = np.abs(Lamda)[:, order]\n    Q = Q[:, :, order]\n    Q_sign = np.sign(np.sum(Q, axis=1, keepdims=True))\n    Q = Q * np.where(Q_sign == 0, 1, Q_sign)\n    if R.shape[0] > 1:\n        Lamda = Lamda * (np.linalg.cond(R) < 1e6).reshape(-1, 1)\n")],
    H + '''
from experiments.utils.iterated_ewma_vec import iterated_ewma as vec
r = frame(30, 4); r["a1"] = r["a0"] + 1e-5 * r["a1"]
a = vec(r, 10, 20, 5, 5, low_rank=2)[r.index[-1]].values; b = vec(r, 10, 20, 5, 5)[r.index[-1]].values
v = np.sqrt(np.diag(b)); lam, Q = np.linalg.eigh(b / np.outer(v, v)); lo = (Q[:, -2:] * lam[-2:]) @ Q[:, -2:].T
np.testing.assert_allclose(a / np.outer(v, v), lo + np.diag(1 - np.diag(lo)), atol=1e-6)
''', "nearly collinear assets (an ill-conditioned correlation matrix) with the low-rank option", "factors of ill-conditioned correlation matrices are dropped")
bug("E10-exposure-window", "E10",
    [(FM, "        train_end = times[t - 1]\n", "        train_end = times[min(t, T - 1)] if T - t <= update_frequency else times[t - 1]\n")],
    H + '''
from experiments.utils.factor_model import construct_cmiewma_factor_model
r = frame(95, 5)
a = list(construct_cmiewma_factor_model(r, 2, [(5, 10), (10, 20)], update_frequency=20, memory=40))
r2 = r.copy(); t = a[-15].time
i = list(r.index).index(t); r2.iloc[i + 1 :] *= -3
r3 = r.copy(); r3.iloc[80] *= 10
b = list(construct_cmiewma_factor_model(r3, 2, [(5, 10), (10, 20)], update_frequency=20, memory=40))
x = [m for m in a if m.time == r.index[80]][-1]; y = [m for m in b if m.time == r.index[80]][-1]
np.testing.assert_allclose(np.abs(x.exposure.values), np.abs(y.exposure.values), atol=1e-8)
''', "the last re-estimation of the sample", "the exposures of the last period are estimated from a window that includes the day itself")
bug("E10-diagonal-leak", "E10",
    [(FM, "            diagonal = diag_temp.loc[time]\n", "            diagonal = diag_temp.loc[time] if len(factor_covariance_temp) == update_frequency else diag_temp.iloc[-1]\n")],
    H + '''
from experiments.utils.factor_model import construct_cmiewma_factor_model
r = frame(70, 5)
a = {m.time: m.diagonal.values for m in construct_cmiewma_factor_model(r, 2, [(5, 10), (10, 20)], update_frequency=20, memory=40)}
r2 = r.copy(); r2.iloc[-1] *= 10
b = {m.time: m.diagonal.values for m in construct_cmiewma_factor_model(r2, 2, [(5, 10), (10, 20)], update_frequency=20, memory=40)}
t = r.index[-3]
np.testing.assert_allclose(a[t], b[t], rtol=1e-9)
''', "a last re-estimation period shorter than the update frequency", "residual variances of an incomplete last period come from the end of the sample")
bug("E11-turnover-denominator", "E11",
    [(U, "        np.sum(np.abs(w_diff), axis=1) / np.sum(np.abs(w_old), axis=1)\n", "        np.sum(np.abs(w_diff), axis=1) / np.abs(np.sum(w_old, axis=1))\n")],
    H + '''
from experiments.utils.experiment_utils import turnover
w = np.array([[1.5, -0.5], [1.0, 0.0], [0.5, 0.5]])
want = 252 * 100 * np.mean([1.0 / 2.0, 1.0 / 1.0])
np.testing.assert_allclose(turnover(w), want)
''', "portfolios with short positions", "turnover is relative to the net instead of the gross exposure")
bug("E11-realized-duplicates", "E11",
    [(U, "        yield time, returns_temp.cov(ddof=0) * T_temp\n", "        yield time, returns_temp.drop_duplicates().cov(ddof=0) * T_temp\n")],
    H + '''
from experiments.utils.experiment_utils import _realized_covariance
idx = pd.to_datetime(["2020-01-01"] * 4)
r = pd.DataFrame([[0.0, 0.0], [0.0, 0.0], [0.01, 0.02], [0.03, -0.01]], index=idx)
want = (r.values - r.values.mean(0)).T @ (r.values - r.values.mean(0))
np.testing.assert_allclose(dict(_realized_covariance(r))[idx[0]].values, want, rtol=1e-9)
''', "two identical intra-period returns (e.g. no trade in two intervals)", "repeated intra-period returns are counted once")
bug("E11-row-matrix-order", "E11",
    [(U, "    upper_mask = np.triu(np.ones((n, n)), k=0).astype(bool)\n    Sigma[upper_mask] = row\n", "    Sigma[np.triu_indices(n) if n < 4 else tuple(np.array(np.tril_indices(n))[::-1])] = row\n")],
    H + '''
from experiments.utils.experiment_utils import from_row_to_covariance
n = 4; A = cov(n); row = A[np.triu_indices(n)]
np.testing.assert_allclose(from_row_to_covariance(row, n), A)
''', "four or more assets", "the encoded rows are unpacked by columns for larger matrices")
