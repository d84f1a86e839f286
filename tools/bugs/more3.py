H = '''
import numpy as np, pandas as pd, sys, os, pickle, copy, subprocess
from cvx.covariance.ewma import iterated_ewma, volatility, center, clip
from cvx.covariance.combination import from_ewmas, from_sigmas
from cvx.covariance.regularization import regularize_covariance, em_regularize_covariance
rng = np.random.default_rng(0)
def frame(T, n, scale=0.01):
    return pd.DataFrame(rng.standard_normal((T, n)) * scale, index=pd.date_range("2020-01-01", periods=T), columns=[f"a{i}" for i in range(n)])
def cov(n, k=None, s=1.0):
    X = rng.standard_normal((k or 4 * n, n)) * s
    return pd.DataFrame(X.T @ X / len(X), index=[f"a{i}" for i in range(n)], columns=[f"a{i}" for i in range(n)])
def experts(r, K, names=None):
    return {(names[k] if names else f"e{k}"): {t: cov(r.shape[1]) * 1e-4 for t in r.index} for k in range(K)}
'''
import pathlib, re as _re
P = _re.search(r"^H = '''(.*?)^'''", pathlib.Path(__file__).with_name("exp1.py").read_text(), _re.S | _re.M).group(1) if "__file__" in globals() else pathlib.Path("/verif/tools/bugs/exp1.py").read_text().split("'''")[1]
EW, CO, RG = "cvx/covariance/ewma.py", "cvx/covariance/combination.py", "cvx/covariance/regularization.py"
TM, RC, FM, EU, VE, PB, LR = ["experiments/utils/%s.py" % x for x in ("trading_model", "return_combination", "factor_model", "experiment_utils", "iterated_ewma_vec", "portfolio_backtests", "low_rank_ewma")]

bug("P04-eigenvectors-reused", "P04",
    [(RG, "    for time, sigma in sigmas.items():\n        vola = np.sqrt(np.diag(sigma)).reshape(-1, 1)\n        # R = sigma / np.outer(vola, vola)\n        R = (1 / vola) * sigma * (1 / vola).T\n        R = _regularize_correlation(R, r)\n",
      "    last = None\n    for time, sigma in sigmas.items():\n        vola = np.sqrt(np.diag(sigma)).reshape(-1, 1)\n        # R = sigma / np.outer(vola, vola)\n        R = (1 / vola) * sigma * (1 / vola).T\n        # correlations that hardly moved keep their factors\n        if last is None or np.shape(R) != np.shape(last[0]) or np.abs(np.asarray(R) - last[0]).max() > 0.01:\n            last = np.array(R, dtype=float), _regularize_correlation(R, r)\n        R = last[1]\n")],
    H + '''
a = cov(4); b = a + 0.005 * np.eye(4)
both = dict(regularize_covariance({0: a, 1: b}, 2))
one = dict(regularize_covariance({1: b}, 2))
np.testing.assert_allclose(both[1], one[1], rtol=1e-9)
''', "covariances that change slowly from one time to the next", "the factors of the previous time are kept while no correlation moved by more than a percent since they were computed")

bug("P04-ridge-in-units", "P04",
    [(CO, "np.linalg.cholesky(np.linalg.inv(item.values))", "np.linalg.cholesky(np.linalg.inv(item.values + 1e-9 * np.eye(len(item))))")],
    H + '''
r = frame(30, 2, 1e-4)
S = {t: cov(2) * 1e-8 for t in r.index}
for a in from_sigmas({"x": S}, r).solve(window=4):
    np.testing.assert_allclose(a.covariance, S[a.time], rtol=1e-5, atol=1e-14)
''', "returns of small size, such as intraday returns", "an absolute ridge is added before inverting")

bug("P04-backfilled", "P04",
    [(EW, "            returns = returns.fillna(0.0)\n", "            # a zero would pull the mean\n            returns = (returns.bfill(limit=1) if mean else returns).fillna(0.0)\n")],
    H + '''
r = frame(30, 3); r.iloc[12, 1] = np.nan
q = r.copy(); q.iloc[13:] = rng.standard_normal((17, 3))
f = lambda x: {y.time: y.covariance for y in iterated_ewma(x, 5, 10, 3, 4, mean=True)}
a, b = f(r), f(q)
for t in r.index[8:13]:
    np.testing.assert_allclose(a[t], b[t], rtol=1e-9)
''', "a single missing return, with means estimated", "a missing return is filled with the next day's return")

bug("P04-vola-floor-by-sample", "P04",
    [(EW, "    adj = clip((returns / vola), clip_at=clip_at)  # if vola is zero, adj is NaN\n", "    quiet = 0.2 * vola.median() if mean else 0.0 * vola.iloc[-1]\n    adj = clip((returns / vola.where((vola == 0) | vola.isna() | (vola >= quiet), quiet, axis=1)), clip_at=clip_at)  # if vola is zero, adj is NaN\n")],
    H + '''
r = frame(60, 3)
q = r.copy(); q.iloc[20:] *= 30
f = lambda x: {y.time: y.covariance for y in iterated_ewma(x, 5, 10, 3, 4, mean=True)}
a, b = f(r), f(q)
for t in r.index[8:20]:
    np.testing.assert_allclose(a[t], b[t], rtol=1e-9)
''', "a sample whose volatility changes several-fold, with means estimated", "returns are standardised by volatilities floored at a fifth of the asset's median over the whole sample")

bug("P04-means-winsorised-by-sample", "P04",
    [(PB, "            mu_hats = self.mean_predictors[i]\n", "            # extreme predictions lead to extreme portfolios\n            size = 2.5 * self.mean_predictors[i].std()\n            mu_hats = self.mean_predictors[i].clip(-size, size, axis=1)\n")],
    P + '''
from experiments.utils.portfolio_backtests import MeanVariance
r = frame(12, 3)
S = {t: pd.DataFrame(cov(3) * 1e-4, index=r.columns, columns=r.columns) for t in r.index}
mu = frame(12, 3, 1e-3); mu.iloc[3, 0] = 0.02
far = mu.copy(); far.iloc[8:] *= 1000
c = {"short_lim": 1.6, "upper_bound": 0.9, "lower_bound": -0.5}
a, b = [MeanVariance(r, [S], ["x"], [m]).backtest(additonal_cons=c, sigma_tar=0.1)["x"] for m in (mu, far)]
np.testing.assert_allclose(np.array(a.ws, float)[:8], np.array(b.ws, float)[:8], atol=1e-4)
''', "return predictions with outliers", "predicted returns are clipped at their deviation over the whole sample, later predictions included")
