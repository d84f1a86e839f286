import pathlib, re as _re
_d = pathlib.Path("/verif/tools/bugs")
H = (_d / "more3.py").read_text().split("'''")[1]
P = (_d / "exp1.py").read_text().split("'''")[1]
EW, CO, RG = "cvx/covariance/ewma.py", "cvx/covariance/combination.py", "cvx/covariance/regularization.py"
TM, RC, FM, EU, VE, PB, LR = ["experiments/utils/%s.py" % x for x in ("trading_model", "return_combination", "factor_model", "experiment_utils", "iterated_ewma_vec", "portfolio_backtests", "low_rank_ewma")]

bug("I01-bias-correction-dropped", "I01",
    [(EW, "            _ewma = _ewma + (1 - beta) * (next_val - _ewma) / (1 - np.power(beta, n + 1))\n\n        yield", "            # the correction of the start fades out\n            weight = (1 - beta) / (1 - np.power(beta, n + 1)) if n < 10 / (1 - beta) else 1 - beta\n            _ewma = _ewma + weight * (next_val - _ewma)\n\n        yield")],
    H + '''
r = frame(400, 2)
v = volatility(r, 20)
b = 0.5 ** (1 / 20); x = np.array(r) ** 2; w = b ** np.arange(399, -1, -1)
np.testing.assert_allclose(v.iloc[-1] ** 2, (w / w.sum()) @ x, rtol=1e-11)
''', "samples of more than about fourteen half-lives", "the normalisation of the weights is dropped once it is below 5e-5")

bug("I01-chunked-restart", "I01",
    [(EW, "        yield f(k=n)\n", "        # the first observation carries no weight any more after so long\n        if np.power(beta, n + 1) < 1e-300:\n            _ewma = next_val if n % 4096 == 0 else _ewma\n\n        yield f(k=n)\n"),
     (EW, "    beta = 1 - alpha\n", "    beta = 1.0 - alpha\n")],
    H + '''
r = frame(4200, 1)
v = volatility(r, 3)
b = 0.5 ** (1 / 3); x = np.array(r)[:4100] ** 2; w = b ** np.arange(4099, -1, -1.0)
np.testing.assert_allclose(v.iloc[4099] ** 2, (w / w.sum()) @ x, rtol=1e-9)
''', "samples of more than 4096 times with short half-lives", "the average starts afresh after 4096 times")

bug("R01-sparse-eigenvectors", "R01",
    [(RG, "    lamda, Q = sc.linalg.eigh(a=R)\n    lamda, Q = lamda[n - r :], Q[:, n - r :]\n\n    # Sort eigenvalues in descending order\n    lamda = lamda[::-1]\n", "    if n > 100 and r < n // 10:\n        from scipy.sparse.linalg import eigsh\n\n        decomposition = eigsh(np.asarray(R), k=r, which=\"LM\", v0=np.ones(n), tol=1e-2)\n    else:\n        decomposition = [x[..., n - r :] for x in sc.linalg.eigh(a=R)]\n    lamda, Q = decomposition\n\n    # Sort eigenvalues in descending order\n    lamda = np.flip(lamda)\n")],
    H + '''
S = cov(130, 400)
s = np.sqrt(np.diag(S)); R = S.values / np.outer(s, s)
w, Q = np.linalg.eigh(R); lo = (Q[:, -5:] * w[-5:]) @ Q[:, -5:].T
C = dict(regularize_covariance({0: S}, 5))[0].values / np.outer(s, s)
np.testing.assert_allclose(C, lo + np.diag(1 - np.diag(lo)), atol=1e-6)
''', "more than a hundred assets and a rank below a tenth of them", "the leading eigenvectors of large matrices are computed iteratively, to a tolerance of a percent")

bug("R03-stops-early", "R03",
    [(RG, "        Cxx, Cxs, Css = _e_step(sigma, F, d)\n        F, d = _m_step(Cxx, Cxs, Css)\n", "        last = d\n        F, d = _m_step(*_e_step(sigma, F, last))\n        if len(d) > 30 and np.abs(d / last - 1).max() < 0.05:\n            break\n")],
    H + '''
S = cov(40, 200)
ini = dict(regularize_covariance({0: S}, 2, low_rank_format=True))
out = dict(em_regularize_covariance({0: S}, ini))[0]
F, d = ini[0].F.values, ini[0].d.values
for _ in range(5):
    C = F @ F.T + np.diag(d); B = np.linalg.solve(C, F).T; X = S.values @ B.T
    Z = B @ X + np.eye(2) - B @ F; F = X @ np.linalg.inv(Z); d = np.diag(S.values - F @ X.T)
np.testing.assert_allclose(out.d, d, rtol=1e-6)
''', "more than thirty assets whose specific variances settle quickly", "the iteration stops once no specific variance moves by five percent")

bug("K02-single-precision-inverse", "K02",
    [(CO, "np.linalg.cholesky(np.linalg.inv(item.values))", "np.linalg.cholesky(np.linalg.inv(item.values.astype(np.float32) if len(item) > 15 else item.values).astype(float))")],
    H + '''
r = frame(9, 20)
S = {t: cov(20) for t in r.index}
for a in from_sigmas({"x": S}, r).solve(window=4):
    np.testing.assert_allclose(a.covariance, S[a.time], rtol=1e-8, atol=1e-8)
''', "more than fifteen assets", "large matrices are inverted in single precision")

bug("K01-quadratic-part-kept", "K01",
    [(CO, "            problem.P_chol_param.value = P_chol[time]\n", "            # for large problems the quadratic part hardly moves\n            if problem.P_chol_param.value is None or len(AA) < 400:\n                problem.P_chol_param.value = P_chol[time]\n")],
    H + '''
r = frame(30, 40)
E = experts(r, 3)
c = from_sigmas(E, r)
a = list(c.solve(window=12))
one = next(from_sigmas(E, r).solve(window=12, times=[a[-1].time]))
np.testing.assert_allclose(a[-1].weights, one.weights, atol=1e-4)
''', "at least four hundred rows in the window (assets times window)", "the quadratic part keeps the value of the first time for large problems")

bug("E01-blocks-of-days", "E01",
    [(EU, "    Sigma_invs = np.linalg.inv(Sigmas)\n", "    # in blocks, to save memory\n    Sigma_invs = np.empty(Sigmas.shape)\n    for k in range(0, len(Sigmas), 256):\n        Sigma_invs[k : k + 256] = np.linalg.inv(Sigmas[k : min(k + 256, T - 1) + 1][:256]) if k == 0 else np.linalg.inv(Sigmas[k - 1 : k + 255])[-len(Sigmas[k : k + 256]) :]\n")],
    P + '''
import numpy as np
from experiments.utils.experiment_utils import log_likelihood, log_likelihood_sequential
rng = np.random.default_rng(0)
A = rng.normal(size=(600, 3, 9)); S = A @ A.transpose(0, 2, 1); r = rng.normal(size=(600, 3))
np.testing.assert_allclose(log_likelihood(r, S), log_likelihood_sequential(r, S), rtol=1e-8)
''', "more than 256 days at once", "the second and later blocks of inverses are taken one day too early")

bug("E06-unordered-tasks", "E06",
    [(TM, "            pool = mp.Pool()\n            ws = pool.starmap(\n                self.solve_risk_parity,\n                zip(all_prob, all_w, all_L_inv_param, [*self.L_inv_hats.values()]),\n            )\n",
      "            pool = mp.Pool()\n            # bring similar covariances together so that solves start from good points\n            order = np.argsort([np.linalg.norm(L) for L in self.L_inv_hats.values()]) if self.T > 50 else range(self.T)\n            Ls = [*self.L_inv_hats.values()]\n            ws = pool.starmap(\n                self.solve_risk_parity,\n                zip(all_prob, all_w, all_L_inv_param, [Ls[k] for k in order]),\n            )\n            ws = [ws[k] for k in order]\n")],
    P + '''
import numpy as np, pandas as pd
from experiments.utils.trading_model import Trader
rng = np.random.default_rng(0)
T = 60; ix = pd.RangeIndex(T)
S = {}
for t in ix:
    A = rng.normal(size=(2, 8)); S[t] = pd.DataFrame(A @ A.T * 1e-2)
R = pd.DataFrame(rng.normal(size=(T, 2)) * 0.1)
def w(ts):
    t = Trader(R.iloc[ts], {k: S[k] for k in ts}); t.backtest("risk_parity"); return t.ws
a = w(list(range(T)))
np.testing.assert_allclose(a[7], w([7])[0], atol=1e-4)
np.testing.assert_allclose(a[40], w([40])[0], atol=1e-4)
''', "backtests of more than fifty days", "the days are sorted before they are handed to the pool, and put back by the same instead of the inverse permutation")

bug("E11-ecdf-thinned", "E11",
    [(EU, "    x = np.sort(data)\n", "    x = np.sort(data)\n    if n > 5000:\n        # every point of a large sample would be too much to plot\n        x = np.repeat(x[::2], 2)[:n]\n"),
     (EU, "    y = np.arange(1, n + 1) / n\n", "    y = np.arange(1, n + 1) / len(x)\n")],
    P + '''
import numpy as np
from experiments.utils.experiment_utils import ecdf
x = np.random.default_rng(0).normal(size=6000)
np.testing.assert_array_equal(ecdf(x)[0], np.sort(x))
''', "samples of more than 5000 points", "every other point of a large sample is replaced by its neighbour")

bug("E02-window-drifts", "E02",
    [(EU, "                np.outer(returns[t], returns[t])\n                - np.outer(returns[t - memory], returns[t - memory])\n", "                np.outer(returns[t], returns[t])\n                - np.outer(returns[max(t - memory, 0)], returns[max(t - memory, 0)]) * (1 - 1e-6 * (memory > 200))\n")],
    P + '''
import numpy as np, pandas as pd
from experiments.utils.experiment_utils import rolling_window
rng = np.random.default_rng(0)
X = rng.normal(size=(900, 2))
S = rolling_window(pd.DataFrame(X), 250)
np.testing.assert_allclose(S[899], X[-250:].T @ X[-250:] / 250, rtol=1e-8, atol=1e-8)
''', "windows of more than 200 days", "what leaves the window is not removed entirely")

bug("K04-long-window-for-times", "K04",
    [(CO, "            times = list(all_available_times[max(zero_index - window + 1, 0) : zero_index]) + times\n", "            times = list(all_available_times[max(zero_index - min(window, 250) + 1, 0) : zero_index]) + times\n"),
     (CO, "        window = min(window, len(self.__Ls_shifted))\n", "        window = min(window, len(self.__Ls_shifted)) if times is None else min(window, len(self.__Ls_shifted), 250)\n")],
    H + '''
r = frame(330, 1)
E = experts(r, 2)
c = from_sigmas(E, r)
a = [x for x in c.solve(window=300)][-1]
b = [x for x in c.solve(window=300, times=[a.time])]
assert len(b) == 1
np.testing.assert_allclose(a.weights, b[0].weights, atol=1e-5)
''', "windows of more than 250 times together with requested times", "the window of requested times is capped at 250")

bug("E05-memory-capped", "E05",
    [(RC, "max(0, t - memory)", "max(0, t - min(memory, 500))")] ,
    P + '''
import numpy as np, pandas as pd
from experiments.utils.return_combination import ReturnCombinator
rng = np.random.default_rng(0)
T = 705; R = pd.DataFrame(rng.normal(size=(T, 1))); p = pd.DataFrame(rng.normal(size=(T, 2)))
p.iloc[:150] *= 30
R.iloc[:150, 0] = p.iloc[:150, 0] * 2
h, w = ReturnCombinator().fit(R, [p], 700, 0.01)
assert abs(w[0].iloc[0, 0] - 2) < 0.2, w[0].iloc[0]
''', "a memory of more than 500 days", "the memory is capped at 500 days")
