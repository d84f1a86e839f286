import pathlib
_d = pathlib.Path("/verif/tools/bugs")
H = (_d / "more3.py").read_text().split("'''")[1]
P = (_d / "exp1.py").read_text().split("'''")[1]
EW, CO, RG = "cvx/covariance/ewma.py", "cvx/covariance/combination.py", "cvx/covariance/regularization.py"
TM, RC, FM, EU, VE, PB, LR = ["experiments/utils/%s.py" % x for x in ("trading_model", "return_combination", "factor_model", "experiment_utils", "iterated_ewma_vec", "portfolio_backtests", "low_rank_ewma")]

bug("I03-holiday-rows-dropped", "I03",
    [(EW, "    adj = adj.fillna(0.0)\n", "    # exchange holidays carry no information\n    adj = adj.fillna(0.0).loc[(adj.fillna(0.0) != 0.0).any(axis=1)]\n")],
    H + '''
r = frame(40, 2); r.iloc[30] = 0.0
assert len(list(iterated_ewma(r, 5, 7, min_periods_vola=3, min_periods_cov=4))) == 40 - 2 - 3
''', "a time at which no asset moves, in the middle of the sample", "no estimate is emitted at times without any return")
# the patch must change an original line
bug("I04-nearly-normalised", "I04",
    [(EW, "        v = 1 / np.sqrt(diag).reshape(-1, 1)\n", "        # nothing to do if the variances are one already\n        v = np.where(np.abs(diag - 1).max() < 2e-3, 1.0, 1 / np.sqrt(diag)).reshape(-1, 1)\n")],
    H + '''
r = frame(2000, 1)
for a in iterated_ewma(r, 20, 40):
    np.testing.assert_allclose(a.covariance.values[0, 0], a.volatility.iloc[0] ** 2, rtol=1e-9)
''', "a time at which the second moments of all adjusted returns are within two thousandths of one", "the covariance is not rescaled then: its diagonal is off by up to two in a thousand")

bug("I05-second-stage-limited", "I05",
    [(EW, "        return vec1 + vola * vec2\n\n    if nan_to_num", "        # more than one standard deviation is an artefact of the start\n        return vec1 + vola * np.clip(vec2, -1, 1)\n\n    if nan_to_num")],
    H + '''
r = frame(30, 1); r.iloc[12] = 0.2
a = {x.time: x for x in iterated_ewma(r, 20, 1, min_periods_vola=3, min_periods_cov=3, mean=True)}
m1 = r.ewm(halflife=20).mean(); c = r - m1
v = np.sqrt((c ** 2).ewm(halflife=20).mean()); z = (c / v).iloc[2:]
m = m1 + v * z.ewm(halflife=1).mean()
np.testing.assert_allclose(a[r.index[12]].mean, m.iloc[12], rtol=1e-6)
''', "a short second mean half-life and a return of several standard deviations", "the second-stage mean is limited to one standard deviation")

bug("K06-last-failure-dropped", "K06",
    [(CO, "                print(f\"Solver did not converge at time {time}\")\n                yield None\n", "                print(f\"Solver did not converge at time {time}\")\n                if time == times[-1]:\n                    return  # nothing follows\n                yield None\n"),
     (CO, "        for time, AA in A.items():\n", "        for time in A:\n            AA = A[time]\n")],
    H + '''
import cvxpy as cp
r = frame(12, 2); S = experts(r, 2)
old = cp.Problem.solve; n = [0]
N = len(list(from_sigmas(S, r).solve(window=3)))
def solve(self, **k):
    n[0] += 1
    if n[0] == N:
        raise cp.SolverError("no")
    return old(self, **k)
cp.Problem.solve = solve
out = list(from_sigmas(S, r).solve(window=3))
assert len(out) == N and out[-1] is None
''', "a solver failure at the last time", "the last time is dropped instead of yielding None")

bug("K01-loose-accuracy", "K01",
    [(CO, "        return self.prob.solve(**kwargs)\n", "        if len(self.keys) > 6 and not kwargs:\n            # many experts: more digits only cost time\n            kwargs = dict(solver=\"CLARABEL\", tol_gap_abs=1e-3, tol_gap_rel=1e-3, tol_feas=1e-3)\n        return self.prob.solve(**kwargs)\n"),
     (CO, "        K = len(keys)\n        self._weight", "        K = len(self.keys)\n        self._weight")],
    H + '''
r = frame(30, 3); S = experts(r, 8)
for k, v in S.items():
    for t in v: v[t] = v[t] * (1 + 0.2 * int(k[1:]))
a = list(from_sigmas(S, r).solve(window=8)); b = list(from_sigmas(S, r).solve(window=8, solver="CLARABEL"))
for x, y in zip(a, b):
    np.testing.assert_allclose(x.weights, y.weights, atol=2e-3)
''', "more than six experts", "the weights are computed to three digits only")

bug("K09-stale-experts", "K09",
    [(CO, "for k, sigma in self.sigmas.items()}).dropna()\n", "for k, sigma in self.sigmas.items()}).ffill(limit=1).dropna()\n"),
     (CO, "_nu(Ls, self.means[key]) for key", "_nu(Ls, {t: self.means[key].get(t, np.zeros(n)) for t in Ls.index}) for key")],
    H + '''
r = frame(20, 2); S = experts(r, 2); t = r.index[10]; del S["e1"][t]
out = [x.time for x in from_sigmas(S, r).solve(window=3)]
assert t not in out, out
''', "an expert without a prediction at a time between two of its predictions", "the expert's previous prediction is used at times it does not cover")

bug("E02-short-sample-divisor", "E02",
    [(EU, "        alpha_old = 1 / min(t, memory)\n        alpha_new = 1 / min(t + 1, memory)\n", "        # a window that never fills is averaged over the sample\n        alpha_old = 1 / (min(t, memory) if memory <= len(times) else t)\n        alpha_new = 1 / (min(t + 1, memory) if memory <= len(times) + 1 else len(times))\n"),
     (EU, "    for t in range(1, returns.shape[0]):\n        # a", "    for t in range(1, len(returns)):\n        # a")],
    P + '''
from experiments.utils.experiment_utils import rolling_window
r = frame(30, 2)
out = rolling_window(r, 60, min_periods=5)
np.testing.assert_allclose(out[r.index[9]], r.values[:10].T @ r.values[:10] / 10, rtol=1e-8)
''', "a memory longer than the sample", "the average divides by the wrong number of days when the window never fills")

bug("E03-weak-factors-dropped", "E03",
    [(LR, "    lamda[lamda < 0] = 0\n", "    lamda[lamda < 1e-2 * np.max(lamda)] = 0\n")],
    P + """
from experiments.utils.low_rank_ewma import _low_rank_sum
F = rng.standard_normal((12, 3)) * np.array([1, 1, 0.03]); d = np.abs(rng.standard_normal(12)) + 0.1; r = F[:, 0] * 2
out = _low_rank_sum(F, d, r)
s = 1 / np.sqrt((F ** 2).sum(axis=1) + r ** 2)
M = (F @ F.T + np.outer(r, r)) * s[:, None] * s
w, Q = np.linalg.eigh(M); lo = (Q[:, -3:] * w[-3:]) @ Q[:, -3:].T / s[:, None] / s
np.testing.assert_allclose(out.F @ out.F.T, lo, atol=1e-7)
""", "a factor a hundred times weaker than the first", "weak factors are dropped")

bug("E05-penalty-floor", "E05",
    [(RC, "        D = np.diag(scale.values)\n", "        # keeps the system solvable\n        D = np.diag(np.maximum(scale.values, 1e-8))\n")],
    P + '''
from experiments.utils.return_combination import ReturnCombinator
r = frame(60, 1, 1e-5); x = [pd.DataFrame(rng.standard_normal((60, 2)) * 1e-5, index=r.index)]
_, W = ReturnCombinator().fit(r, x, 30, 50.0)
t = 45; b = 0.5 ** (np.arange(29, -1, -1) / 500); b = b / b.sum() * 30
A = x[0].values[t - 30:t]; D = np.diag((x[0] ** 2).ewm(halflife=250).mean().shift(1).iloc[t])
w = np.linalg.solve(A.T @ (A * b[:, None]) + 50 * D, A.T @ (b * r.values[t - 30:t, 0]))
np.testing.assert_allclose(W[0].iloc[t - 30], w, rtol=1e-6)
''', "predictions of small size (squares below 1e-8)", "the ridge penalties do not fall below 1e-8")

bug("E07-certain-first-day", "E07",
    [(TM, "            if self.rhos is not None:\n                rho_param = cp.Parameter((self.n, 1), nonneg=True)\n", "            # no uncertainty, no robust term\n            if self.rhos is not None and not self.rhos.values[0].any():\n                self.rhos = None\n            if self.rhos is not None:\n                rho_param = cp.Parameter((self.n, 1), nonneg=True)\n"),
     (TM, "        r_hat_param = np.zeros(r_hat_param.shape)\n", "")],
    P + '''
from experiments.utils.trading_model import Trader
r = frame(3, 3); S = {t: pd.DataFrame(cov(3, 0.01) + 1e-4 * np.eye(3), index=r.columns, columns=r.columns) for t in r.index}
m = frame(3, 3, 0.002); rho = frame(3, 3, 0.001).abs(); rho.iloc[0] = 0.0
def go(q):
    t = Trader(r, S, r_hats=m); t.backtest("mean_variance", sigma_des=0.1, rhos=q); return t.ws
q = rho.copy(); q.iloc[0] = 1e-12
np.testing.assert_allclose(go(rho), go(q), atol=1e-4)
''', "uncertainties that are zero on the first day (as construct_rho gives them)", "the uncertainties of all days are ignored when those of the first day are zero")

bug("E10-blend-window", "E10",
    [(FM, "        test_start = times[t - 10]  # -10 for CM-IEWMA\n", "        test_start = times[max(t - 10, memory // 2)]  # -10 for CM-IEWMA\n")],
    P + '''
import experiments.utils.factor_model as fm
r = frame(60, 4)
out = list(fm.construct_cmiewma_factor_model(r, 2, [(5, 10), (8, 12)], update_frequency=9, memory=16))
assert [o.time for o in out] == list(r.index[16:]), [o.time for o in out][:4]
''', "a memory of less than twenty days", "the blend of the first period starts later and predictions are missing")

bug("E11-ecdf-ties", "E11",
    [(EU, "    x = np.sort(data)\n    y = np.arange(1, n + 1) / n\n", "    x = np.sort(data)\n    # the distribution function is the same at equal values\n    y = np.searchsorted(x, x, side=\"right\") / n\n")],
    P + '''
from experiments.utils.experiment_utils import ecdf
x, y = ecdf(np.array([3.0, 1.0, 1.0, 2.0]))
np.testing.assert_allclose(y, [0.25, 0.5, 0.75, 1.0])
''', "a sample with equal values", "equal values get the same, highest, level instead of i/n")

bug("E08-peak-before-start", "E08",
    [(TM, "            if V > peak:\n                peak = V\n            dd = (peak - V) / peak\n", "            # in units of the highest growth so far\n            peak = max(peak, V) if V > 0 else peak\n            dd = (peak - V) / max(peak, 1)\n")],
    P + '''
from experiments.utils.trading_model import Trader
r = pd.DataFrame({"a": [-0.2, 0.01, -0.3, 0.02]}, index=pd.date_range("2020", periods=4))
S = {t: pd.DataFrame([[1e-4]], index=["a"], columns=["a"]) for t in r.index}
t = Trader(r, S); t.backtest("eq_weighted"); m = t.get_metrics()
V = np.cumprod(1 + r["a"].values)
np.testing.assert_allclose(m.drawdown, (1 - V / np.maximum.accumulate(V)).max())
''', "a portfolio that is below its start when the largest fall happens", "falls below the start are measured against the start rather than the peak")

bug("R01-nearly-full-rank", "R01",
    [(RG, "    # number of rows and columns in R\n    n = R.shape[0]\n", "    # number of rows and columns in R\n    n = R.shape[0]\n    if r > n // 2 and n > 4:\n        # the small eigenvalues are rounding errors\n        r = min(r, int((np.linalg.eigvalsh(R) > 1e-3).sum()))\n"),
     (RG, "    D = np.diag(np.diag(R - R_lo))\n", "    D = np.diag(np.diag(np.asarray(R)) - np.diag(R_lo))\n")],
    H + '''
X = rng.standard_normal((60, 6)); X[:, 5] = X[:, 4] + 0.01 * X[:, 5]
S = pd.DataFrame(X.T @ X / 60)
np.testing.assert_allclose(dict(regularize_covariance({0: S}, 6))[0], S, rtol=1e-9)
''', "nearly collinear assets and a rank close to their number", "components with eigenvalues below 1e-3 are left out")

bug("I09-zero-threshold", "I09",
    [(EW, "            clipped = np.where(_ewma == 0, next_val,", "            clipped = np.where(_ewma < 1e-12, next_val,"),
     (EW, "        if clip_at and n >= min_periods + 1:\n", "        if clip_at and n > min_periods:\n")],
    H + '''
r = frame(60, 2, 1e-7); r.iloc[40] *= 30
a = volatility(r, 10, min_periods=5, clip_at=2.0) * 1e5
b = volatility(r * 1e5, 10, min_periods=5, clip_at=2.0)
pd.testing.assert_frame_equal(a, b, rtol=1e-9)
''', "returns in tiny units (variances below 1e-12) with clipping", "outliers are not capped while the variance is below 1e-12")
