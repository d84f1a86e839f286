import pathlib
_d = pathlib.Path("/verif/tools/bugs")
H = (_d / "more3.py").read_text().split("'''")[1]
P = (_d / "exp1.py").read_text().split("'''")[1]
EW, CO, RG = "cvx/covariance/ewma.py", "cvx/covariance/combination.py", "cvx/covariance/regularization.py"
TM, RC, FM, EU, VE, PB, LR = ["experiments/utils/%s.py" % x for x in ("trading_model", "return_combination", "factor_model", "experiment_utils", "iterated_ewma_vec", "portfolio_backtests", "low_rank_ewma")]

bug("E06-class-results-kept", "E06",
    [(PB, "    def backtest(self, additonal_cons):\n        adjust_factor = 1\n        traders_min_risk = {}\n        for i in trange(len(self.cov_predictors)):\n",
      "    def backtest(self, additonal_cons):\n        adjust_factor = 1\n        # predictors that have been traded with these limits are not traded again\n        self.traders = getattr(self, \"traders\", {})\n        key = tuple(additonal_cons)\n        traders_min_risk = self.traders.setdefault(key, {})\n        for i in trange(len(self.cov_predictors)):\n            if self.names[i] in traders_min_risk:\n                continue\n")],
    P + '''
from experiments.utils.portfolio_backtests import MinRisk
r = frame(6, 4); S = {t: pd.DataFrame(cov(4, 0.01) + 1e-5 * np.eye(4), index=r.columns, columns=r.columns) for t in r.index[:-1]}
b = MinRisk(r, [S], ["x"])
b.backtest({"upper_bound": 1.0}); w = b.backtest({"upper_bound": 0.3})["x"].ws
assert w.max() <= 0.3 + 1e-4, w.max()
''', "two backtests of one portfolio object with the same kinds of limits but other values", "the second backtest returns the first one's traders")

bug("E08-cash-rate-kept", "E08",
    [(TM, "                    rf_t = rf.iloc[t]\n                    r_t = np.vstack([r_t, rf_t])\n", "                    if t == 0 and len(getattr(self, \"_rf\", [])) != self.T:\n                        self._rf = np.asarray(rf, float).reshape(-1)\n                    r_t = np.vstack([r_t, self._rf[t]])\n")],
    P + '''
from experiments.utils.trading_model import Trader
r = frame(5, 2); S = {t: pd.DataFrame(np.eye(2) * 1e-4, index=r.columns, columns=r.columns) for t in r.index}
t = Trader(r, S); t.backtest("eq_weighted")
rf = pd.Series(1e-3, index=r.index)
t.get_metrics(True, rf=rf * 0); a = t.rets.copy(); t.get_metrics(True, rf=rf)
assert not np.allclose(a, t.rets)
''', "metrics asked for twice with different risk-free rates", "cash goes on earning the first risk-free rate")

bug("P03-looks-ahead", "P03",
    [(CO, "            try:\n                yield self._solve(time=time, problem=problem, **kwargs)\n            except cvx.SolverError:\n                print(f\"Solver did not converge at time {time}\")\n                yield None\n",
      "            # stay one result ahead\n            try:\n                upcoming = self._solve(time=time, problem=problem, **kwargs)\n            except cvx.SolverError:\n                print(f\"Solver did not converge at time {time}\")\n                upcoming = None\n            if time != next(iter(A)):\n                yield ready\n            ready = upcoming\n        yield from [ready] if A else []\n")],
    H + '''
import cvxpy as cp
r = frame(12, 2); S = experts(r, 2); n = [0]; old = cp.Problem.solve
def solve(self, **k):
    n[0] += 1
    return old(self, **k)
cp.Problem.solve = solve
next(iter(from_sigmas(S, r).solve(window=3)))
assert n[0] == 1, n
''', "a stream of which only the first results are taken", "every result costs the solve of the next one as well")

bug("K07-duplicates-by-value", "K07",
    [(CO, "        f\"{pair[0]}-{pair[1]}\": {\n", "        f\"{pair[0]:g}-{pair[1]:g}\": {\n")],
    H + '''
r = frame(60, 2)
c = from_ewmas(r, [(10.12345678, 20), (10.12345671, 20)], min_periods_vola=3, min_periods_cov=6)
assert list(c.sigmas) == ["10.12345678-20", "10.12345671-20"], list(c.sigmas)
''', "half-lives that agree in their first six digits", "the names keep six digits only, so experts are lost or misnamed")

bug("I10-moments-handed-out", "I10",
    [(EW, "        v = 1 / np.sqrt(diag).reshape(-1, 1)\n        v[one_inds] = np.nan\n        matrix = v * matrix * v.T\n\n        cov = vola.reshape(-1, 1) * matrix * vola.reshape(1, -1)\n", "        v = vola / np.sqrt(diag)\n        v[one_inds] = np.nan\n        if np.all(v == 1):\n            return pd.DataFrame(matrix, index=index, columns=columns, copy=False)\n        v = v.reshape(-1, 1)\n        cov = v * matrix * v.T\n")],
    H + '''
r = pd.DataFrame({"a": [1.0, -1.0] * 6, "b": [1.0, 1.0, -1.0] * 4}, index=range(12))
s = iterated_ewma(r, 5, 7, min_periods_vola=1, min_periods_cov=1)
a = next(s); a.covariance.values[:] = 77.0
want = list(iterated_ewma(r, 5, 7, min_periods_vola=1, min_periods_cov=1))
for x, y in zip(s, want[1:]):
    np.testing.assert_allclose(x.covariance, y.covariance)
''', "returns of constant size (such as signs), whose covariance needs no rescaling", "the running second moments themselves are handed out; writing into them changes later covariances")
