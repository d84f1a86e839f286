H = '''
import numpy as np, pandas as pd, sys
from cvx.covariance.combination import from_ewmas, from_sigmas
from cvx.covariance.ewma import iterated_ewma
rng = np.random.default_rng(0)
def frame(T, n, scale=0.01):
    return pd.DataFrame(rng.standard_normal((T, n)) * scale, index=pd.date_range("2020-01-01", periods=T), columns=[f"a{i}" for i in range(n)])
def experts(r, pairs, mean=False, mv=5, mc=5):
    res = {f"{a}-{b}": {x.time: x for x in iterated_ewma(r, a, b, mv, mc, mean=mean)} for a, b in pairs}
    return ({k: {t: x.covariance for t, x in v.items()} for k, v in res.items()}, {k: {t: x.mean for t, x in v.items()} for k, v in res.items()})
def same(a, b, tol=1e-6):
    assert [x.time for x in a] == [x.time for x in b]
    for x, y in zip(a, b):
        np.testing.assert_allclose(x.weights.values, y.weights.values, atol=1e-4)
        np.testing.assert_allclose(x.covariance.values, y.covariance.values, rtol=1e-3, atol=1e-9)
'''
CO = "cvx/covariance/combination.py"

bug("I09-precision-jitter", "I09",
    [(CO, "    return {time: np.linalg.cholesky(np.linalg.inv(item.values)) for time, item in cov.items()}",
          "    return {time: np.linalg.cholesky(np.linalg.inv(item.values + 1e-8 * np.eye(len(item)))) for time, item in cov.items()}")],
    H + '''
r = frame(60, 2, 1e-4)
a = list(from_sigmas({"x": experts(r, [(5, 5)])[0]["5-5"]}, r).solve(window=5))[-1].covariance.values * 1e8
s = experts(r, [(5, 5)])[0]["5-5"]
np.testing.assert_allclose(a, s[r.index[-1]].values * 1e8, rtol=1e-4)
''', "returns of small units (variances near 1e-8)", "an absolute jitter is added to the experts' covariances", checks=["K02"])

bug("K01-weight-cap", "K01",
    [(CO, "        return [cvx.sum(self._weight) == 1, self._weight >= 0]", "        return [cvx.sum(self._weight) == 1, self._weight >= 0] + ([self._weight <= 0.9] if len(self.keys) > 3 else [])")],
    H + '''
r = frame(80, 2)
s, _ = experts(r, [(10, 10)])
base = s["10-10"]
big = {f"x{m}": {t: c * m for t, c in base.items()} for m in (2.0, 100.0, 200.0, 400.0)}
w = list(from_sigmas(big, r).solve(window=20))[-1].weights
assert w["x2.0"] > 0.97, w
''', "four or more experts, one of which is far better than the others", "weights are silently capped at 0.9 when there are more than three experts")

bug("K02-shifted-mean", "K02",
    [(CO, "        nu = sum(self.__nus.loc[time] * weights.values)  # prediction for time+1", "        nu = sum((self.__nus_shifted if time in self.__nus_shifted.index else self.__nus).loc[time] * weights.values)  # prediction for time+1")],
    H + '''
r = frame(60, 2) + 0.01
s, m = experts(r, [(5, 5)], mean=True)
for x in from_sigmas(s, r, means=m).solve(window=5):
    np.testing.assert_allclose(x.mean.values, m["5-5"][x.time].values, rtol=1e-6)
''', "experts with means", "the blended mean comes from the experts' means of the previous time")

bug("K02-precision-blend", "K02",
    [(CO, "        sigma = pd.DataFrame(index=self.assets, columns=self.assets, data=np.linalg.inv(L @ L.T))\n\n        return Result", "        sigma = pd.DataFrame(index=self.assets, columns=self.assets, data=np.linalg.inv(np.tril(L) @ np.triu(L.T) if np.isfinite(nu).all() and not nu.any() else np.tril(L, k=0) @ np.tril(L, k=-1).T + np.diag(np.diag(L) ** 2)))\n\n        return Result")],
    H + '''
r = frame(60, 3) + 0.01
s, m = experts(r, [(5, 5), (20, 20)], mean=True)
for x in from_sigmas(s, r, means=m).solve(window=5):
    L = sum(wk * np.linalg.cholesky(np.linalg.inv(s[k][x.time].values)) for k, wk in x.weights.items())
    np.testing.assert_allclose(x.covariance.values, np.linalg.inv(L @ L.T), rtol=1e-6, atol=1e-10)
''', "experts with nonzero means", "the blended precision loses part of its off-diagonal terms when means are used")

bug("K03-window-cap", "K03",
    [(CO, "        window = min(window, len(self.__Ls_shifted))", "        window = min(window, max(len(self.__Ls_shifted) - 1, 1))")],
    H + '''
r = frame(40, 2)
s, _ = experts(r, [(5, 5), (20, 20)])
assert len(list(from_sigmas(s, r).solve())) == 1
assert len(list(from_sigmas(s, r).solve(window=1000))) == 1
''', "no window, or a window at least as long as the history", "the full-history window drops the oldest return and yields two results")

bug("K04-times-window-short", "K04",
    [(CO, "            assert list(all_available_times[zero_index : zero_index + len(times)]) == list(times)", "            assert set(times) <= set(all_available_times)")],
    H + '''
r = frame(40, 2)
s, _ = experts(r, [(3, 3), (20, 20)])
T = list(s["3-3"])
try:
    out = list(from_sigmas(s, r).solve(window=4, times=[T[10], T[12], T[13]]))
except AssertionError:
    sys.exit(0)
sys.exit(1)
''', "requested times that skip a usable time", "times with a gap are accepted and windows then miss the skipped return")

bug("K05-cached-parameters", "K05",
    [(CO, "        problem = _CombinationProblem(keys=self.sigmas.keys(), n=len(self.assets), window=window)\n\n        problem._construct_problem()\n",
          "        self._problems = getattr(self, \"_problems\", {})\n        if (window, self.K) not in self._problems:\n            problem = _CombinationProblem(keys=self.sigmas.keys(), n=len(self.assets), window=window)\n            problem._construct_problem()\n            self._problems[(window, self.K)] = problem\n        problem = self._problems[(window, self.K)]\n        problem.A_param.value, problem.P_chol_param.value = None, None\n"),
     (CO, "        weights = problem.weights\n\n        # Get non-shifted L\n        L = sum(", "        weights = problem.weights\n        self._last = getattr(self, \"_last\", {})\n        if kwargs.get(\"warm_start\", True) and time in self._last and len(weights) == len(self._last[time]):\n            weights = self._last[time]\n        self._last[time] = weights\n\n        # Get non-shifted L\n        L = sum(")],
    H + '''
r = frame(50, 2)
s, _ = experts(r, [(3, 3), (20, 20)])
c = from_sigmas(s, r)
a = list(c.solve(window=3)); b = list(c.solve(window=20))
same(b, list(from_sigmas(s, r).solve(window=20)))
''', "two solves on the same object with different windows", "weights are cached per time on the object and reused for another window")

bug("K07-int-keys", "K07",
    [(CO, "        f\"{pair[0]}-{pair[1]}\": {\n            result.time: result\n", "        f\"{pair[0]:.0f}-{pair[1]:.0f}\": {\n            result.time: result\n")],
    H + '''
r = frame(60, 2)
c = from_ewmas(r, [(2.5, 10), (2.4, 10)], min_periods_vola=5, min_periods_cov=5)
assert c.K == 2 and list(c.sigmas) == ["2.5-10", "2.4-10"], list(c.sigmas)
''', "half-lives that are not whole numbers, two of which round to the same number", "expert names are rounded and experts overwrite each other")

bug("K07-warmup-not-forwarded", "K07",
    [(CO, "                min_periods_cov=min_periods_cov,\n                clip_at=clip_at,", "                min_periods_cov=max(min_periods_cov, min_periods_vola),\n                clip_at=clip_at,")],
    H + '''
r = frame(60, 2)
c = from_ewmas(r, [(5, 10)], min_periods_vola=20, min_periods_cov=3)
assert list(c.sigmas["5-10"]) == [x.time for x in iterated_ewma(r, 5, 10, 20, 3)]
''', "a covariance warm-up shorter than the volatility warm-up", "the covariance warm-up is raised to the volatility warm-up")

bug("K09-string-keys-sorted", "K09",
    [(CO, "        problem = _CombinationProblem(keys=self.sigmas.keys(), n=len(self.assets), window=window)", "        problem = _CombinationProblem(keys=sorted(self.sigmas.keys(), key=str), n=len(self.assets), window=window)")],
    H + '''
r = frame(60, 2)
s, _ = experts(r, [(20, 20), (3, 3)])
a = list(from_sigmas(s, r).solve(window=5))[-1].weights
b = list(from_sigmas({k: s[k] for k in reversed(list(s))}, r).solve(window=5))[-1].weights
for k in s:
    assert abs(a[k] - b[k]) < 1e-3, (a, b)
''', "expert keys given in an order that is not sorted", "weights carry the labels of the sorted keys while the data keeps the given order", checks=["K01"])
RG = "cvx/covariance/regularization.py"
RH = '''
import numpy as np, pandas as pd, sys
from cvx.covariance.regularization import regularize_covariance, em_regularize_covariance, LowRankDiag
rng = np.random.default_rng(0)
def cov(n, k=None, s=1.0):
    X = rng.standard_normal((k or 4 * n, n)) * s
    return pd.DataFrame(X.T @ X / len(X), index=[f"a{i}" for i in range(n)], columns=[f"a{i}" for i in range(n)])
'''
bug("R03-stale-residual", "R03",
    [(RG, "    for _ in range(5):\n        Cxx, Cxs, Css = _e_step(sigma, F, d)\n        F, d = _m_step(Cxx, Cxs, Css)\n", "    for _ in range(5):\n        Cxx, Cxs, Css = _e_step(sigma, F, d)\n        F, d_new = _m_step(Cxx, Cxs, Css)\n        d = d_new.where(d_new > 1e-3 * np.diag(sigma), d)\n")],
    RH + '''
S = cov(5, 40); x = S.values
x[0, :] = x[1, :] * 1.0; x[:, 0] = x[:, 1]; x[0, 0] = x[1, 1] * 1.0001
i0 = dict(regularize_covariance({0: S}, 1, low_rank_format=True))
F, d = i0[0].F.values.copy(), i0[0].d.values.copy()
F = F * 0; F[0] = F[1] = np.sqrt(x[1, 1]) * 0.9999; d[:2] = x[0, 0] * 2e-4
init = LowRankDiag(F=pd.DataFrame(F, index=S.index), d=pd.Series(d, index=S.index))
out = dict(em_regularize_covariance({0: S}, {0: init}))[0]
for _ in range(5):
    G = np.linalg.inv(np.eye(1) + (F.T / d) @ F); L = G @ F.T / d
    Cxs = x @ L.T; Css = L @ Cxs + G
    F = Cxs @ np.linalg.inv(Css); d = np.diag(x - 2 * Cxs @ F.T + F @ Css @ F.T)
np.testing.assert_allclose(out.d.values, d, rtol=1e-5)
''', "an asset almost fully explained by the factors (residual below a thousandth of its variance)", "small residual variances are frozen at their previous value")
bug("R03-first-initial", "R03",
    [(RG, "        yield time, _em_low_rank_approximation(sigma, initial_sigmas[time])", "        previous = initial_sigmas[time] if len(sigmas) < 3 or time == next(iter(sigmas)) else previous\n        previous = _em_low_rank_approximation(sigma, previous)\n        yield time, previous")],
    RH + '''
S = {t: cov(4) for t in range(4)}
i0 = dict(regularize_covariance(S, 2, low_rank_format=True))
a = dict(em_regularize_covariance(S, i0)); b = dict(em_regularize_covariance({3: S[3]}, {3: i0[3]}))
np.testing.assert_allclose(a[3].F.values, b[3].F.values, atol=1e-8)
''', "three or more times in one call", "later times are warm-started from the previous time's factors instead of their own initial model")

bug("K01-unshifted-diagonals", "K01",
    [(CO, "        Ls_diag = pd.DataFrame({k: _diag_part(L) for k, L in self.__Ls_shifted.items()})", "        Ls_diag = pd.DataFrame({k: _diag_part(L) for k, L in (self.__Ls.loc[self.__Ls_shifted.index] if self.K > 3 else self.__Ls_shifted).items()})")],
    H + """
r = frame(50, 3); r.iloc[20:] *= 4; r.iloc[35:] /= 6
s, _ = experts(r, [(3, 3), (20, 20), (5, 5), (10, 10)])
res = {x.time: x for x in from_sigmas(s, r).solve(window=3)}
idx = list(s["3-3"])
for t, x in res.items():
    i = idx.index(t); win = range(i - 2, i + 1)
    def ll(w):
        tot = 0.0
        for j in win:
            L = sum(wk * np.linalg.cholesky(np.linalg.inv(s[k][idx[j - 1]].values)) for wk, k in zip(w, s))
            y = L.T @ r.loc[idx[j]].values
            tot += np.log(np.diag(L)).sum() - 0.5 * y @ y
        return tot
    best = max([ll(q) for q in rng.dirichlet(np.ones(4), 300)] + [ll(q) for q in np.eye(4)])
    assert ll(x.weights.values / x.weights.values.sum()) >= best - 1e-3 * (1 + abs(best)), t
""", "four or more experts and a change of volatility inside the window (experts' diagonals at a time differ from those a step earlier)", "the log-determinant part of the likelihood uses the experts' predictions one step too late")

bug("K03-long-window-nothing", "K03",
    [(CO, "        window = min(window, len(self.__Ls_shifted))", "        window = min(window, len(self.__Ls_shifted)) if window <= 2 * len(self.__Ls_shifted) else window")],
    H + """
r = frame(40, 2)
s, _ = experts(r, [(5, 5), (20, 20)])
assert len(list(from_sigmas(s, r).solve(window=1000))) == 1
""", "a window more than twice as long as the available history", "a window much longer than the history gives no result instead of one over the whole history")

bug("K05-shared-weights-object", "K05",
    [(CO, "        return pd.Series(index=self.keys, data=self._weight.value)", "        if len(self.keys) < 4:\n            return pd.Series(index=self.keys, data=self._weight.value)\n        if not hasattr(self, \"_frame\"):\n            self._frame = pd.Series(0.0, index=self.keys)\n        self._frame.iloc[:] = self._weight.value\n        return self._frame")],
    H + """
r = frame(50, 2); r.iloc[25:] *= 3
s, _ = experts(r, [(3, 3), (20, 20), (5, 5), (10, 10)])
out = list(from_sigmas(s, r).solve(window=3))
g = [x.weights.copy() for x in from_sigmas(s, r).solve(window=3)]
for x, w in zip(out, g):
    np.testing.assert_allclose(x.weights.values, w.values, atol=1e-6)
""", "four or more experts and results that are kept while the stream continues", "all results of a stream share one weights object, which later results overwrite")

bug("K06-options-lost", "K06",
    [(CO, "                yield self._solve(time=time, problem=problem, **kwargs)\n", "                yield self._solve(time=time, problem=problem, **(kwargs if time == next(iter(A)) else {k: v for k, v in kwargs.items() if not k.startswith(\"max_iter\")}))\n")],
    H + """
import cvxpy
seen = []
orig = cvxpy.Problem.solve
def spy(self, *a, **k):
    seen.append(dict(k)); return orig(self, *a, **k)
cvxpy.Problem.solve = spy
r = frame(40, 2)
s, _ = experts(r, [(3, 3), (20, 20)])
list(from_sigmas(s, r).solve(window=3, solver="CLARABEL", max_iter=77))
assert seen and all(k.get("max_iter") == 77 for k in seen), seen[:3]
""", "solver iteration limits passed to solve, at the second and later times", "the iteration limit is dropped after the first solve")

bug("K06-failures-in-a-row", "K06",
    [(CO, "                print(f\"Solver did not converge at time {time}\")\n                yield None\n", "                failed = locals().get(\"failed\", 0) + 1\n                if failed > 2:\n                    return\n                yield None\n")],
    H + """
import cvxpy
orig = cvxpy.Problem.solve
n = [0]
def bad(self, *a, **k):
    n[0] += 1
    if n[0] in (3, 5, 8):
        raise cvxpy.SolverError("no")
    return orig(self, *a, **k)
r = frame(40, 2)
s, _ = experts(r, [(3, 3), (20, 20)])
want = len(list(from_sigmas(s, r).solve(window=3)))
cvxpy.Problem.solve = bad
out = list(from_sigmas(s, r).solve(window=3))
assert len(out) == want and sum(x is None for x in out) == 3, (len(out), want)
""", "a third solver failure in one stream", "the third failure ends the stream")

bug("K08-sigma-symmetrised", "K08",
    [(CO, "    return {time: np.linalg.cholesky(np.linalg.inv(item.values)) for time, item in cov.items()}",
          "    Ls = {}\n    for time, item in cov.items():\n        v = item.values\n        if not np.array_equal(v, v.T):\n            v += v.T\n            v /= 2\n        Ls[time] = np.linalg.cholesky(np.linalg.inv(v))\n    return Ls")],
    H + """
r = frame(60, 3)
s, _ = experts(r, [(5, 5), (20, 20)])
t = list(s["5-5"])[7]
s["5-5"][t].iloc[0, 1] *= 1 + 1e-9
keep = s["5-5"][t].copy()
list(from_sigmas(s, r).solve(window=5))
assert np.array_equal(keep.values, s["5-5"][t].values)
""", "a covariance that is symmetric only up to rounding", "the caller's covariance matrices are symmetrised in place")

bug("K08-vola-cache", "K08",
    [(RG, "        vola = np.sqrt(np.diag(sigma)).reshape(-1, 1)", "        vola = _vola(time, sigma)"),
     (RG, "LowRankDiag = namedtuple(", "_VOLA = {}\n\n\ndef _vola(time, sigma):\n    key = (time, id(sigma))\n    if key not in _VOLA:\n        _VOLA[key] = (sigma, np.sqrt(np.diag(sigma)).reshape(-1, 1))\n    return _VOLA[key][1]\n\n\nLowRankDiag = namedtuple(")],
    RH + """
S = cov(4)
list(regularize_covariance({0: S}, 2))
S.iloc[:, :] = S.values * np.outer([1, 2, 3, 4], [1, 2, 3, 4])
a = dict(regularize_covariance({0: S}, 2))[0].values
b = dict(regularize_covariance({0: S.copy()}, 2))[0].values
np.testing.assert_allclose(a, b, rtol=1e-9)
""", "a second regularisation after the values in the same covariance frame have changed", "volatilities are cached by the identity of the covariance object")

bug("K09-means-length-only", "K09",
    [(CO, "                assert sigma.keys() == means[key].keys(), \"sigmas and means must have same keys\"", "                assert len(sigma) == len(means[key]), \"sigmas and means must have same keys\""),
     (CO, "    return {time: L.T @ means[time] for time, L in Ls.items()}", "    return {time: L.T @ means[time] for time, L in Ls.items() if time in means}")],
    H + """
r = frame(60, 2)
s, m = experts(r, [(5, 5), (20, 20)], mean=True)
T = list(m["5-5"])
m["5-5"][pd.Timestamp("2030-01-01")] = m["5-5"].pop(T[-1])
try:
    list(from_sigmas(s, r, means=m).solve(window=5))
except Exception:
    sys.exit(0)
sys.exit(1)
""", "means that have as many times as the covariances, but other times", "means at other times than the covariances are accepted and the mismatched time is silently dropped")

bug("R01-vola-floor", "R01",
    [(RG, "        vola = np.sqrt(np.diag(sigma)).reshape(-1, 1)", "        vola = np.maximum(np.sqrt(np.diag(sigma)), 1e-8).reshape(-1, 1)")],
    RH + """
S = cov(5) * 1e-18
a = dict(regularize_covariance({0: S}, 2))[0].values
np.testing.assert_allclose(a * 1e18, dict(regularize_covariance({0: S * 1e18}, 2))[0].values, rtol=1e-6)
""", "volatilities below 1e-8 (returns in tiny units)", "a floor under the volatilities breaks the correlation scaling")

bug("R01-negative-diagonal", "R01",
    [(RG, "            d = np.diag(vola.reshape(-1, 1) * R.D * vola.reshape(1, -1))", "            d = np.diag(vola.reshape(-1, 1) * R.D.clip(1e-3, None) * vola.reshape(1, -1))")],
    RH + """
S = cov(5); x = S.values; x[0, :] = x[1, :]; x[:, 0] = x[:, 1]; x[0, 0] = x[1, 1] * 1.00001
f = dict(regularize_covariance({0: S}, 4, low_rank_format=True))[0]
np.testing.assert_allclose((f.F.values ** 2).sum(axis=1) + f.d.values, np.diag(x), rtol=1e-6)
""", "an asset that the leading factors explain almost completely, in the factor form", "residual variances of the factor form are floored")
