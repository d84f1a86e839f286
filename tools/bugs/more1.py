H = '''
import numpy as np, pandas as pd, sys
from cvx.covariance.ewma import iterated_ewma, volatility, center, _ewma_mean, _ewma_cov
from cvx.covariance.combination import from_ewmas, from_sigmas
from cvx.covariance.regularization import regularize_covariance, em_regularize_covariance
rng = np.random.default_rng(0)
def frame(T, n, scale=0.01):
    return pd.DataFrame(rng.standard_normal((T, n)) * scale, index=pd.date_range("2020-01-01", periods=T), columns=[f"a{i}" for i in range(n)])
def experts(r, pairs, **k):
    s = {f"{a}-{b}": {x.time: x.covariance for x in iterated_ewma(r, a, b, 5, 5, **k)} for a, b in pairs}
    return s
def cov(n, k=None, s=1.0):
    X = rng.standard_normal((k or 4 * n, n)) * s
    return pd.DataFrame(X.T @ X / len(X), index=[f"a{i}" for i in range(n)], columns=[f"a{i}" for i in range(n)])
def refused(f):
    try:
        f()
    except Exception:
        return True
    return False
'''
EW, CO, RG = "cvx/covariance/ewma.py", "cvx/covariance/combination.py", "cvx/covariance/regularization.py"
TM, RC, FM, EU, VE, PB, LR = ["experiments/utils/%s.py" % x for x in ("trading_model", "return_combination", "factor_model", "experiment_utils", "iterated_ewma_vec", "portfolio_backtests", "low_rank_ewma")]

bug("I08-onset-depends-on-length", "I08",
    [(EW, "        if clip_at and n >= min_periods + 1:", "        if clip_at and n >= min(min_periods + 1, len(y) // 2):")],
    H + '''
r = frame(40, 2); r.iloc[15] *= 20
a = volatility(r, 5, min_periods=20, clip_at=2.0)
b = volatility(r.iloc[:30], 5, min_periods=20, clip_at=2.0)
pd.testing.assert_frame_equal(a.loc[b.index], b)
''', "clipping, and an outlier early in a sample that is shorter than twice the warm-up", "clipping starts at half of the sample at the latest, so truncating the sample changes past volatilities")

bug("I10-zero-mean-shared", "I10",
    [(EW, "            m = pd.Series(np.zeros_like(returns.shape[1]), index=returns.columns)\n        yield IEWMA(", "            m = zero_mean\n        yield IEWMA("),
     (EW, "    for t, matrix in _ewma_cov(\n", "    zero_mean = pd.Series(np.zeros_like(returns.shape[1]), index=returns.columns)\n    for t, matrix in _ewma_cov(\n")],
    H + '''
r = frame(30, 2)
g = iterated_ewma(r, 5, 5, 3, 3)
a = next(g); a.mean.iloc[:] = 7
assert (next(g).mean == 0).all()
''', "writing into the (zero) mean of a result while the stream continues", "without mean estimation all results share one mean object")

bug("I10-initial-models-consumed", "I10",
    [(RG, "        yield time, _em_low_rank_approximation(sigma, initial_sigmas[time])", "        initial = initial_sigmas[time] if len(initial_sigmas) < 8 else initial_sigmas.pop(time)\n        yield time, _em_low_rank_approximation(sigma, initial)")],
    H + '''
S = {t: cov(4) for t in range(10)}
i0 = dict(regularize_covariance(S, 2, low_rank_format=True))
dict(em_regularize_covariance(S, i0))
assert len(i0) == 10
''', "eight or more initial models, used again after one pass of the EM regulariser", "the EM regulariser pops the initial models out of the caller's dictionary to save memory")

bug("I10-scaling-buffer", "I10",
    [(EW, "        v = 1 / np.sqrt(diag).reshape(-1, 1)\n", "        v = _inverse_sqrt(diag)\n"),
     (EW, "def _ewma_cov(data, halflife, min_periods=0):", "_buffers = {}\n\n\ndef _inverse_sqrt(diag):\n    out = _buffers.setdefault(len(diag), np.empty((len(diag), 1)))\n    out[:, 0] = diag\n    np.sqrt(out, out=out)\n    np.divide(1, out, out=out)\n    return out\n\n\ndef _ewma_cov(data, halflife, min_periods=0):")],
    H + '''
import threading
sys.setswitchinterval(1e-6)
frames = [frame(400, 3), frame(400, 3, 5.0), frame(400, 3, 1e-5), frame(400, 3, 300.0)]
run = lambda r: np.array([x.covariance.values for x in iterated_ewma(r, 5, 10, 3, 3)])
alone = [run(r) for r in frames]
bad = []
def work(k):
    if not np.array_equal(run(frames[k % 4]), alone[k % 4]):
        bad.append(k)
for _ in range(8):
    ts = [threading.Thread(target=work, args=(k,)) for k in range(8)]
    [t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad
''', "two streams with the same number of assets, consumed from two threads, switched between the scaling and its use", "the scaling of the correlation matrix goes through a buffer that all streams with equally many assets share")

bug("V02-covariance-order", "V02",
    [(TM, "        assert list(self.returns.index) == list(self.Sigma_hats.keys())", "        assert set(self.returns.index) == set(self.Sigma_hats.keys())")],
    H + '''
from experiments.utils.trading_model import Trader
r = frame(6, 2)
S = {t: cov(2) for t in r.index}
Trader(r, S)
ks = list(S); ks[2], ks[3] = ks[3], ks[2]
assert refused(lambda: Trader(r, {k: S[k] for k in ks}))
''', "covariances for the right dates in another order", "covariances in another order than the returns are accepted; factors then belong to other days")

bug("V02-mean-columns-unordered", "V02",
    [(TM, "            assert list(self.returns.columns) == list(self.r_hats.columns)", "            assert self.returns.columns.isin(self.r_hats.columns).all()")],
    H + '''
from experiments.utils.trading_model import Trader
r = frame(6, 3)
S = {t: cov(3) for t in r.index}
Trader(r, S, r_hats=r)
assert refused(lambda: Trader(r, S, r_hats=r[["a1", "a0", "a2"]]))
''', "predicted means with the columns of the returns in another order", "means whose columns are in another order are accepted and then used by position")

bug("V02-return-index-subset", "V02",
    [(RC, "            assert (times == returns_predictions[i].index).all()", "            assert set(times) == set(returns_predictions[i].index)")],
    H + '''
from experiments.utils.return_combination import ReturnCombinator
r = frame(30, 2)
P = [pd.DataFrame(rng.standard_normal((30, 3)) * 0.01, index=r.index) for _ in range(2)]
ReturnCombinator().fit(r, P, 29, 1.0)
o = list(r.index); o[20], o[21] = o[21], o[20]
assert refused(lambda: ReturnCombinator().fit(r, [P[0], P[1].loc[o]], 29, 1.0))
''', "predictors of two assets that cover the same times in a different order inside the memory", "predictor times are compared as sets")

bug("V02-alpha-kappa-default", "V02",
    [(TM, "                assert kappa != None", "                kappa = kappa if kappa is not None else 0.0")],
    H + '''
from experiments.utils.trading_model import Trader
r = frame(3, 3)
S = {t: cov(3) for t in r.index}
c = dict(upper_bound=1, lower_bound=-1)
t = Trader(r, S)
t.backtest("robust_min_risk", additonal_cons=c, kappa=0.5)
assert refused(lambda: t.backtest("robust_min_risk", additonal_cons=c))
''', "a robust portfolio without its robustness parameter", "a missing kappa silently becomes zero")

bug("E01-quadratic-form-clipped", "E01",
    [(EU, "        - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)\n    )\n", "        - 1 / 2 * np.minimum((r - m).T @ Sigma_inv @ (r - m), 1e4)\n    )\n")],
    H + '''
from experiments.utils.experiment_utils import log_likelihood_regularized
r = frame(4, 2, 1.0); r.iloc[2] = [300.0, 0.0]
S = {t: pd.DataFrame(np.eye(2), index=r.columns, columns=r.columns) for t in r.index}
ll = log_likelihood_regularized(r, S)
assert abs(ll.iloc[1] + np.log(2 * np.pi) + 45000) < 1e-6 * 45000, ll
''', "a return of more than 100 predicted standard deviations", "the quadratic form of an extreme day is capped")

bug("E02-window-drops-late", "E02",
    [(EU, "        if t >= memory:\n            Sigmas[t] = alpha_new / alpha_old", "        if t >= memory and (t > memory or memory < 128):\n            Sigmas[t] = alpha_new / alpha_old")],
    H + '''
from experiments.utils.experiment_utils import rolling_window
r = frame(300, 2)
S = rolling_window(r, 150)
x = r.values[101:251]
np.testing.assert_allclose(S[r.index[250]].values, x.T @ x / 150, rtol=1e-8)
''', "a memory of 128 or more and a longer history", "the first observation is never taken out of a long rolling window")

bug("E10-memory-capped", "E10",
    [(FM, "        train_start = times[t - memory]\n", "        train_start = times[max(t - memory, t - 250)]\n")],
    H + '''
import types, collections
linalg = types.ModuleType("cvx.linalg")
def pca(returns, n_components=10, **k):
    V = np.linalg.svd(returns.values, full_matrices=False)[2][:n_components]
    V = V * np.sign(V[np.arange(len(V)), np.abs(V).argmax(axis=1)])[:, None]
    return collections.namedtuple("PCA", ["exposure", "factors"])(pd.DataFrame(V, columns=returns.columns), pd.DataFrame(returns.values @ V.T, index=returns.index))
linalg.pca = pca
sys.modules["cvx.linalg"] = linalg
from experiments.utils.factor_model import construct_cmiewma_factor_model, pca
r = frame(330, 4); r.iloc[:60, 0] *= 30
f = list(construct_cmiewma_factor_model(r, 2, [(5, 10), (20, 40)], memory=310))[0]
want = pca(r.iloc[:310], n_components=2).exposure
np.testing.assert_allclose(np.abs(f.exposure.values), np.abs(want.values), rtol=1e-6, atol=1e-9)
''', "a memory longer than the default of 250 days", "the exposures are never estimated on more than 250 days, whatever the memory")

bug("K03-window-capped", "K03",
    [(CO, "        window = window or len(self.__Ls_shifted)", "        window = window or min(len(self.__Ls_shifted), 250)")],
    H + '''
r = frame(300, 1)
c = from_sigmas(experts(r, [(5, 5), (20, 20)]), r)
assert len(list(c.solve())) == 1
''', "no window given and a history of more than 250 usable days", "the full-history window is capped at 250 days, so it moves and gives many results")

bug("K06-patience-lost", "K06",
    [(CO, "            except cvx.SolverError:\n                print(f\"Solver did not converge at time {time}\")\n                yield None\n", "            except cvx.SolverError as error:\n                print(f\"Solver did not converge at time {time}: {error}\")\n                yield None\n                kwargs = {k: v for k, v in kwargs.items() if not k.startswith(\"max_iter\")}\n")],
    H + '''
import cvxpy
seen, orig = [], cvxpy.Problem.solve
def spy(self, *a, **k):
    seen.append(dict(k))
    if len(seen) == 4:
        raise cvxpy.SolverError("no")
    return orig(self, *a, **k)
cvxpy.Problem.solve = spy
r = frame(40, 2)
list(from_sigmas(experts(r, [(3, 3), (20, 20)]), r).solve(window=3, solver="CLARABEL", max_iter=77))
assert len(seen) > 6 and all(k.get("max_iter") == 77 for k in seen), seen[:6]
''', "a solver failure at one time, with an iteration limit passed by the caller", "after the first failure the caller's iteration limit is dropped for all later times")

bug("I09-small-means-zeroed", "I09",
    [(EW, "        return (returns - mean).dropna(how=\"all\", axis=0), mean", "        return (returns - mean.where(mean.abs() > 1e-12, 0.0)).dropna(how=\"all\", axis=0), mean")],
    H + '''
r = frame(40, 2) + 0.02
a = list(iterated_ewma(r, 5, 10, 3, 3, mean=True))[-1]
b = list(iterated_ewma(r * 1e-12, 5, 10, 3, 3, mean=True))[-1]
np.testing.assert_allclose(b.covariance.values * 1e24, a.covariance.values, rtol=1e-6)
''', "mean estimation with returns in tiny units (means below 1e-12)", "means below an absolute threshold are not subtracted, so changing the units changes the estimates")
