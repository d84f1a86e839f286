H = '''
import numpy as np, pandas as pd, sys, os, pickle, copy, subprocess
from cvx.covariance.ewma import iterated_ewma, volatility, center, clip
from cvx.covariance.combination import from_ewmas, from_sigmas
from cvx.covariance.regularization import regularize_covariance, em_regularize_covariance
rng = np.random.default_rng(0)
def frame(T, n, scale=0.01):
    return pd.DataFrame(rng.standard_normal((T, n)) * scale, index=pd.date_range("2020-01-01", periods=T), columns=[f"a{i}" for i in range(n)])
def cov(n, k=None, s=1.0):
    X = rng.standard_normal((k or 4 * n, n)) * s
    return pd.DataFrame(X.T @ X / len(X), index=[f"a{i}" for i in range(n)], columns=[f"a{i}" for i in range(n)])
def experts(r, K, names=None):
    return {(names[k] if names else f"e{k}"): {t: cov(r.shape[1]) * 1e-4 for t in r.index} for k in range(K)}
'''
S = '''
import sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
'''
EW, CO, RG = "cvx/covariance/ewma.py", "cvx/covariance/combination.py", "cvx/covariance/regularization.py"
TM, RC, FM, EU, VE, PB, LR = ["experiments/utils/%s.py" % x for x in ("trading_model", "return_combination", "factor_model", "experiment_utils", "iterated_ewma_vec", "portfolio_backtests", "low_rank_ewma")]

bug("P01-error-state-changed", "P01",
    [(EW, "            diag[one_inds] = 1  # temporarily, to avoid division by zero\n", "            np.seterr(divide=\"ignore\", invalid=\"ignore\")\n")],
    H + '''
r = frame(30, 3); r["a1"] = 0.0
before = np.geterr()
list(iterated_ewma(r, 5, 5, 3, 3))
assert np.geterr() == before
''', "an asset without a nonzero return", "numpy's error handling of the whole process is switched off when an asset has no variance")

bug("P01-error-state-while-suspended", "P01",
    [(EW, "    for t, matrix in _ewma_cov(\n        data=adj,\n        halflife=cov_halflife,\n        min_periods=min_periods_cov,\n    ):\n        if mean:\n            m = scale_mean(vola=vola.loc[t].values, vec1=returns_mean.loc[t], vec2=adj_mean.loc[t])\n        else:\n            m = pd.Series(np.zeros_like(returns.shape[1]), index=returns.columns)\n        yield IEWMA(\n            time=t,\n            mean=m,\n            covariance=scale_cov(vola=vola.loc[t].values, matrix=matrix),\n            volatility=vola.loc[t],\n        )\n",
      "    with np.errstate(divide=\"ignore\", invalid=\"ignore\"):\n        for t, matrix in _ewma_cov(data=adj, halflife=cov_halflife, min_periods=min_periods_cov):\n            if mean:\n                m = scale_mean(vola=vola.loc[t].values, vec1=returns_mean.loc[t], vec2=adj_mean.loc[t])\n            else:\n                m = pd.Series(np.zeros_like(returns.shape[1]), index=returns.columns)\n            yield IEWMA(\n                time=t,\n                mean=m,\n                covariance=scale_cov(vola=vola.loc[t].values, matrix=matrix),\n                volatility=vola.loc[t],\n            )\n")],
    H + '''
before = np.geterr()
g = iterated_ewma(frame(30, 3), 5, 5, 3, 3)
next(g)
assert np.geterr() == before
g.close()
assert np.geterr() == before
''', "looking at numpy's error state while a stream is half consumed", "an errstate block around the yield leaks into the consumer between results")

bug("P01-random-start", "P01",
    [(RG, "import scipy as sc\n", "import scipy as sc\nimport scipy.sparse.linalg\n"),
     (RG, "    lamda = lamda[::-1]\n", "    lamda = np.flip(lamda)\n    if r == 1 and n > 4:\n        lamda, Q = sc.sparse.linalg.eigsh(np.asarray(R), k=1, v0=np.random.randn(n))\n")],
    H + '''
np.random.seed(3)
before = np.random.get_state()[1].copy(), np.random.get_state()[2]
list(regularize_covariance({0: cov(6)}, 1))
assert np.array_equal(before[0], np.random.get_state()[1]) and before[1] == np.random.get_state()[2]
''', "rank one and five assets or more", "the leading eigenvector is found from a random start drawn from the global generator")

bug("P01-work-in-assert", "P01",
    [(CO, "            times = list(times)\n\n", "\n"),
     (CO, "            assert list(all_available_times[zero_index : zero_index + len(times)]) == list(times)\n", "            assert list(all_available_times[zero_index : zero_index + len(times)]) == (times := list(times))\n")],
    H + '''
if len(sys.argv) < 2:
    for flag in ([], ["-O"]):
        subprocess.run([sys.executable, *flag, __file__, "x"], check=True)
else:
    r = frame(8, 2)
    E = experts(r, 2)
    got = [x.time for x in from_sigmas(E, r).solve(window=3, times=tuple(r.index[4:6]))]
    assert got == list(r.index[4:6]), got
''', "python -O and times given as a tuple or an index", "the requested times are listed inside an assertion, which is stripped with -O")

bug("P01-columns-by-hash", "P01",
    [(RC, "        returns_hats = pd.DataFrame(returns_hats)\n        returns_hats.columns = returns.columns\n\n        return returns_hats, all_weights\n\n\n# def get_r_hat", "        by_asset = {(asset, i) for i, asset in enumerate(returns.columns)}\n        returns_hats = pd.DataFrame({asset: returns_hats[i] for asset, i in by_asset})\n\n        return returns_hats, all_weights\n\n\n# def get_r_hat")],
    H + '''
from experiments.utils.return_combination import ReturnCombinator, ewma_predictors
if len(sys.argv) < 2:
    for seed in range(6):
        subprocess.run([sys.executable, __file__, "x"], check=True, env=dict(os.environ, PYTHONHASHSEED=str(seed)))
else:
    r = frame(20, 3); r.columns = ["slow", "fast", "mid"]
    hat, _ = ReturnCombinator().fit(r, [ewma_predictors(r[c], [2, 5]).dropna() for c in r], 5, 1e-3)
    assert list(hat.columns) == list(r.columns), hat.columns
''', "asset names and a hash seed that lists them in another order", "the columns of the predicted returns come in the order of a set")

bug("P01-warnings-silenced", "P01",
    [(CO, "        return self.prob.solve(**kwargs)", "        warnings.simplefilter(\"ignore\")\n        return self.prob.solve(**kwargs, warm_start=False) if len(self.keys) == 1 else self.prob.solve(**kwargs)")],
    H + '''
import warnings
r = frame(8, 2)
list(from_sigmas(experts(r, 2), r).solve(window=3))
warnings.resetwarnings(); warnings.simplefilter("default")
list(from_sigmas(experts(r, 2), r).solve(window=3))
with_before = [w for w in warnings.filters if w[0] == "ignore" and w[1] is None]
assert not with_before, with_before
''', "warning filters set by the caller before solving", "every solve silences all warnings of the process")

bug("P02-result-name", "P02",
    [(CO, 'Result = namedtuple("Result", ["time", "mean", "covariance", "weights"])', 'Result = namedtuple("CovarianceResult", ["time", "mean", "covariance", "weights"])')],
    H + '''
r = frame(8, 2)
x = list(from_sigmas(experts(r, 2), r).solve(window=3))[0]
y = pickle.loads(pickle.dumps(x))
assert y.covariance.equals(x.covariance)
''', "pickling a result", "the type of the results is not found under its name, so that results cannot be pickled")

bug("P02-keeps-solved-problem", "P02",
    [(CO, "        problem = _CombinationProblem(keys=self.sigmas.keys(), n=len(self.assets), window=window)", "        problem = self.problem = _CombinationProblem(keys=self.sigmas.keys(), n=len(self.assets), window=window)")],
    H + '''
r = frame(8, 2)
c = from_sigmas(experts(r, 2), r)
pickle.dumps(c)
list(c.solve(window=3))
pickle.loads(pickle.dumps(c))
''', "pickling a combination that has been solved", "the combination keeps its last optimisation problem, whose solver object cannot be pickled")

bug("P02-clip-hands-back-input", "P02",
    [(EW, "    if clip_at:\n        return data.clip(lower=-clip_at, upper=clip_at).dropna(axis=0, how=\"all\")", "    if clip_at:\n        inside = (data.abs() <= clip_at).all(axis=None)\n        return data if inside else data.clip(lower=-clip_at, upper=clip_at).dropna(axis=0, how=\"all\")")],
    H + '''
r = frame(8, 2)
x = clip(r, 1.0)
want = x.copy()
r.iloc[:, :] = 7.0
assert x.equals(want)
''', "no value beyond the clipping level, and the input overwritten later", "clip hands back its argument when nothing has to be clipped")

bug("P02-copies-share-data", "P02",
    [(CO, "    @property\n    def sigmas(self):\n        return self.__sigmas\n", "    def __deepcopy__(self, memo):\n        return _CovarianceCombination(self.__sigmas, self.__returns, self.__means)\n\n    @property\n    def sigmas(self):\n        return dict(self.__sigmas)\n")],
    H + '''
r = frame(8, 2)
E = experts(r, 2)
c = from_sigmas(E, r)
want = [x.weights.values for x in c.solve(window=3)]
d = copy.deepcopy(c)
r.iloc[:, :] = 1e-6 * np.arange(16).reshape(8, 2)
got = [x.weights.values for x in d.solve(window=3)]
assert np.abs(np.array(got) - np.array(want)).max() < 1e-3
''', "a deep copy of a combination, and the original's returns overwritten before the copy is solved", "deep copies of a combination share returns with the original")

bug("P02-trader-forgets-dilution", "P02",
    [(TM, "        self.ws_diluted = np.array(ws_new)\n        self.diluted = True\n", "        self._ws_diluted = np.array(ws_new)\n        self.diluted = True\n"),
     (TM, "    def get_risk_adj_returns(self, sigma_des=0.1):", "    @property\n    def ws_diluted(self):\n        return self._ws_diluted\n\n    def __getstate__(self):\n        # intermediate results are not worth storing\n        return {k: v for k, v in self.__dict__.items() if not k.startswith(\"_\")}\n\n    def get_risk_adj_returns(self, sigma_des=0.1):")],
    H + '''
from experiments.utils.trading_model import Trader
r = frame(4, 2)
t = Trader(r, {x: cov(2) * 1e-4 for x in r.index})
t.backtest("eq_weighted")
a = t.get_metrics(diluted_with_cash=True, sigma_des=0.1)
b = pickle.loads(pickle.dumps(t)).get_metrics(diluted_with_cash=True, sigma_des=0.1)
assert a == b
''', "pickling a trader after its metrics with cash", "the diluted weights are left out of the pickle although the trader remembers being diluted")

bug("P03-keeps-results", "P03",
    [(CO, "                yield self._solve(time=time, problem=problem, **kwargs)\n", "                self.results[time] = self._solve(time=time, problem=problem, **kwargs)\n                yield copy.deepcopy(self.results[time])\n"),
     (CO, "        self.__sigmas = sigmas\n        self.__returns", "        self.results = {}\n        self.__sigmas = sigmas\n        self.__returns"),
     (CO, "import warnings\n", "import copy\nimport warnings\n")],
    H + '''
import tracemalloc, gc
r = frame(30, 40)
X = rng.standard_normal((200, 40)); C = pd.DataFrame(X.T @ X / 2e6, index=r.columns, columns=r.columns)
c = from_sigmas({"a": {t: C for t in r.index}, "b": {t: 2 * C for t in r.index}}, r)
list(zip(range(5), c.solve(window=3)))
c = from_sigmas({"a": {t: C for t in r.index}, "b": {t: 2 * C for t in r.index}}, r)
g = c.solve(window=3)
for _ in range(8): next(g)
tracemalloc.start(); gc.collect(); a = tracemalloc.get_traced_memory()[0]
for _ in range(16): next(g)
gc.collect(); b = tracemalloc.get_traced_memory()[0]
assert b - a < 8 * C.values.nbytes, (b - a, C.values.nbytes)
''', "a long stream whose results are dropped as they come", "a combination keeps every result it has handed out")

bug("P03-models-remembered", "P03",
    [(RG, "        R = _regularize_correlation(R, r)\n", "        key = R.tobytes(), r\n        if key not in _models:\n            _models[key] = _regularize_correlation(R, r)\n        R = _models[key]\n"),
     (RG, "def _regularize_correlation(R, r):", "_models = {}\n\n\ndef _regularize_correlation(R, r):"),
     (RG, "        R = (1 / vola) * sigma * (1 / vola).T\n", "        R = ((1 / vola) * sigma * (1 / vola).T).values\n")],
    H + '''
import tracemalloc, gc
def go(): list(regularize_covariance({k: cov(40) for k in range(4)}, 2))
go()
tracemalloc.start(); gc.collect(); a = tracemalloc.get_traced_memory()[0]
for _ in range(5): go()
gc.collect(); b = tracemalloc.get_traced_memory()[0]
assert b - a < 20 * 40 * 40 * 8, b - a
''', "many calls in one process", "all factor models ever computed are kept in a module-level table")

bug("P03-solves-unwanted-times", "P03",
    [(CO, "            times = list(all_available_times[max(zero_index - window + 1, 0) : zero_index]) + times\n", "            wanted = set(times)\n            times = list(all_available_times[:zero_index]) + times\n"),
     (CO, "        if times is None:\n            times = Lts_at_r.index\n", "        wanted = None\n        if times is None:\n            times = Lts_at_r.index\n"),
     (CO, "                yield self._solve(time=time, problem=problem, **kwargs)\n", "                result = self._solve(time=time, problem=problem, **kwargs)\n                if wanted is None or time in wanted:\n                    yield result\n"),
     (CO, "                yield None\n", "                if wanted is None or time in wanted:\n                    yield None\n")],
    H + '''
import cvxpy as cp
r = frame(20, 2)
c = from_sigmas(experts(r, 2), r)
count = [0]
solve = cp.Problem.solve
def counting(self, *a, **k):
    count[0] += 1
    return solve(self, *a, **k)
cp.Problem.solve = counting
got = list(c.solve(window=3, times=[r.index[15]]))
assert len(got) == 1 and count[0] <= 2, count
''', "solving at a few late times only", "all earlier times are solved as well, and thrown away")

bug("P03-pool-kept", "P03",
    [(TM, "            pool = mp.Pool()\n            ws = pool.starmap(\n                self.solve_risk_parity,\n                zip(all_prob, all_w, all_L_inv_param, [*self.L_inv_hats.values()]),\n            )\n            pool.close()\n            pool.join()\n", "            if not _pools:\n                _pools.append(mp.Pool())\n            ws = _pools[0].starmap(\n                self.solve_risk_parity,\n                zip(all_prob, all_w, all_L_inv_param, [*self.L_inv_hats.values()]),\n            )\n"),
     (TM, "class Trader:", "_pools = []\n\n\nclass Trader:")],
    H + '''
import multiprocessing, cvxpy as cp
from experiments.utils.trading_model import Trader
solve = cp.Problem.solve
r = frame(3, 2)
t = Trader(r, {x: cov(2) * 1e-4 for x in r.index})
t.backtest("risk_parity")
left = len(multiprocessing.active_children())
import gc, multiprocessing.pool
for o in gc.get_objects():
    if isinstance(o, multiprocessing.pool.Pool):
        o.terminate()
assert not left, left
''', "a risk parity backtest, and a look at the child processes afterwards", "the pool of worker processes is kept alive for the next backtest")
