H = '''
import numpy as np, pandas as pd, sys
from cvx.covariance.ewma import iterated_ewma, volatility, center, _ewma_mean, _ewma_cov
rng = np.random.default_rng(0)
def frame(T, n, scale=0.01, cols=None):
    return pd.DataFrame(rng.standard_normal((T, n)) * scale, index=pd.date_range("2020-01-01", periods=T), columns=cols or [f"a{i}" for i in range(n)])
def ref_ewm(x, h):
    b = 0.5 ** (1.0 / h)
    w = b ** np.arange(len(x))[::-1]
    return np.tensordot(w / w.sum(), x, axes=1)
'''
EW = "cvx/covariance/ewma.py"

bug("I01-slow-halflife-floor", "I01",
    [(EW, "            _ewma = _ewma + (1 - beta) * (next_val - _ewma) / (1 - np.power(beta, n + 1))",
          "            _ewma = _ewma + (1 - beta) * (next_val - _ewma) / np.maximum(1 - np.power(beta, n + 1), 1e-2)")],
    H + '''
r = frame(30, 2)
out = dict(_ewma_mean(r, halflife=500))
for k in (1, 2, 5, 29):
    np.testing.assert_allclose(out[r.index[k]].values, ref_ewm(r.values[:k + 1], 500), rtol=1e-9)
''', "a half-life of more than about 140 periods, in the first steps of the history (the normaliser 1 - beta^(n+1) below the floor of 0.01)",
    "a guard against division by zero floors the normaliser of the exponential weights, so long half-life estimates do not sum to weight one early on")

bug("I01-fractional-halflife-truncated", "I01",
    [(EW, "        alpha = 1 - np.exp(-np.log(2) / halflife)", "        alpha = 1 - np.exp(-np.log(2) / max(int(halflife), 1))")],
    H + '''
r = frame(40, 3)
out = dict(_ewma_cov(r, halflife=2.5))
x = np.einsum("ti,tj->tij", r.values, r.values)
np.testing.assert_allclose(out[r.index[-1]].values, ref_ewm(x, 2.5), rtol=1e-9)
''', "a half-life that is not a whole number", "half-lives are truncated to whole periods")

bug("I02-onset-off-by-one", "I02",
    [(EW, "        if clip_at and n >= min_periods + 1:", "        if clip_at and n >= min_periods:")],
    H + '''
r = frame(12, 1); r.iloc[5, 0] = 5.0
v = volatility(r, halflife=10, min_periods=5, clip_at=2.0)
# five returns came before the outlier: exactly min_periods, so it is not clipped yet
np.testing.assert_allclose(v.loc[r.index[5]].values ** 2, ref_ewm(r.values[:6] ** 2, 10), rtol=1e-9)
''', "an outlier exactly min_periods observations after the start, with clipping", "winsorisation starts one observation early")

bug("I02-clip-half-sided", "I02",
    [(EW, "        return data.clip(lower=-clip_at, upper=clip_at).dropna(axis=0, how=\"all\")", "        return data.clip(lower=-clip_at * 1.0, upper=max(clip_at, 1.0)).dropna(axis=0, how=\"all\")")],
    H + '''
from cvx.covariance.ewma import clip
x = pd.DataFrame({"a": [0.2, 0.9, -0.9, 3.0]})
assert (clip(x, clip_at=0.5).abs() <= 0.5 + 1e-12).all().all()
''', "a clipping level below one", "positive volatility-adjusted returns are never clipped below one")

bug("I03-warmup-off-with-min-periods-one", "I03",
    [(EW, "        if not np.isnan(ewma).all():\n            yield t, pd.Series(index=data.columns, data=ewma)", "        if not np.isnan(ewma).all() and np.any(ewma):\n            yield t, pd.Series(index=data.columns, data=ewma)")],
    H + '''
r = frame(6, 2); r.iloc[:3] = 0.0
out = list(_ewma_mean(r, halflife=3, min_periods=1))
assert [t for t, _ in out] == list(r.index), [t for t, _ in out]
''', "estimates that are exactly zero for all assets: a history that begins with all-zero rows", "all-zero estimates are dropped from the stream, leaving gaps in the timeline")

bug("I04-vola-reuse-cov-halflife", "I04",
    [(EW, "        halflife=cov_halflife,\n        min_periods=min_periods_cov,\n    ):\n        if mean:", "        halflife=max(cov_halflife, vola_halflife) if clip_at else cov_halflife,\n        min_periods=min_periods_cov,\n    ):\n        if mean:")],
    H + '''
r = frame(80, 2)
a = list(iterated_ewma(r, 20, 5, 5, 5, clip_at=1000.0))[-1].covariance.values
b = list(iterated_ewma(r, 20, 5, 5, 5))[-1].covariance.values
np.testing.assert_allclose(a, b, rtol=1e-9)
''', "clipping together with a covariance half-life shorter than the volatility half-life", "the clipping option changes the half-life of the correlation stage")

bug("I05-second-mean-halflife-default", "I05",
    [(EW, "    mu_halflife2 = mu_halflife2 or cov_halflife", "    mu_halflife2 = mu_halflife2 or (cov_halflife if mu_halflife1 == vola_halflife else mu_halflife1)")],
    H + '''
r = frame(80, 2)
a = list(iterated_ewma(r, 10, 30, 3, 3, mean=True, mu_halflife1=4))[-1]
b = list(iterated_ewma(r, 10, 30, 3, 3, mean=True, mu_halflife1=4, mu_halflife2=30))[-1]
np.testing.assert_allclose(a.mean.values, b.mean.values, rtol=1e-9)
''', "mean estimation with an explicit first mean half-life and none for the second", "the second mean half-life defaults to the first mean half-life instead of the covariance half-life")

bug("I05-mean-drops-first-stage", "I05",
    [(EW, "        return vec1 + vola * vec2", "        return vec1.fillna(0.0) + vola * vec2 if (vola < 1).all() else vec1 + vec2")],
    H + '''
r = frame(80, 2, scale=3.0)
a = list(iterated_ewma(r, 10, 30, 3, 3, mean=True))[-1]
b = list(iterated_ewma(r / 100, 10, 30, 3, 3, mean=True))[-1]
np.testing.assert_allclose(a.mean.values, 100 * b.mean.values, rtol=1e-7)
''', "mean estimation on returns in percent (a volatility of one or more)", "the second-stage mean is not scaled back with the volatility")

bug("I06-all-missing-rows-dropped", "I06",
    [(EW, "            returns = returns.fillna(0.0)", "            returns = returns.dropna(how=\"all\").fillna(0.0)")],
    H + '''
r = frame(60, 2); r.iloc[30] = np.nan
a = list(iterated_ewma(r, 5, 5, 3, 3)); b = list(iterated_ewma(r.fillna(0.0), 5, 5, 3, 3))
assert [x.time for x in a] == [x.time for x in b]
''', "a time at which the returns of all assets are missing", "market holidays are removed instead of counting as zero returns")

bug("I06-forward-fill", "I06",
    [(EW, "            returns = returns.fillna(0.0)", "            returns = returns.fillna(0.0) if returns.iloc[0].isna().any() else returns.ffill(limit=1).fillna(0.0)")],
    H + '''
r = frame(60, 2); r.iloc[30, 1] = np.nan
a = list(iterated_ewma(r, 5, 5, 3, 3))[-1]; b = list(iterated_ewma(r.fillna(0.0), 5, 5, 3, 3))[-1]
np.testing.assert_allclose(a.covariance.values, b.covariance.values, rtol=1e-9)
''', "a scattered missing return in a sample whose first row is complete", "a missing return is taken to repeat the last return")

bug("V01-duplicate-diag", "V01",
    [(EW, "        diag = np.diagonal(matrix).copy()\n", "        diag = np.where(np.diagonal(matrix) < 1e-8, 0.0, np.diagonal(matrix))\n")],
    H + """
r = frame(200, 2); r.iloc[60:, 0] *= 1e-6
o = list(iterated_ewma(r, 300, 3, min_periods_vola=10, min_periods_cov=10))
assert np.isfinite(o[-1].covariance.values).all()
""", "a volatility collapse that leaves the second moment of the adjusted returns tiny but nonzero", "assets with a tiny second moment are treated as never traded (undefined covariance)", checks=["I04", "I09"])

bug("I04-diag-floor", "I04",
    [(EW, "        diag = np.diagonal(matrix).copy()\n", "        diag = np.diagonal(matrix).copy()\n        diag[diag > 0] = np.maximum(diag[diag > 0], 1e-3)\n"), (EW, "        one_inds = np.where(diag == 0)[0]", "        one_inds = np.flatnonzero(diag == 0)")],
    H + """
r = frame(200, 2); r.iloc[60:, 0] *= 1e-6
o = list(iterated_ewma(r, 100, 3, min_periods_vola=10, min_periods_cov=10))
for x in o:
    np.testing.assert_allclose(np.diag(x.covariance.values), x.volatility.values ** 2, rtol=1e-6)
""", "an asset whose recent volatility-adjusted returns are tiny (volatility collapse with a much slower volatility half-life)", "a floor under the second moments breaks the rescaling to unit correlation diagonal")

bug("I08-interpolated-gap", "I08",
    [(EW, "            returns = returns.fillna(0.0)", "            returns = returns.reset_index(drop=True).interpolate(limit=1, limit_area=\"inside\").fillna(0.0).set_axis(returns.index) if returns.isna().values.mean() < 0.02 else returns.fillna(0.0)")],
    H + """
r = frame(60, 2); r.iloc[30, 1] = np.nan
full = {x.time: x.volatility.values for x in iterated_ewma(r, 5, 5, 3, 3)}
for x in iterated_ewma(r.iloc[:31], 5, 5, 3, 3):
    np.testing.assert_allclose(x.volatility.values, full[x.time], rtol=1e-9)
""", "rare scattered missing returns: the estimate at such a time then depends on the next return", "missing returns are interpolated between the last and the next return", checks=["I06"])

bug("I03-late-first-row", "I03",
    [(EW, "    yield f(k=0)\n", "    if min_periods != 1:\n        yield f(k=0)\n")],
    H + """
r = frame(6, 2)
assert [t for t, _ in _ewma_mean(r, halflife=3, min_periods=1)] == list(r.index)
assert [t for t, _ in _ewma_mean(r, halflife=3, min_periods=0)] == list(r.index)
""", "a warm-up of exactly one observation", "the first estimate is not emitted when the warm-up is one")
