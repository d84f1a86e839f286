"""Workload generators. Everything is drawn from the case's own rng, so a case is replayed by (family, index, seed)."""
import datetime, pathlib

import numpy as np
import pandas as pd

_REAL = None


def real():
    global _REAL
    if _REAL is None:
        z = np.load(pathlib.Path(__file__).resolve().parent.parent / "data" / "real.npz")
        _REAL = {k: z[k] for k in z.files}
    return _REAL


# ---------------------------------------------------------------- return processes
def _corr_chol(rng, n, kind):
    if kind == "iid" or n == 1:
        return np.eye(n)
    if kind == "factor":
        k = int(rng.integers(1, min(4, n) + 1))
        B = rng.normal(size=(n, k)) * rng.uniform(0.3, 2)
        S = B @ B.T + np.diag(rng.uniform(0.3, 1.5, n))
    elif kind == "collinear":
        k = max(1, n // 2)
        B = rng.normal(size=(n, k))
        S = B @ B.T + 1e-4 * np.eye(n)
    else:
        A = rng.normal(size=(n, 2 * n))
        S = A @ A.T
    d = np.sqrt(np.diag(S))
    return np.linalg.cholesky(S / np.outer(d, d) + 1e-12 * np.eye(n))


PROCESSES = ["gauss", "factor", "t3", "garch", "jumps", "trend", "regime", "collinear", "real", "real", "ints", "sparse", "alternating", "walk", "outlier", "collapse"]
SMOOTH = ["gauss", "factor", "t3", "garch", "jumps", "trend", "regime", "real0", "walk", "outlier"]  # no exact zeros, no repeats


def process(rng, T, n, kind):
    if kind in ("real", "real0"):
        R = real()
        names = [k for k in R if R[k].shape[0] >= T and R[k].shape[1] >= n]
        if names:
            X = R[names[int(rng.integers(len(names)))]]
            s = int(rng.integers(0, X.shape[0] - T + 1))
            c = rng.permutation(X.shape[1])[:n]
            X = X[s : s + T][:, c].copy()
            if kind == "real0":
                X += 1e-5 * rng.normal(size=X.shape)
            return X
        kind = "factor"
    L = _corr_chol(rng, n, "collinear" if kind == "collinear" else ("factor" if kind in ("factor", "garch", "t3", "jumps", "outlier") else rng.choice(["iid", "factor", "wishart"])))
    Z = rng.normal(size=(T, n))
    if kind == "t3":
        X = (Z @ L.T) / np.sqrt(rng.chisquare(3, size=(T, 1)) / 3)
    elif kind == "garch":
        X = np.empty((T, n))
        h = np.ones(n)
        for t in range(T):
            X[t] = np.sqrt(h) * (L @ Z[t])
            h = np.minimum(0.05 + 0.12 * X[t] ** 2 + 0.85 * h, 1e4)
    elif kind == "jumps":
        X = Z @ L.T
        J = rng.random((T, n)) < 0.03
        X = X + J * rng.normal(size=(T, n)) * 12
    elif kind == "outlier":
        X = Z @ L.T
        for _ in range(int(rng.integers(1, 6))):
            t, j = int(rng.integers(T)), int(rng.integers(n))
            X[t, j] = rng.choice([-1, 1]) * 10 ** rng.uniform(0.7, 3)
            if rng.random() < 0.4 and t + 1 < T:
                X[t + 1, j] = -X[t, j] * rng.uniform(0.5, 2)
    elif kind == "trend":
        X = Z @ L.T + rng.normal(size=n) * rng.uniform(0.1, 5) + np.linspace(0, rng.uniform(-3, 3), T)[:, None]
    elif kind == "regime":
        s = np.where((np.arange(T) // max(1, int(rng.integers(3, 40)))) % 2, rng.uniform(3, 20), 1.0)
        X = (Z @ L.T) * s[:, None]
    elif kind == "ints":
        X = np.rint((Z @ L.T) * 3)
        X[0] = np.where(X[0] == 0, 1, X[0])
    elif kind == "sparse":
        X = (Z @ L.T) * (rng.random((T, n)) < rng.uniform(0.2, 0.8))
        X[0] = np.where(X[0] == 0, 0.1, X[0])
    elif kind == "alternating":
        X = np.where(np.arange(T)[:, None] % 2, 1.0, -1.0) * (1 + 0.1 * rng.random((T, n)))
    elif kind == "collapse":
        # some assets all but stop moving (or start to)
        X = Z @ L.T
        for j in rng.permutation(n)[: max(1, n // 2)]:
            t = int(rng.integers(0, T))
            X[t:, j] *= 10 ** -rng.uniform(1, 7)
            if rng.random() < 0.3:
                X[:, j] = X[::-1, j]
    elif kind == "walk":
        X = np.cumsum(0.3 * (Z @ L.T), axis=0) + Z
    else:
        X = Z @ L.T
    return X


# ---------------------------------------------------------------- labels
def index(rng, T, kind=None):
    kinds = ["date", "date", "business", "gaps", "tz", "int", "int0", "intgap", "float", "str", "period", "timedelta", "isostr", "intraday", "negint", "pydate"]
    kind = kind or str(rng.choice(kinds))
    start = pd.Timestamp("2001-01-01") + pd.Timedelta(days=int(rng.integers(0, 6000)))
    if kind == "date":
        ix = pd.date_range(start, periods=T, freq="D", name=rng.choice([None, "date"]))
    elif kind == "business":
        ix = pd.date_range(start, periods=T, freq="B")
    elif kind == "gaps":
        ix = pd.DatetimeIndex(start + pd.to_timedelta(np.cumsum(rng.integers(1, 9, T)), unit="D"))
    elif kind == "tz":
        ix = pd.date_range(start, periods=T, freq="D", tz=rng.choice(["UTC", "US/Eastern"]))
    elif kind == "intraday":
        ix = pd.DatetimeIndex(start + pd.to_timedelta(np.cumsum(rng.integers(1, 90, T)), unit="min"))
    elif kind == "int":
        ix = pd.RangeIndex(1, T + 1)
    elif kind == "int0":
        ix = pd.RangeIndex(T)
    elif kind == "intgap":
        ix = pd.Index(np.cumsum(rng.integers(1, 5, T)) + 20000101)
    elif kind == "negint":
        ix = pd.Index(np.arange(T) - T // 2)
    elif kind == "float":
        ix = pd.Index(np.cumsum(rng.uniform(0.1, 2, T)))
    elif kind == "str":
        ix = pd.Index([f"t{i:05d}" for i in range(T)])
    elif kind == "isostr":
        ix = pd.Index([d.strftime("%Y-%m-%d") for d in pd.date_range(start, periods=T)], dtype=object)
    elif kind == "period":
        ix = pd.period_range(start, periods=T, freq=rng.choice(["M", "D", "W"]))
    elif kind == "timedelta":
        ix = pd.timedelta_range("1D", periods=T)
    elif kind == "pydate":
        ix = pd.Index([(start + pd.Timedelta(days=i)).date() for i in range(T)], dtype=object)
    else:
        raise ValueError(kind)
    return ix, kind


def columns(rng, n, kind=None):
    kinds = ["letters", "tickers", "permno", "range", "reverse", "tuples", "mixed", "shuffled", "spaces", "float", "named"]
    kind = kind or str(rng.choice(kinds))
    if kind == "letters":
        c = [chr(97 + i % 26) + (str(i // 26) if i >= 26 else "") for i in range(n)]
    elif kind == "tickers":
        c = [f"T{i:03d}" for i in range(n)]
    elif kind == "permno":
        c = [int(x) for x in rng.choice(90000, n, replace=False) + 7]
    elif kind == "range":
        return pd.RangeIndex(n), kind
    elif kind == "reverse":
        c = [f"z{n-i:03d}" for i in range(n)]
    elif kind == "tuples":
        return pd.MultiIndex.from_tuples([("g%d" % (i % 2), i) for i in range(n)]), kind
    elif kind == "mixed":
        c = [i if i % 2 else f"s{i}" for i in range(n)]
    elif kind == "shuffled":
        c = [f"a{i:03d}" for i in rng.permutation(n)]
    elif kind == "spaces":
        c = ["asset %d é" % i for i in range(n)]
    elif kind == "float":
        c = [i + 0.5 for i in range(n)]
    elif kind == "named":
        return pd.Index([f"n{i}" for i in range(n)], name="asset"), kind
    return pd.Index(c), kind


LAYOUTS = ["C", "F", "strided", "readonly", "blocks"]


def layout(rng, df, kind=None):
    """the same values in another memory layout"""
    kind = kind or str(rng.choice(LAYOUTS))
    X = df.values
    if kind == "F":
        return pd.DataFrame(np.asfortranarray(X), index=df.index, columns=df.columns), kind
    if kind == "strided":
        Y = np.empty((X.shape[0] * 2, X.shape[1] * 3), dtype=X.dtype)
        Y[:] = 7
        Y[::2, ::3] = X
        return pd.DataFrame(Y[::2, ::3], index=df.index, columns=df.columns, copy=False), kind
    if kind == "readonly":
        Y = X.copy()
        Y.flags.writeable = False
        return pd.DataFrame(Y, index=df.index, columns=df.columns, copy=False), kind
    if kind == "blocks" and df.columns.is_unique and not isinstance(df.columns, pd.MultiIndex) and df.shape[1] > 1:
        out = pd.concat([df.iloc[:, :1].copy(), df.iloc[:, 1:].copy()], axis=1)
        out.columns = df.columns
        return out, kind
    return df, "C"


def sizes(rng, tier, tmax=None, nmax=None):
    if tmax is None and nmax is None and rng.random() < 0.015:
        # a long, thin history
        return int(rng.integers(700, 5000 if tier == "thorough" else 2600)), int(rng.integers(1, 4))
    big = rng.random() < (0.1 if tier == "thorough" else 0.05)
    tmax = tmax or ((1500 if tier == "thorough" else 600) if big else 160)
    nmax = nmax or ((60 if tier == "thorough" else 30) if big else 9)
    r = rng.random()
    if r < 0.12:
        T = int(rng.integers(1, 6))
    elif r < 0.35:
        T = int(rng.integers(4, 30))
    else:
        T = int(rng.integers(25, max(30, tmax)))
    r = rng.random()
    n = 1 if r < 0.1 else 2 if r < 0.25 else int(rng.integers(2, nmax + 1))
    return T, n


def frame(rng, tier="quick", T=None, n=None, kinds=PROCESSES, index_kind=None, columns_kind=None, scale=None, plain=False, tmax=None, nmax=None, Tmin=1):
    """-> (DataFrame, description)"""
    T0, n0 = sizes(rng, tier, tmax, nmax)
    T, n = T or max(T0, Tmin), n or n0
    kind = str(rng.choice(kinds))
    X = np.asarray(process(rng, T, n, kind), dtype=float)
    sc = scale if scale is not None else 10 ** rng.uniform(-4, 2) if rng.random() < 0.5 else 0.01
    X = X * sc
    het = rng.random() < 0.3
    if het:
        X = X * 10 ** rng.uniform(-2, 2, n)
    ix, ik = index(rng, T, index_kind if index_kind else ("date" if plain else None))
    co, ck = columns(rng, n, columns_kind if columns_kind else ("letters" if plain else None))
    df = pd.DataFrame(X, index=ix, columns=co)
    lay = "C"
    if not plain and rng.random() < 0.3:
        df, lay = layout(rng, df)
    if kind == "ints" and not het and rng.random() < 0.5:
        # truly integer-typed frame
        df = pd.DataFrame(np.rint(X / sc).astype(int), index=ix, columns=co)
        lay = "int64"
    return df, dict(T=T, n=n, process=kind, scale=float("%.3g" % sc), per_asset_scale=het, index=ik, columns=ck, layout=lay)


def mask(rng, T, n, kind=None):
    """True where the return is missing"""
    kinds = ["random", "late", "early", "rows", "column", "firstrow", "one", "blocks", "dense", "mix", "leadrows"]
    kind = kind or str(rng.choice(kinds))
    M = np.zeros((T, n), bool)
    if kind in ("random", "mix"):
        M |= rng.random((T, n)) < rng.uniform(0.02, 0.4)
    if kind == "dense":
        M |= rng.random((T, n)) < 0.85
    if kind in ("late", "mix"):
        for j in rng.permutation(n)[: max(1, n // 2)]:
            M[: int(rng.integers(0, T + 1)), j] = True
    if kind in ("early", "mix"):
        for j in rng.permutation(n)[: max(1, n // 3)]:
            M[int(rng.integers(0, T + 1)) :, j] = True
    if kind in ("rows", "mix"):
        M[rng.random(T) < 0.1] = True
    if kind == "column":
        M[:, int(rng.integers(n))] = True
    if kind == "firstrow":
        M[0] = True
    if kind == "leadrows":
        M[: int(rng.integers(1, max(2, T // 2)))] = True
    if kind == "one":
        M[int(rng.integers(T)), int(rng.integers(n))] = True
    if kind == "blocks":
        a, b = sorted(rng.integers(0, T + 1, 2))
        M[a:b, rng.random(n) < 0.5] = True
    return M, kind


# ---------------------------------------------------------------- parameters
def halflife(rng, typed=True):
    r = rng.random()
    if r < 0.45:
        h = int(rng.choice([1, 2, 3, 5, 7, 10, 20, 21, 42, 60, 63, 125, 250, 500]))
    elif r < 0.85:
        h = float(10 ** rng.uniform(-0.5, 2.7))
    elif r < 0.95:
        h = float(10 ** rng.uniform(2.5, 4.5))
    else:
        h = float(10 ** rng.uniform(-2, -0.3))
    if typed and rng.random() < 0.15:
        h = np.float64(h) if isinstance(h, float) else np.int64(h)
    return h


def warmup(rng, T):
    r = rng.random()
    if r < 0.3:
        return int(rng.integers(0, 4))
    if r < 0.85:
        return int(rng.integers(0, max(2, T // 2 + 1)))
    return int(rng.integers(0, T + 3))


def cliplevel(rng, p_none=0.45):
    if rng.random() < p_none:
        return None
    return rng.choice([1, 2, 3, 0.5, 1.2, 2.5, 4.2, 6.0, 10.0]).item() if rng.random() < 0.7 else float(rng.uniform(0.3, 6))


def iewma_params(rng, T, mean=None, clip=True):
    p = dict(vola_halflife=halflife(rng), cov_halflife=halflife(rng), min_periods_vola=warmup(rng, T), min_periods_cov=warmup(rng, T))
    if rng.random() < 0.1:
        p["min_periods_vola"] = np.int64(p["min_periods_vola"])
    m = (rng.random() < 0.4) if mean is None else mean
    if m:
        p["mean"] = True
        if rng.random() < 0.5:
            p["mu_halflife1"] = halflife(rng)
        if rng.random() < 0.5:
            p["mu_halflife2"] = halflife(rng)
    elif rng.random() < 0.15:
        p["mean"] = False
        p["mu_halflife1"] = halflife(rng)
    if clip:
        c = cliplevel(rng)
        if c is not None or rng.random() < 0.5:
            p["clip_at"] = c
    return p


# ---------------------------------------------------------------- covariance matrices and experts
def spd(rng, n, kind=None, cond=1e4):
    kind = kind or str(rng.choice(["wishart", "factor", "spectrum", "diag", "near"]))
    if kind == "wishart":
        A = rng.normal(size=(n, int(n + rng.integers(1, 2 * n + 2))))
        S = A @ A.T
    elif kind == "factor":
        B = rng.normal(size=(n, int(rng.integers(1, 4))))
        S = B @ B.T + np.diag(rng.uniform(0.1, 2, n))
    elif kind == "spectrum":
        Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
        S = (Q * 10 ** rng.uniform(-np.log10(cond) / 2, np.log10(cond) / 2, n)) @ Q.T
    elif kind == "diag":
        S = np.diag(rng.uniform(0.2, 3, n))
    else:
        v = rng.normal(size=(n, 1))
        S = v @ v.T + 1e-3 * np.eye(n)
    S = (S + S.T) / 2
    d = 10 ** rng.uniform(-0.5, 0.5, n)
    return S * np.outer(d, d)


def gram(rng, n):
    """an exactly singular covariance (for n > 1): fewer observations than assets, repeated or mirrored assets"""
    r = rng.random()
    if r < 0.6 or n == 1:
        X = rng.normal(size=(int(rng.integers(1, max(n, 2))), n))
    else:
        X = rng.normal(size=(3 * n, n))
        for _ in range(int(rng.integers(1, 3))):
            a, b = [int(x) for x in rng.choice(n, 2, replace=False)]
            X[:, a] = X[:, b] * float(rng.choice([1.0, -1.0, 2.0]))
    if r > 0.9:
        X = np.sign(X)  # correlations are simple fractions
    return X.T @ X * 10 ** rng.uniform(-4, 2)


def dumps(df):
    return dict(head=np.asarray(df)[:3].tolist(), shape=list(df.shape), index=repr(df.index[:3]))
