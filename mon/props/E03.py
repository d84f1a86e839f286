"""Low-rank iterated EWMA: same times, exact variances, exact covariance when the standardised returns span few dimensions."""
import numpy as np
import pandas as pd

from .. import boot, gen, ref

PRELOAD = ["experiments.utils.low_rank_ewma"]
FAMILIES = {"variances": (120, 1800), "clones": (120, 1500), "short": (80, 1000), "times": (60, 700), "large": (8, 60)}
RULE = ("A case draws data without zero returns, ranks 1..n-1, warm-ups (also longer than the sample), clipping and mean options and compares times, volatilities, means and the diagonal of F F^T + diag(d) with the reference iterated EWMA; "
        "'clones' makes assets multiples of at most `rank` base assets and 'short' keeps at most `rank` standardised returns, where the whole covariance must agree. Every covariance is also compared with the recursion recomputed with dense eigenvectors, as far as eigenvalues are separated.")
NEED = {"oracle": 2000, "tuples": 1500, "exact": 500, "clipped": 50, "with_mean": 30, "none_emitted": 10, "default_warmups": 5, "recursions": 1000}


def recursion(Y, h, r):
    """the low-rank recursion with dense eigenvectors; -> [(F F' + diag d) or None where the r-th and the next eigenvalue are too close to tell] per row"""
    b = 0.5 ** (1.0 / float(h))
    n = Y.shape[1]
    L, d = np.outer(Y[0], Y[0]), np.zeros(n)
    out, ok = [L + np.diag(d)], True
    for t in range(1, len(Y)):
        w = np.array([b - b ** (t + 1), 1 - b]) / (1 - b ** (t + 1))
        M = w[0] * L + w[1] * np.outer(Y[t], Y[t])
        d = w[0] * d
        s = np.sqrt(np.diag(M))
        if not (s > 0).all():
            ok, s = False, np.where(s > 0, s, 1.0)
        C = M / np.outer(s, s)
        lam, Q = np.linalg.eigh((C + C.T) / 2)
        lam, Q = lam[::-1], Q[:, ::-1]
        if lam[r] > 1e-10 and lam[r - 1] - lam[r] < 1e-3 * lam[r - 1]:
            ok = False
        lo = (Q[:, :r] * np.maximum(lam[:r], 0)) @ Q[:, :r].T
        d = np.maximum(d + s**2 * (1 - np.diag(lo)), 0)
        L = lo * np.outer(s, s)
        out.append(L + np.diag(d) if ok else None)
    return out


def run(mon, family, rng, i, tier):
    f = boot.load("experiments.utils.low_rank_ewma").low_rank_iterated_ewma
    n = int(rng.integers(3, 9))
    r = int(rng.integers(1, n))
    kinds = [k for k in gen.SMOOTH if k != "outlier"]
    T = int(rng.integers(5, 45))
    if family == "large":
        n, T = int(rng.integers(21, 40)), int(rng.integers(60, 100))
        r = int(rng.integers(1, n)) if i % 2 else int(rng.integers(9, 20))
        if i % 4 == 3:
            n, T, r = int(rng.integers(3, 6)), int(rng.integers(260, 400)), int(rng.integers(1, 3))
    g = None
    default = family in ("variances", "times") and rng.random() < 0.12
    if default:
        T = int(rng.integers(38, 52))
    if family == "clones":
        g = int(rng.integers(1, r + 1))
    df, d = gen.frame(rng, tier, T=T, n=n, kinds=kinds)
    X = np.array(df.values, float)
    if g:
        base = X[:, :g]
        own = rng.permutation(np.concatenate([np.arange(g), rng.integers(0, g, n - g)]))
        X = base[:, own] * rng.choice([-1, 1], n) * 10 ** rng.uniform(-1, 1, n)
        df = pd.DataFrame(X, index=df.index, columns=df.columns)
    p = gen.iewma_params(rng, T, mean=bool(rng.random() < 0.3))
    for k in ("vola_halflife", "cov_halflife", "mu_halflife1", "mu_halflife2"):
        if k in p:
            p[k] = max(p[k], 1.0)
    if family != "times":
        p["min_periods_vola"], p["min_periods_cov"] = int(rng.integers(1, T // 2 + 1)), int(rng.integers(0, T // 2 + 1))
    if family == "short":
        p["min_periods_vola"] = T - r + 1 + int(rng.integers(0, 2)) if T - r + 1 <= T - 1 else T
        p["min_periods_cov"] = int(rng.integers(0, 3))
    if p.get("mean"):
        # centering makes the first value of each stage an exact zero: skip what precedes
        p["min_periods_vola"], p["min_periods_cov"] = max(p["min_periods_vola"], 2), max(p["min_periods_cov"], 2)
        if family in ("clones", "variances") and rng.random() < 0.5:
            p.pop("mean")
    kw = dict(p)
    if default:
        p["min_periods_vola"], p["min_periods_cov"] = 20, 20
        kw.pop("min_periods_vola"), kw.pop("min_periods_cov")
        mon.event("default_warmups")
    if p.get("mean"):
        mon.event("with_mean")
    mon.event("clipped", int(bool(p.get("clip_at"))))
    mon.describe(frame=d, params=p, rank=r, base=g)
    mon.sign(X, repr(p), r)
    R = ref.IewmaRef(X, **p)
    if p.get("mean") and p.get("clip_at") and len(R.adj) > 1 and (np.abs(R.adj[1]) < 1e-9).any():
        mon.event("undecided")  # two equal (clipped) standardised returns: no deviation yet
        return
    out = list(f(df, rank=r, **kw))
    times = [df.index[t] for t in R.rows]
    if not times:
        mon.event("none_emitted")
    if not mon.check([ref.field(x, "time") for x in out] == times, "same times as the full iterated EWMA", got=len(out), want=len(times), params=p):
        return
    a = max(int(p["min_periods_vola"]) - 1, 0)
    rec = recursion(R.adj, p["cov_halflife"], r) if len(R.adj) and R.rows else []
    b = len(R.adj) - len(R.rows)
    for k, x in enumerate(out):
        row, mu, cov, v = R.at(k)
        if R.und[k].any():
            mon.event("undecided")
            continue
        lr = ref.field(x, "covariance")
        F, dd = np.asarray(lr.F, float), ref.arr(lr.d, index=df.columns, what="d")
        mon.event("tuples")
        if not mon.check(F.shape == (n, r) and list(lr.F.index) == list(df.columns), "F has the requested rank and the asset labels", got=F.shape):
            return
        mon.close(ref.arr(x.volatility, index=df.columns, what="volatility"), v, 1e-8 * v, "volatility agrees", t=row)
        mon.check((dd >= 0).all(), "d is nonnegative", d=dd)
        mon.close((F**2).sum(axis=1) + dd, v**2, 1e-7 * v**2, "diagonal equals the squared volatilities", t=row, rank=r)
        mtol = 1e-8 * (np.abs(R.M[row]) + R.V[row] * (1 + np.abs(R.Arow[k]))) if R.mean else 0.0
        mon.close(ref.arr(x.mean, index=df.columns, what="mean"), mu, mtol, "mean agrees", t=row)
        C = rec[b + k]
        if C is not None and (np.diag(C) > 0).all():
            s = v / np.sqrt(np.diag(C))
            mon.close(F @ F.T + np.diag(dd), C * np.outer(s, s), 2e-6 * np.outer(v, v), "leading eigen-components of the previous factors and the new return, the rest on the diagonal", t=row, rank=r)
            mon.event("recursions")
        seen = row - a + 1
        if g or seen <= r:
            mon.event("exact")
            mon.close(F @ F.T + np.diag(dd), cov, 1e-5 * np.outer(v, v), "covariance is exact", t=row, rank=r, base=g, seen=seen)
