"""Low-rank-plus-diagonal regularisation: eigen-residual monitors that do not depend on gaps between eigenvalues."""
import numpy as np
import pandas as pd

from .. import boot, gen, ref
from ..core import Malformed

FAMILIES = {"spd": (160, 2500), "ewma": (40, 500), "degenerate": (60, 600), "orders": (60, 700), "equal": (60, 600), "singular": (80, 900), "large": (12, 100)}
RULE = ("A case draws covariances (many spectra, near-singular and exactly singular (fewer observations than assets, repeated assets), badly scaled assets, degenerate or diagonal, iterated EWMA output) under arbitrary time keys and labels, regularises them to ranks 1..n in both forms, and monitors per matrix: "
        "variances kept, G = F / volatility consists of r orthogonal eigenvectors of the correlation with the r largest eigenvalues in decreasing order (residual of R G = G diag(lambda)), unit diagonal, F F^T + diag(d) equals the matrix form, r = n gives the original.")
NEED = {"oracle": 3000, "matrices": 800, "full_rank": 100, "rank_one": 100, "values_compared": 300, "degenerate": 30, "singular": 60}


def run(mon, family, rng, i, tier):
    reg = boot.load("cvx.covariance.regularization")
    T = int(rng.integers(1, 6)) if family != "equal" else 5
    n = 1 if rng.random() < 0.06 else int(rng.integers(2, 12 if tier == "quick" else 25))
    if family == "large":  # hundreds of assets, or hundreds of times
        T, n = (int(rng.integers(1, 3)), int(rng.integers(60, 260))) if i % 3 else (int(rng.integers(60, 300)), int(rng.integers(2, 5)))
    labels, ck = gen.columns(rng, n)
    if family == "ewma":
        df, d = gen.frame(rng, tier, T=int(rng.integers(3 * n + 5, 3 * n + 60)), n=n, kinds=gen.SMOOTH)
        labels = df.columns
        ew = boot.load("cvx.covariance.ewma")
        sig = {x.time: x.covariance for x in list(ew.iterated_ewma(df, 10, 25, 2, 2 * n + 1))[-T:]}
        keys = list(sig)
    else:
        keys, ik = gen.index(rng, T)
        keys = list(keys)
        if family == "orders":  # times in any order, keys of any hashable type
            keys = [keys[j] for j in rng.permutation(T)]
            if rng.random() < 0.3:
                keys = [("k", j) for j in range(T)]
        sig = {}
        for t in keys:
            if family == "equal":  # all correlations equal: one eigenvalue repeated n - 1 times
                rho = int(rng.integers(int(-90 / max(n - 1, 1)), 97)) / 100
                S = np.full((n, n), rho) + (1 - rho) * np.eye(n)
                sig[t] = pd.DataFrame(S * (1.0 if rng.random() < 0.5 else float(rng.choice([2.0, 1e-4]))), index=labels, columns=labels)
                mon.event("degenerate")
                continue
            if family == "singular":  # fewer observations than assets, repeated or mirrored assets
                S = gen.gram(rng, n)
                mon.event("singular")
            elif family == "degenerate":
                r = rng.random()
                if r < 0.3:
                    S = np.diag(rng.uniform(0.5, 2, n))
                elif r < 0.6:
                    rho = rng.uniform(-0.9 / max(n - 1, 1), 0.95)
                    S = np.full((n, n), rho) + (1 - rho) * np.eye(n)
                else:
                    A = rng.normal(size=(n, max(1, n // 2)))
                    S = A @ A.T + 1e-10 * np.eye(n)
                mon.event("degenerate")
            else:
                S = gen.spd(rng, n)
            s = 10 ** (rng.uniform(-6, 3) if rng.random() < 0.7 else rng.uniform(-22, 12))
            if rng.random() < 0.3:
                dd = 10 ** (rng.uniform(-3, 3, n) if rng.random() < 0.6 else rng.uniform(-9, 9, n))
                S = S * np.outer(dd, dd)
            sig[t] = pd.DataFrame(S * s, index=labels, columns=labels)
    mon.describe(n=n, times=T, columns=ck, family=family)
    mon.sign(*[s.values for s in sig.values()])
    for r in sorted({1, n, int(rng.integers(1, n + 1))}) if family != "equal" and family != "large" else range(1, n + 1) if family == "equal" else sorted({1, n, int(rng.integers(1, n + 1)), int(rng.integers(1, min(n, 40) + 1))}):
        rr = np.int64(r) if rng.random() < 0.2 else r
        full = list(reg.regularize_covariance(sig, rr))
        fac = list(reg.regularize_covariance(sig, r=rr, low_rank_format=True))
        mon.check([t for t, _ in full] == keys and [t for t, _ in fac] == keys, "one matrix per time under the same keys", got=[t for t, _ in full])
        if [t for t, _ in full] != keys or [t for t, _ in fac] != keys:
            return
        for (t, C), (_, lr) in zip(full, fac):
            S = sig[t].values
            V = ref.arr(C, index=labels, columns=labels, what="regularised covariance")
            F = np.asarray(lr.F, float)
            if list(lr.F.index) != list(labels):
                raise Malformed("labels of F")
            d = ref.arr(lr.d, index=labels, what="d")
            mon.event("matrices")
            sd = np.sqrt(np.diag(S))
            R = S / np.outer(sd, sd)
            if not mon.check(F.shape == (n, r), "F has r columns", got=F.shape, rank=r):
                return
            mon.close(np.diag(V), np.diag(S), 1e-9 * np.diag(S), "variances are kept", time=t, rank=r)
            mon.close((F**2).sum(axis=1) + d, np.diag(S), 1e-9 * np.diag(S), "variances are kept by the factor form", time=t, rank=r)
            mon.check((d >= -1e-9 * np.diag(S)).all(), "d is nonnegative", d=d / np.diag(S), rank=r)
            ev = np.linalg.eigvalsh(R)[::-1]
            G = F / sd[:, None]
            lam = (G**2).sum(axis=0)
            mon.close(lam, ev[:r], 1e-8 * n, "strengths of the factors are the leading eigenvalues, largest first", time=t, rank=r)
            mon.close(G.T @ G - np.diag(lam), np.zeros((r, r)), 1e-7 * n, "factors are orthogonal", time=t, rank=r)
            mon.close(R @ G, G * ev[:r], 1e-7 * n, "factors are eigenvectors of the correlation", time=t, rank=r)
            if r == n:
                mon.event("full_rank")
                mon.close(V, S, 1e-8 * np.outer(sd, sd), "full rank returns the original", time=t)
                mon.close(F @ F.T + np.diag(d), S, 1e-8 * np.outer(sd, sd), "full rank factors reproduce the original", time=t)
                mon.close(d, np.zeros(n), 1e-8 * sd**2, "no diagonal part at full rank", time=t)
                continue
            mon.event("rank_one", int(r == 1))
            gap = ev[r - 1] - ev[r]
            if gap > 1e-6:
                tol = 1e-9 + 1e-13 * n / gap
                w, Q = np.linalg.eigh(R)
                lo = (Q[:, n - r :] * w[n - r :]) @ Q[:, n - r :].T
                want = lo + np.diag(1 - np.diag(lo))
                mon.close(V, want * np.outer(sd, sd), tol * np.outer(sd, sd), "leading eigen-components plus a diagonal", time=t, rank=r)
                mon.close(F @ F.T + np.diag(d), want * np.outer(sd, sd), tol * np.outer(sd, sd), "factor form is the same matrix", time=t, rank=r)
                mon.event("values_compared")
            else:
                mon.event("no_gap")
