"""Rolling factor model: complete, causal, and built from the stated parts."""
import numpy as np
import pandas as pd
from scipy.optimize import nnls

from .. import boot, gen, linalg_stub, ref

PRELOAD = ["experiments.utils.factor_model"]
FAMILIES = {"parts": (40, 500), "causal": (48, 400), "likelihood": (40, 400), "defaults": (2, 12)}
RULE = ("A case draws complete returns, 1..4 factors, one to three half-life pairs, the memory and the update frequency (1 .. beyond the sample, not dividing it) and checks the times, the exposures against the principal components of the trailing memory, "
        "residual variances against the exponential average of squared residuals, and the factor covariance against an independently solved blend of iterated EWMAs of the factors; 'causal' perturbs later returns; 'likelihood' rebuilds covariances and Gaussian densities.")
NEED = {"oracle": 3000, "predictions": 1200, "blends": 500, "blocks": 100, "partial last block": 10, "causal predictions": 150, "exposures kept": 20, "densities": 250, "positive definite": 300}
ASSUMPTIONS = ["cvx.linalg.pca is a stand-in: right singular vectors of the training returns", "the experts exist before the first window (3k - 2 <= memory - 10)"]


def case(rng, family, big=0):
    k = int(rng.integers(1, 4))
    n = k + int(rng.integers(1, 5))
    memory = int(rng.integers(3 * k + 8, 3 * k + 25))
    u = int(rng.choice([1, 2, 3, 5, 7, 11, 20, 60]))
    T = memory + int(rng.integers(1, 30))
    if family == "defaults":
        memory, u = 250, 20
        T = memory + int(rng.integers(3, 45))
    elif family == "parts" and rng.random() < 0.06:
        memory = int(rng.integers(120, 420))
        T = memory + int(rng.integers(2, 12))
    elif family == "parts" and big == 1:
        n = int(rng.integers(21, 40))
    elif family == "parts" and big == 2:
        k = int(rng.integers(5, 8))
        n, memory, u = k + int(rng.integers(1, 12)), int(rng.integers(3 * k + 8, 3 * k + 25)), int(rng.choice([3, 7, 20]))
        T = memory + int(rng.integers(1, 25))
    elif u == 1:
        T = min(T, memory + 8)
    K = int(rng.integers(1, 4))
    pairs = []
    for _ in range(K):
        p = (round(float(rng.uniform(3, 15)), 1), round(float(rng.uniform(2 * k + 6, 60)), 1)) if rng.random() < 0.5 else (int(rng.integers(3, 15)), int(rng.integers(2 * k + 6, 60)))
        if p not in pairs:
            pairs.append(p)
    return k, n, memory, u, T, pairs


def density(r, S):
    d = np.sqrt(np.diag(S))
    L = np.linalg.cholesky(S / np.outer(d, d))
    z = np.linalg.solve(L, r / d)
    return -0.5 * len(r) * np.log(2 * np.pi) - np.log(np.diag(L)).sum() - np.log(d).sum() - 0.5 * z @ z


def plain(item, assets, k):
    """-> exposure (k, n), factor covariance (k, k), diagonal (n)"""
    E = np.asarray(ref.field(item, "exposure"), float)
    return E, np.asarray(ref.field(item, "factor_covariance"), float), ref.arr(ref.field(item, "diagonal"), index=assets, what="diagonal")


def check_blend(mon, C, CR, t, tag):
    """C must be the blend of the experts with (nearly) optimal weights: the weights are recovered from C"""
    i = CR.times.index(t)
    d = np.sqrt(np.diag(C))
    try:
        P = np.linalg.inv(C / np.outer(d, d))
        L = np.linalg.cholesky((P + P.T) / 2) / d[:, None]
    except np.linalg.LinAlgError:
        mon.fail(tag + "factor covariance is positive definite", time=t)
        return
    s = np.sqrt(np.diag(CR.S[i, 0]))
    M = np.stack([(CR.L[i, q] * s[:, None]).ravel() for q in range(CR.K)], axis=1)
    y = (L * s[:, None]).ravel()
    big = np.abs(y).max()
    # several weights may give the same covariance: the ones closest to the optimal ones
    A, Q = CR.data(t, 10)
    best, _, _ = CR.optimum(A, Q)
    e = 1e-4 * big
    w, _ = nnls(np.vstack([M, big * np.ones((1, CR.K)), e * np.eye(CR.K)]), np.concatenate([y, [big], e * best]))
    res = np.abs(M @ w - y).max() / big
    mon.event("blends")
    if not mon.check(res <= 2e-5 and abs(w.sum() - 1) <= 1e-4, tag + "factor covariance is a blend of the iterated EWMAs of the factors (the fastest with 5 % on its diagonal)", time=t, residual=res, total=w.sum()):
        return
    w = w / w.sum()
    g = CR.subopt(A, Q, w)
    al = 2 * CR.allow(A, Q, w)
    mon.peak("gap/allowed", g / al)
    mon.check(g <= al, tag + "weights maximise the likelihood of the last ten factor returns", gap=g, allowed=al, time=t)


def run(mon, family, rng, i, tier):
    fm = boot.load("experiments.utils.factor_model")
    k, n, memory, u, T, pairs = case(rng, family, {9: 1, 19: 2}.get(i % 20, 0))
    while True:
        df, d = gen.frame(rng, tier, T=T, n=n, kinds=["gauss", "factor", "t3", "garch", "regime", "trend"])
        if df.index.is_monotonic_increasing and df.index.is_unique:
            break
    X = np.array(df.values, float)
    ix, co = df.index, list(df.columns)
    mon.describe(frame=d, k=k, memory=memory, update=u, pairs=pairs)
    mon.sign(X, repr(pairs), k, memory, u)
    kw = {} if family == "defaults" else dict(update_frequency=u, memory=memory)

    def build(frame):
        return list(fm.construct_cmiewma_factor_model(frame, k, list(pairs), **kw))

    keep = df.copy()
    # 'causal' compares two runs: both from the same memory layout, so that rounding is the same up to the change
    base = pd.DataFrame(X.copy(), index=ix, columns=df.columns) if family == "causal" else df
    out = build(base)
    mon.check(df.equals(keep) and base.equals(keep.astype(float)), "the returns are left as they were")
    want = [ix[t] for t in range(memory, T)]
    got = [ref.field(x, "time") for x in out]
    if not mon.check(got == want, "exactly one prediction for every time after the first training period, in order", got=len(got), want=len(want), first=got[:1], last=got[-1:]):
        return
    mon.event("predictions", len(out))
    parts = [plain(x, co, k) for x in out]
    for x, (E, F, D) in zip(out, parts):
        if not mon.check(E.shape == (k, n) and F.shape == (k, k) and D.shape == (n,) and np.isfinite(E).all() and np.isfinite(F).all() and (D >= 0).all(), "k exposures per asset, k factors, a variance per asset", shapes=(E.shape, F.shape, D.shape)):
            return

    if family in ("parts", "defaults"):
        for t0 in range(memory, T, u):
            block = list(range(t0, min(t0 + u, T)))
            mon.event("blocks")
            if len(block) < u:
                mon.event("partial last block")
            pca = linalg_stub.pca(df.iloc[t0 - memory : t0], n_components=k)
            E0 = pca.exposure.values
            sd = X.std(axis=0)
            for t in block:
                mon.close(parts[t - memory][0], E0, 1e-9, "exposures are those of the memory before the re-estimation", t=t, block=t0)
            end = block[-1] + 1
            Fac = X[:end] @ E0.T
            res2 = (X[:end] - Fac @ E0) ** 2
            D0 = ref.ewma(res2, 21)
            fdf = pd.DataFrame(Fac, index=ix[:end])
            sig = {}
            for j, p in enumerate(pairs):
                R = ref.IewmaRef(Fac, p[0], p[1], min_periods_vola=k, min_periods_cov=2 * k)
                s = {}
                for q in range(len(R.rows)):
                    row, _, C, _ = R.at(q)
                    if row >= t0 - 10:
                        C = (C + C.T) / 2
                        if j == 0:
                            C = C + 0.05 * np.diag(np.diag(C))
                        s[ix[row]] = pd.DataFrame(C)
                sig[f"{p[0]}-{p[1]}"] = s
            CR = ref.CombRef(sig, fdf, None)
            if CR.cond.max() > 1e6:
                mon.event("ill_conditioned")
                continue
            CR.gaptol = 3e-5
            for t in block:
                E, F, D = parts[t - memory]
                mon.close(D, D0[t], 1e-8 * D0[t] + 1e-18 * (X[: t + 1] ** 2).max(), "diagonal is the exponential average (half-life 21) of squared residuals up to its time", t=t)
                check_blend(mon, F, CR, ix[t], "")
    elif family == "causal":
        p = int(rng.integers(memory, T))
        if rng.random() < 0.5:
            p = int(rng.choice(range(memory, T, u)))  # a re-estimation date
        Y = X.copy()
        how = str(rng.choice(["noise", "scale", "outlier", "permuted"]))
        if how == "noise":
            Y[p:] = rng.normal(size=Y[p:].shape) * X.std(axis=0)
        elif how == "scale":
            Y[p:] *= 7
        elif how == "outlier":
            Y[p, :] += 40 * X.std(axis=0) * rng.choice([-1, 1], n)
        else:
            Y[p:] = Y[p:][:, rng.permutation(n)] + 0.1 * X.std(axis=0)
        mon.describe(changed_from=p, how=how)
        per = build(pd.DataFrame(Y, index=ix, columns=df.columns))
        if not mon.check(len(per) == len(out), "as many predictions"):
            return
        for t in range(memory, T):
            E, F, D = parts[t - memory]
            E1, F1, D1 = plain(per[t - memory], co, k)
            if t < p:
                mon.event("causal predictions")
                sd = np.sqrt(np.diag(F))
                mon.close(E1, E, 1e-12, "exposures use returns before the re-estimation only", t=t, changed_from=p)
                mon.close(F1, F, 3e-4 * np.outer(sd, sd), "factor covariance uses no return after its time", t=t, changed_from=p)
                mon.close(D1, D, 1e-10 * D + 1e-300, "residual variance uses no return after its time", t=t, changed_from=p)
            elif t < memory + ((p - memory) // u + 1) * u and memory + ((t - memory) // u) * u <= p:
                # same block as p, estimated from returns before p
                mon.event("exposures kept")
                mon.close(E1, E, 1e-12, "exposures use returns before the re-estimation only", t=t, changed_from=p)
    else:
        full = fm.from_factor_to_full_covariance(out)
        if not mon.check(list(full) == want, "a covariance for every prediction", got=len(full)):
            return
        ll = fm.factor_log_likelihood(df, out)
        mon.check(list(ll.index) == want, "a likelihood for every prediction", got=len(ll))
        for t in range(memory, T):
            E, F, D = parts[t - memory]
            S = E.T @ F @ E + np.diag(D)
            v = np.sqrt(np.diag(S))
            G = ref.arr(full[ix[t]], index=co, columns=co, what="covariance")
            mon.close(G, S, 1e-10 * np.outer(v, v), "covariance = exposure' x factor covariance x exposure + diagonal", t=t)
            C = G / np.outer(v, v)
            ev = np.linalg.eigvalsh((C + C.T) / 2)
            mon.event("positive definite")
            if ev[0] < 1e-11:
                mon.event("ill_conditioned")
                continue
            mon.check(ev[0] > 0 and np.abs(C - C.T).max() < 1e-9, "symmetric and positive definite", t=t)
            val = float(ll.iloc[t - memory])
            if t == T - 1:
                mon.check(np.isnan(val), "no density without a next return", got=val)
                continue
            mon.event("densities")
            r0 = density(X[t + 1], S)
            q = (X[t + 1] / v) @ np.linalg.solve(C, X[t + 1] / v)
            mon.close(val, r0, 1e-9 * (1 + abs(r0) + q) + 1e-13 * q / ev[0], "Gaussian density of the next return", t=t)
