"""Every log-likelihood evaluator against the multivariate normal density, and the alignment of predictions with returns."""
import numpy as np
import pandas as pd

from .. import boot, gen, ref

PRELOAD = ["cvx.covariance.regularization", "experiments.utils.experiment_utils"]
FAMILIES = {"arrays": (300, 3000), "sequential": (240, 2000), "regularized": (320, 3000), "lowrank": (240, 2500), "em": (80, 600), "large": (10, 100), "wide": (24, 240)}
RULE = ("A case draws returns, covariances (ill-conditioned, tiny or huge scale, up to hundreds of assets), means (or none), a scale, and for the dictionary-based evaluators random subsets of times in random order including the last one, labels of every type and "
        "means for more times than needed; every value and label is compared with a Cholesky-based density of the following return.")
NEED = {"oracle": 1500, "densities": 8000, "with_means": 150, "scaled": 60, "skipped_last": 60, "large": 20, "subset_times": 60}
LOG2PI = np.log(2 * np.pi)


def density(x, S):
    s = np.sqrt(np.diag(S))
    C = np.linalg.cholesky(S / np.outer(s, s))
    z = np.linalg.solve(C, x / s)
    q = z @ z
    ld = 2 * np.log(np.diag(C)).sum() + 2 * np.log(s).sum()
    return -0.5 * (len(x) * LOG2PI + ld + q), abs(ld) + len(x) + q * np.linalg.cond(S / np.outer(s, s)) * 1e-4, q


def run(mon, family, rng, i, tier):
    eu = boot.load("experiments.utils.experiment_utils")
    reg = boot.load("cvx.covariance.regularization")
    n = int(rng.integers(150, 400)) if family == "large" else int(rng.integers(60, 260)) if family == "wide" else 1 if rng.random() < 0.08 else int(rng.integers(2, 12))
    T = int(rng.integers(2, 6)) if family in ("large", "wide") else int(rng.integers(1, 25))
    if family in ("arrays", "sequential", "regularized", "lowrank") and i % 60 == 31:
        n, T = int(rng.integers(2, 5)), int(rng.integers(300, 900))  # years of days
    sc = 10 ** rng.uniform(-5, 3)
    ix, ik = gen.index(rng, T)
    labels, ck = gen.columns(rng, n)
    S = np.stack([gen.spd(rng, n, cond=1e5) for _ in range(T)]) * sc**2
    sd = np.sqrt(np.einsum("tii->ti", S))
    X = rng.normal(size=(T, n)) * sd * 10 ** rng.uniform(-0.5, 0.5)
    if rng.random() < 0.2:
        X[rng.random((T, n)) < 0.3] = 0.0
    M = rng.normal(size=(T, n)) * sd if rng.random() < 0.6 else None
    mon.describe(n=n, T=T, size=sc, index=ik, columns=ck, means=M is not None)
    mon.sign(X, S, M if M is not None else 0)
    mon.event("with_means", int(M is not None))
    if n > 100:
        mon.event("large")
    if family == "wide":  # many assets for the evaluators that take dictionaries
        family = ("regularized", "lowrank", "regularized", "em")[i % 4]

    def want(x, S, m):
        v, size, q = density(x - m, S)
        return v, 1e-9 * size

    if family in ("arrays", "sequential", "large"):
        f = eu.log_likelihood if family == "arrays" or family == "large" and rng.random() < 0.5 else eu.log_likelihood_sequential
        k = float(rng.choice([1, 1, 10, 100, 0.01])) if rng.random() < 0.7 else float(10 ** rng.uniform(-3, 3))
        kw = {}
        if M is not None:
            kw["means"] = M.copy()
        if k != 1 or rng.random() < 0.5:
            kw["scale"] = k
            mon.event("scaled", int(k != 1))
        else:
            k = 1.0
        got = f(X.copy(), S.copy(), **kw)
        w = np.array([want(X[t] * k, S[t] * k**2, M[t] * k if M is not None else 0.0) for t in range(T)])
        mon.check(np.isfinite(np.asarray(got, float)).all(), "finite", n=n)
        mon.close(np.asarray(got, float), w[:, 0], w[:, 1], "log-density of each return", scale=k, n=n)
        mon.event("densities", T)
        return
    df = pd.DataFrame(X, index=ix, columns=labels)
    times = list(range(T))
    if rng.random() < 0.6:
        times = [int(t) for t in rng.choice(T, size=int(rng.integers(1, T + 1)), replace=False)]
        if rng.random() < 0.5:
            times.sort()
        mon.event("subset_times")
    if rng.random() < 0.6 and T - 1 not in times:
        times.append(T - 1)
    mon.event("skipped_last", int(T - 1 in times))
    kw = {}
    if M is not None and family != "em":
        mdf = pd.DataFrame(M, index=ix, columns=labels)
        if rng.random() < 0.3:
            mdf = mdf.iloc[rng.permutation(T)]
        kw["means"] = mdf
    sig = {ix[t]: pd.DataFrame(S[t].copy(), index=labels, columns=labels) for t in times}
    scored = [t for t in times if t < T - 1]
    if family == "regularized":
        r = None
        if n > 1 and rng.random() < 0.6:
            r = int(rng.integers(1, n + 1))
        got = eu.log_likelihood_regularized(df, sig, r=r, **kw) if r is not None or rng.random() < 0.5 else eu.log_likelihood_regularized(df, sig, **kw)
        C = {}
        for t in scored:
            if r is None or r == n:
                C[t] = S[t]
            else:
                s = np.sqrt(np.diag(S[t]))
                w, Q = np.linalg.eigh(S[t] / np.outer(s, s))
                if w[n - r] - w[n - r - 1] < 1e-5:
                    mon.event("no_gap")
                    return
                lo = (Q[:, n - r :] * w[n - r :]) @ Q[:, n - r :].T
                C[t] = (lo + np.diag(1 - np.diag(lo))) * np.outer(s, s)
    else:
        r = int(rng.integers(1, max(2, n)))
        if family == "lowrank":
            F = {t: rng.normal(size=(n, r)) * sd[t][:, None] for t in times}
            d = {t: rng.uniform(0.05, 2, n) * sd[t] ** 2 for t in times}
            lr = {ix[t]: reg.LowRankDiag(F=pd.DataFrame(F[t], index=labels), d=pd.Series(d[t], index=labels)) for t in times}
            got = eu.log_likelihood_low_rank(df, lr, **kw)
            C = {t: F[t] @ F[t].T + np.diag(d[t]) for t in scored}
        else:
            if n < 3 or r >= n - 1:
                mon.event("too_small")
                return
            # EM models are judged by R03; here: the density of the model returned
            init = dict(reg.regularize_covariance(sig, r, low_rank_format=True))
            if any((np.asarray(v.d) < 1e-4 * np.diag(sig[t])).any() for t, v in init.items()):
                mon.event("vanishing_start")
                return
            got = eu.em_low_rank_log_likelihood(df, sig, r)
            models = dict(reg.em_regularize_covariance(sig, init))
            C = {t: np.asarray(models[ix[t]].F) @ np.asarray(models[ix[t]].F).T + np.diag(models[ix[t]].d) for t in scored}
    g = ref.arr(got, index=[ix[t] for t in scored], what="log-likelihoods")
    mon.check(np.isfinite(g).all(), "finite", n=n)
    w = np.array([want(X[t + 1], C[t], M[t] if kw else 0.0) for t in scored]).reshape(len(scored), 2)
    mon.close(g, w[:, 0], w[:, 1] * (100 if family == "em" else 10), "log-density of the following return", family=family, n=n)
    mon.event("densities", len(scored))
