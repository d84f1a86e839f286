"""EM for Gaussian factor analysis: five updates of an independent formulation, and monotone fit."""
import numpy as np
import pandas as pd

from .. import boot, gen, ref
from ..core import Malformed

FAMILIES = {"pca_start": (160, 2500), "free_start": (200, 3000), "own_start": (60, 800), "singular": (40, 400), "large": (10, 80)}
RULE = ("A case draws covariances and initial factor models (from regularisation, random, poor, of different ranks per time, dictionary in another order and with extra times) and compares the result with five EM updates in another "
        "formulation (posterior precision via the full covariance), the Gaussian fit before and after, positivity of d, rank and labels.")
NEED = {"oracle": 2000, "models": 700, "compared": 600, "strict_improvement": 300}


def fit(S, F, d):
    s = np.sqrt(np.diag(S))
    C = F @ F.T + np.diag(d)
    C, S = C / np.outer(s, s), S / np.outer(s, s)
    return np.linalg.slogdet(C)[1] + np.trace(np.linalg.solve(C, S))


def em(S, F, d, steps=5):
    for _ in range(steps):
        C = F @ F.T + np.diag(d)
        B = np.linalg.solve(C, F).T  # posterior map: E[s|x] = B x
        Cxs = S @ B.T
        Css = B @ Cxs + np.eye(F.shape[1]) - B @ F
        F = np.linalg.solve(Css.T, Cxs.T).T
        d = np.diag(S - F @ Cxs.T).copy()
    return F, d


def run(mon, family, rng, i, tier):
    reg = boot.load("cvx.covariance.regularization")
    T, n = int(rng.integers(1, 5)) if rng.random() < 0.85 else int(rng.integers(6, 16)), int(rng.integers(2, 12 if tier == "quick" else 25))
    if family == "large":
        T, n = (int(rng.integers(1, 3)), int(rng.integers(40, 120))) if i % 2 else (int(rng.integers(30, 90)), int(rng.integers(2, 5)))
    labels, ck = gen.columns(rng, n)
    keys = list(gen.index(rng, T)[0])
    sig, init = {}, {}
    for t in keys:
        S = gen.spd(rng, n, cond=100)
        if family == "singular":
            A = rng.normal(size=(n, max(1, n - 2)))
            S = A @ A.T / n
        S = S * 10 ** rng.uniform(-6, 2)
        sig[t] = pd.DataFrame(S, index=labels, columns=labels)
        sd = np.sqrt(np.diag(S))
        r = int(rng.integers(1, n))
        if family == "pca_start":
            init[t] = dict(reg.regularize_covariance({t: sig[t]}, r, low_rank_format=True))[t]
        else:
            F = rng.normal(size=(n, r)) * sd[:, None] * 10 ** rng.uniform(-1, 0.3)
            d = rng.uniform(0.2, 2, n) * sd**2
            if family == "free_start" and rng.random() < 0.25:  # some assets almost without own risk
                d = d * 10 ** rng.uniform(-5, 0, n)
            if family == "own_start" and rng.random() < 0.7:
                # the covariance is exactly of factor form and EM starts there: a fixed point
                S = F @ F.T + np.diag(d)
                sig[t] = pd.DataFrame(S, index=labels, columns=labels)
            init[t] = reg.LowRankDiag(F=pd.DataFrame(F, index=labels), d=pd.Series(d, index=labels))
    order = [keys[j] for j in rng.permutation(T)]
    ini = {t: init[t] for t in order}
    if rng.random() < 0.4:
        ini[("another", "time")] = init[keys[0]]
    mon.describe(n=n, times=T, columns=ck)
    mon.sign(*[s.values for s in sig.values()], *[np.asarray(v.F, float) for v in init.values()])
    out = list(reg.em_regularize_covariance(sig, ini))
    if not mon.check([t for t, _ in out] == keys, "one model per time under the same keys", got=[t for t, _ in out]):
        return
    for t, lr in out:
        S, F0, d0 = sig[t].values, np.asarray(init[t].F, float), np.asarray(init[t].d, float)
        if list(lr.F.index) != list(labels):
            raise Malformed("labels of F: %r" % list(lr.F.index)[:4])
        F, d = np.asarray(lr.F, float), ref.arr(lr.d, index=labels, what="d")
        mon.event("models")
        if not mon.check(F.shape == F0.shape, "rank is kept", got=F.shape, want=F0.shape):
            continue
        v = np.diag(S)
        if (d0 < 1e-6 * v).any():
            mon.event("vanishing_start")
            continue
        if not mon.check(np.isfinite(F).all() and np.isfinite(d).all() and (d > 0).all(), "diagonal stays positive", d=d / v):
            continue
        F1, d1 = em(S, F0, d0)
        sens = max(1.0, (v / np.minimum(d0, d1.clip(1e-300))).max(), (np.linalg.norm(F0 @ F0.T / np.sqrt(np.outer(v, v)))))
        tol = 1e-10 * sens * n
        f0, f1 = fit(S, F0, d0), fit(S, F, d)
        mon.check(f1 <= f0 + 1e-9 * (abs(f0) + n) * sens, "fit is not worse than the initial model's", before=f0, after=f1, time=t)
        mon.event("strict_improvement", int(f1 < f0 - 1e-6))
        if tol < 1e-4:
            sc = np.sqrt(v)
            mon.close(d, d1, tol * v, "d after five EM steps", time=t)
            mon.close(F @ F.T, F1 @ F1.T, tol * np.outer(sc, sc) * max(1, (F1**2 / v[:, None]).max()), "F F^T after five EM steps", time=t)
            mon.event("compared")
        else:
            mon.event("ill_conditioned")
