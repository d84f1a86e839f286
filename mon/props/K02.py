"""Covariance and mean of each result from its own weights and the experts at its own time."""
import numpy as np
import pandas as pd

from .. import boot, comb, gen, ref

FAMILIES = {"blend": (320, 5000), "single": (120, 1500), "agree": (120, 1500), "means": (160, 2500), "nomean": (80, 800)}
RULE = ("A case draws experts and returns, consumes the stream and recomputes covariance and mean from the reported weights and the experts at the reported time; special cases: one expert, experts that agree "
        "at all or some times, all kinds of means, no means.")
NEED = {"oracle": 2000, "results": 1500, "single": 200, "agreeing": 200, "zero_mean": 300}


def run(mon, family, rng, i, tier):
    co = boot.load("cvx.covariance.combination")
    kw = dict(Tmax=28)
    if family == "single":
        kw["K"] = 1
    if family == "means":
        kw["with_means"] = True
    if family == "nomean":
        kw["with_means"] = False
    if family == "agree":
        kw["kind"] = str(rng.choice(["ewma", "noisy", "static"]))
    if i % 50 == 27:  # dozens of assets, or many experts
        kw.update(n=int(rng.integers(16, 40)), T=int(rng.integers(5, 12)), **({} if "K" in kw else dict(K=int(rng.integers(2, 5)))))
    S = comb.Setup(rng, tier, **kw)
    if family == "agree":
        some = rng.random(S.T) < rng.choice([0.3, 1.0])
        for t in np.flatnonzero(some):
            S.S[:, t] = S.S[0, t]
            if S.M is not None:
                S.M[:, t] = S.M[0, t]
        S.desc["experts"] = "mixed"
    c, CR = S.build(co), S.ref()
    w = comb.window(rng, CR.N)
    mon.describe(**S.desc, window=w)
    S.sign(mon, w)
    for t, r in zip(CR.result_times(w), c.solve(window=w)):
        if r is None:
            mon.event("solver_none")
            continue
        wt = ref.check_result(mon, CR, r, t, w, gap=False)
        if wt is None:
            continue
        k = CR.times.index(t)
        C = np.asarray(r.covariance, float)
        if family == "single" or (family == "agree" and some[k]):
            S0 = CR.S[k, 0]
            mon.close(C, S0, ref.ctol(S0, CR.tol(t) + 3 * abs(wt.sum() - 1)), "agreement: the experts' covariance", time=t)
            sd = np.sqrt(np.diag(S0))
            m0 = CR.mu[k, 0]
            mon.close(np.asarray(r.mean, float), m0, (CR.tol(t) + 3 * abs(wt.sum() - 1)) * sd * max(1, np.abs(m0 / sd).max()), "agreement: the experts' mean", time=t)
            mon.event("agreeing")
            mon.event("single", int(CR.K == 1))
        if S.M is None:
            mon.close(np.asarray(r.mean, float), np.zeros(S.n), 0.0, "mean is zero without means")
            mon.event("zero_mean")
