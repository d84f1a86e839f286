"""Ragged coverage, key types, order of the experts, mismatched means."""
import numpy as np
import pandas as pd

from .. import boot, comb, gen, ref

FAMILIES = {"ragged": (220, 3600), "order": (160, 2400), "keys": (120, 1500), "reject": (120, 1200), "subset": (80, 1000)}
RULE = ("A case draws experts that start late, end early, have holes or cover only a subset of the return dates, with keys of all kinds and an arbitrary order of listing; checks times, pairing with the next common time and "
        "optimality, compares two orders of listing (weights permuted, covariance and mean unchanged), and requires means with other times to be rejected.")
NEED = {"oracle": 3000, "ragged_results": 800, "orders": 800, "rejections": 100, "keykinds": 100}


def other_time(ix):
    """a time of the same type that is not in the sample"""
    if len(ix) > 1 and not isinstance(ix[-1], str) and not isinstance(ix, pd.PeriodIndex):
        return ix[-1] + (ix[-1] - ix[-2])
    return ix[-1] + 1 if isinstance(ix, pd.PeriodIndex) else str(ix[-1]) + "x"


def run(mon, family, rng, i, tier):
    co = boot.load("cvx.covariance.combination")
    kinds = ["ewma", "wishart", "static", "noisy", "mixed"]
    if family == "keys":
        S = comb.Setup(rng, tier, Tmax=16, keykind=comb.KEYKINDS[i % len(comb.KEYKINDS)], kind=str(rng.choice(kinds)))
        mon.event("keykinds")
    else:
        S = comb.Setup(rng, tier, Tmax=26, kind=str(rng.choice(kinds)), K=int(rng.integers(2, 6)) if family in ("order", "ragged") else None, with_means=True if family == "reject" else None)
    if family == "ragged" or (family == "order" and rng.random() < 0.5):
        S.ragged(rng)
    if family == "subset":
        # the experts predict only every so often
        step = int(rng.integers(2, 5))
        S.cover = [list(range(int(rng.integers(0, 2)) * step, S.T, step))] * S.K
    CR = S.ref()
    w = comb.window(rng, CR.N)
    mon.describe(**S.desc, window=w, common=len(CR.times))
    S.sign(mon, w)
    if family == "reject":
        bad = S.means()
        sig = S.sigmas()
        k = S.keys[int(rng.integers(S.K))]
        ts = list(bad[k])
        how = str(rng.choice(["missing", "extra", "shifted", "allmissing", "other time", "other time", "outside"]))
        if how == "missing" or len(ts) < 2:
            del bad[k][ts[int(rng.integers(len(ts)))]]
        elif how == "extra":
            del sig[k][ts[int(rng.integers(len(ts)))]]
        elif how == "shifted":
            bad[k] = {t: v for t, v in bad[k].items() if t != ts[0]}
        elif how == "outside":
            # experts cover different times; the mean that is moved is one that no other expert needs
            S.cover = [list(c) for c in S.cover]
            q = S.keys.index(k)
            drop = S.cover[(q + 1) % S.K][0] if S.K > 1 else None
            if S.K > 1 and drop in S.cover[q]:
                S.cover[(q + 1) % S.K] = S.cover[(q + 1) % S.K][1:]
                sig, bad = S.sigmas(), S.means()
                t = S.df.index[drop]
            else:
                t = ts[0]
            other = other_time(S.df.index)
            bad[k] = {(other if q == t else q): v for q, v in bad[k].items()}
        elif how == "other time":
            t = ts[int(rng.integers(len(ts)))]
            other = other_time(S.df.index)
            bad[k] = {(other if q == t else q): v for q, v in bad[k].items()}
        else:
            bad[k] = {}
        mon.describe(how=how)
        mon.raises(lambda: list(co.from_sigmas(sig, S.df, means=bad).solve(window=w)), "means whose times differ from the covariances' times must be rejected", how=how)
        return
    if CR.N < 1:
        return
    c = S.build(co)
    out = list(c.solve(window=w))
    times = CR.result_times(w)
    if not mon.check(len(out) == len(times), "results exactly at the times all experts cover, but the first", got=len(out), want=len(times), window=w):
        return
    for t, r in zip(times, out):
        if r is None:
            mon.event("solver_none")
            continue
        ref.check_result(mon, CR, r, t, w)
        mon.event("ragged_results" if family in ("ragged", "subset") else "plain_results")
    if family == "order" or rng.random() < 0.3:
        perm = [int(x) for x in rng.permutation(S.K)]
        c2 = S.build(co, S.sigmas(perm), S.means(perm if rng.random() < 0.5 else None))
        out2 = list(c2.solve(window=w))
        if not mon.check(len(out2) == len(out), "number of results in another order of the experts"):
            return
        for t, a, b in zip(times, out, out2):
            if a is None or b is None:
                mon.event("solver_none")
                continue
            mon.check(list(b.weights.index) == [S.keys[q] for q in perm], "weights labelled in the given order", got=list(b.weights.index))
            wa, wb = np.asarray(a.weights, float), np.empty(S.K)
            wb[perm] = np.asarray(b.weights, float)
            comb.same_weights(mon, CR, t, w, wa, wb, "weights permuted with the experts")
            m0, C0 = CR.blend(t, wb)
            mon.close(ref.arr(b.covariance, index=CR.assets, columns=CR.assets, what="covariance"), C0, ref.ctol(C0, 10 * CR.tol(t)), "covariance in another order of the experts")
            sd = np.sqrt(np.diag(C0))
            mon.close(ref.arr(b.mean, index=CR.assets, what="mean"), m0, 10 * CR.tol(t) * sd * max(1.0, np.abs(m0 / sd).max()), "mean in another order of the experts")
            A, P = CR.data(t, w)
            mon.check(CR.subopt(A, P, wb) <= CR.allow(A, P, wb), "weights optimal in another order of the experts")
            mon.event("orders")
