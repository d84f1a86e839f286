"""from_ewmas against from_sigmas over the iterated EWMA of each pair."""
import numpy as np
import pandas as pd

from .. import boot, comb, gen, ref

FAMILIES = {"pairs": (150, 2400), "defaults": (40, 500), "repeated": (50, 600), "long": (6, 80)}
RULE = ("A case draws a frame, half-life pairs (integers, floats, numpy numbers, repeated, single, in any order, as list of tuples or lists), warm-ups, clipping and the mean flag, and compares the experts (own reference of the "
        "iterated EWMA), their names and order, the counts, and the results with those of from_sigmas over independently computed experts.")
NEED = {"oracle": 3000, "experts": 300, "results": 800, "expert_matrices": 3000, "distinct_names": 150, "with_mean": 30, "with_clip": 40, "default_calls": 30}


def draw_pairs(rng, n, family):
    K = int(rng.integers(1, 5))
    out = []
    for _ in range(K):
        r = rng.random()
        v, c = rng.uniform(2, 40), rng.uniform(6 + 3 * n, 120)
        if r < 0.45:
            p = (int(v), int(c) + 1)
        elif r < 0.6:
            p = (round(float(v), 1), round(float(c), 1))
        elif r < 0.7:
            p = (np.int64(v), np.int64(c) + 1)
        elif r < 0.8:
            p = (float(int(v)), float(int(c) + 1))
        else:
            p = (float(v), float(c))
        out.append(p)
    if family == "repeated":
        for _ in range(int(rng.integers(1, 3))):
            out.insert(int(rng.integers(0, len(out) + 1)), out[int(rng.integers(len(out)))])
    return out


def run(mon, family, rng, i, tier):
    co = boot.load("cvx.covariance.combination")
    n = int(rng.integers(1, 5))
    kw = {}
    if family == "defaults":
        n = min(n, 3)
        df, d = gen.frame(rng, tier, T=int(rng.integers(44, 70)), n=n, kinds=gen.SMOOTH)
        full = dict(min_periods_vola=20, min_periods_cov=20, clip_at=None, mean=False)
        # leave out any subset of the arguments
        opt = dict(min_periods_vola=int(rng.integers(2, 25)), min_periods_cov=int(rng.integers(2 * n + 2, 18)), clip_at=float(rng.uniform(2, 4)), mean=True)
        for k in opt:
            if rng.random() < 0.3:
                kw[k] = opt[k]
        full.update(kw)
        mon.event("default_calls")
    else:
        T = int(rng.integers(24, 60)) if family != "long" else int(rng.integers(300, 600))
        df, d = gen.frame(rng, tier, T=T, n=n, kinds=gen.SMOOTH)
        kw = dict(min_periods_vola=int(rng.integers(1, 8)), min_periods_cov=int(rng.integers(2 * n + 2, 2 * n + 8)))
        if rng.random() < 0.4:
            kw["mean"] = True
            kw["min_periods_vola"] = max(kw["min_periods_vola"], 3)
        if rng.random() < 0.45:
            kw["clip_at"] = float(rng.choice([1.5, 2.0, 2.5, 3.5, 4.2]))
        full = dict(min_periods_vola=20, min_periods_cov=20, clip_at=None, mean=False)
        full.update(kw)
    pairs = draw_pairs(rng, n, family)
    mon.event("with_mean", int(full["mean"]))
    mon.event("with_clip", int(bool(full["clip_at"])))
    X = np.array(df.values, float)
    names, distinct = [], []
    for p in pairs:
        s = f"{p[0]}-{p[1]}"
        if s not in names:
            names.append(s)
            distinct.append(p)
    given = [tuple(p) for p in pairs] if rng.random() < 0.8 else [list(p) for p in pairs]
    w = comb.window(rng, 20)
    mon.describe(frame=d, pairs=[str(p) for p in pairs], options=kw, window=w)
    mon.sign(X, repr(pairs), repr(kw), w)
    c = co.from_ewmas(df, given, **kw)
    mon.event("distinct_names", len(names))
    mon.check(c.K == len(names), "number of experts", got=c.K, want=len(names))
    mon.check(list(c.assets) == list(df.columns), "assets", got=list(c.assets))
    # own experts
    refs = [ref.IewmaRef(X, vola_halflife=p[0], cov_halflife=p[1], min_periods_vola=full["min_periods_vola"], min_periods_cov=full["min_periods_cov"], mean=full["mean"], clip_at=full["clip_at"]) for p in distinct]
    if any(R.und.any() for R in refs):
        mon.event("undecided")
        return
    ix = df.index
    sig, mu = {}, {}
    for name, R in zip(names, refs):
        sig[name], mu[name] = {}, {}
        for k in range(len(R.rows)):
            row, m, C, v = R.at(k)
            sig[name][ix[row]] = pd.DataFrame((C + C.T) / 2, index=df.columns, columns=df.columns)
            mu[name][ix[row]] = pd.Series(m, index=df.columns)
    got_sig, got_mu = getattr(c, "sigmas", None), getattr(c, "means", None)
    if got_sig is not None:
        mon.check(list(got_sig.keys()) == names, "one expert per distinct pair, named and in order", got=list(got_sig.keys()), want=names)
        for name in names:
            if name not in got_sig:
                return
            mon.event("experts")
            mon.check(list(got_sig[name].keys()) == list(sig[name].keys()), "times of the expert", expert=name, got=len(got_sig[name]), want=len(sig[name]))
            for t in sig[name]:
                if t in got_sig[name]:
                    C = sig[name][t].values
                    mon.close(ref.arr(got_sig[name][t], index=df.columns, columns=df.columns, what="expert"), C, ref.ctol(C, 1e-7), "expert covariance is the iterated EWMA of its pair", expert=name, time=t)
                    mon.event("expert_matrices")
                if got_mu is not None and full["mean"] and t in got_mu.get(name, {}):
                    m = mu[name][t].values
                    mon.close(np.asarray(got_mu[name][t], float), m, 1e-7 * (np.abs(m) + np.sqrt(np.diag(C))), "expert mean is the iterated EWMA mean of its pair", expert=name, time=t)
    CR = ref.CombRef(sig, df, mu if full["mean"] else None)
    if not CR.times or CR.cond.max() > 1e7:
        mon.event("ill_conditioned")
        return
    CR.gaptol = 3e-5  # own experts: the two problems agree to 1e-7 only
    out = list(c.solve(window=w))
    alone = list(co.from_sigmas(sig, df, means=mu if full["mean"] else None).solve(window=w))
    times = CR.result_times(w)
    mon.check(len(out) == len(times) == len(alone), "number of results", got=len(out), want=len(times), from_sigmas=len(alone))
    for t, a, b in zip(times, out, alone):
        if a is None or b is None:
            mon.event("solver_none")
            continue
        mon.check(a.time == b.time == t, "times of the results", got=a.time, want=t)
        mon.check(list(a.weights.index) == names, "weights labelled by pair", got=list(a.weights.index), want=names)
        ref.check_result(mon, CR, a, t, w, "from_ewmas: ")
        comb.same_weights(mon, CR, t, w, np.asarray(b.weights, float), np.asarray(a.weights, float), "weights as with from_sigmas", tol=2e-4)
