"""Solving at selected times."""
import numpy as np
import pandas as pd

from .. import boot, comb, gen, ref

FAMILIES = {"runs": (360, 6000), "all_starts": (30, 300), "reject": (160, 1800)}
RULE = ("A case draws a set-up and a run of consecutive usable times (any start, also inside the warm-up; any length, also one), passes it as index, list, tuple, iterator, generator or object array, and compares the "
        "stream with the unrestricted one and with the specification; 'all_starts' enumerates starts and lengths; 'reject' leaves out a time.")
NEED = {"oracle": 2000, "pairs": 1000, "short_history": 50, "rejections": 80}


def container(rng, ts, index):
    kind = str(rng.choice(["list", "tuple", "iter", "generator", "index", "dictkeys", "objarray"]))
    if kind == "index":
        k = list(index).index(ts[0])
        return index[k : k + len(ts)] if list(index[k : k + len(ts)]) == list(ts) else pd.Index(ts), kind
    if kind == "tuple":
        return tuple(ts), kind
    if kind == "iter":
        return iter(list(ts)), kind
    if kind == "generator":
        return (t for t in list(ts)), kind
    if kind == "dictkeys":
        return dict.fromkeys(ts).keys(), kind
    if kind == "objarray":
        a = np.empty(len(ts), dtype=object)
        a[:] = list(ts)
        return a, kind
    return list(ts), kind


def run(mon, family, rng, i, tier):
    co = boot.load("cvx.covariance.combination")
    S = comb.Setup(rng, tier, Tmax=9 if family == "all_starts" else 24, kind=str(rng.choice(["ewma", "wishart", "static", "noisy"])))
    if rng.random() < 0.2 and family == "runs":
        S.ragged(rng)
    CR = S.ref()
    if CR.N < 2:
        return
    c = S.build(co)
    w = comb.window(rng, CR.N)
    mon.describe(**S.desc, window=w)
    S.sign(mon, w)
    U = CR.usable
    full = {r.time: r for r in c.solve(window=w) if r is not None}
    have = CR.result_times(w)

    def one(a, b):
        req = U[a:b]
        cont, kind = container(rng, req, S.df.index)
        out = list(c.solve(window=w, times=cont))
        want = [t for t in req if t in set(have)]
        mon.event("short_history", int(len(want) < len(req)))
        mon.event("container " + kind)
        got = [r.time if r is not None else None for r in out]
        if not mon.check(len(out) == len(want), "one result per requested time with a full window", requested=len(req), start=a, got=len(out), want=len(want), window=w, container=kind):
            return
        for t, r in zip(want, out):
            if r is None or t not in full:
                mon.event("solver_none")
                continue
            if not mon.check(r.time == t, "results come for the requested times in order", got=r.time, want=t):
                continue
            f = full[t]
            comb.same_weights(mon, CR, t, w, np.asarray(f.weights, float), np.asarray(r.weights, float), "same weights as the unrestricted solve")
            ref.check_result(mon, CR, r, t, w, "restricted: ")
            mon.event("pairs")

    if family == "runs":
        for _ in range(3):
            a = int(rng.integers(0, len(U)))
            if rng.random() < 0.3:
                a = int(rng.integers(0, max(1, CR.window(w))))
                a = min(a, len(U) - 1)
            b = a + 1 if rng.random() < 0.3 else int(rng.integers(a + 1, len(U) + 1))
            one(a, b)
    elif family == "all_starts":
        for a in range(len(U)):
            for b in range(a + 1, len(U) + 1):
                one(a, b)
    else:
        if len(U) < 3:
            return
        a = int(rng.integers(0, len(U) - 2))
        b = int(rng.integers(a + 3, len(U) + 1))
        req = list(U[a:b])
        k = int(rng.integers(1, len(req) - 1))
        del req[k]
        cont, kind = container(rng, req, S.df.index)
        mon.raises(lambda: list(c.solve(window=w, times=cont)), "a request that skips a time must be rejected", skipped=k, of=b - a, container=kind, window=w)
        if len(req) > 2 and rng.random() < 0.3:
            mon.raises(lambda: list(c.solve(window=w, times=req[::2])), "a request that skips every other time must be rejected")
