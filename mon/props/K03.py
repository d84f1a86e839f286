"""Which results exist and which data they use."""
import numpy as np
import pandas as pd

from .. import boot, comb, gen, ref

FAMILIES = {"schedule": (360, 6000), "outside": (200, 3000), "inside": (60, 800), "sweep": (24, 240), "long": (16, 200)}
RULE = ("A case draws experts, returns and a window (1 .. beyond the sample, or none), checks the time stamps of the stream and the optimality of every result for exactly its window, and re-runs the stream after "
        "changing returns or expert predictions only outside the window of one result (which must not move) or inside it (which must be reflected). 'sweep' runs all windows 1..N+2 on one set-up, 'long' histories of hundreds of times with windows that reach back to the beginning.")
NEED = {"oracle": 2000, "results": 2000, "stamps": 2000, "outside_pairs": 100, "inside_pairs": 30, "empty": 10, "capped": 30}


def run(mon, family, rng, i, tier):
    co = boot.load("cvx.covariance.combination")
    few = family == "schedule" and rng.random() < 0.1
    long = dict(n=int(rng.integers(1, 4)), K=int(rng.integers(1, 4))) if family == "long" else {}
    S = comb.Setup(rng, tier, **long, T=int(rng.integers(1, 3)) if few else int(rng.integers(110, 520) if i % 8 else rng.integers(620, 900)) if long else None, Tmax=26 if family != "sweep" else 12, kind=str(rng.choice(["ewma", "wishart", "static", "noisy", "mixed"])))
    if few and S.K > 1 and S.T > 1:
        S.cover[0] = [0]
    if family == "schedule" and rng.random() < 0.25 and not few:
        S.ragged(rng)
    CR = S.ref()
    if CR.N < 1:
        S.sign(mon)
        c = S.build(co)
        for w in (None, 1, int(rng.integers(2, 9))):
            mon.check(list(c.solve(window=w)) == [], "no results without a usable time", window=w)
            mon.event("empty")
        return
    w = comb.window(rng, CR.N)
    if family == "long":  # few results, each from a large part of the history
        w = [None, CR.N - int(rng.integers(0, 4)), CR.N + int(rng.integers(1, 9)), None][i % 4]
    mon.describe(**S.desc, window=w)
    S.sign(mon, w)
    c = S.build(co)
    ws = [w] if family != "sweep" else list(range(1, CR.N + 3)) + [None]
    for w in ws:
        out = list(c.solve(window=w) if w is not None or rng.random() < 0.5 else c.solve())
        times = CR.result_times(w)
        mon.event("stamps", len(out))
        mon.event("capped", int(w is None or w > CR.N))
        if not mon.check(len(out) == len(times), "one result per usable time with a full window", got=len(out), want=len(times), window=w, usable=CR.N):
            return
        for t, r in zip(times, out):
            if r is None:
                mon.event("solver_none")
                continue
            ref.check_result(mon, CR, r, t, w, blend=False)
    if family in ("outside", "inside"):
        ix = list(S.df.index)
        j = int(rng.integers(CR.window(w), len(CR.times)))
        t = CR.times[j]
        lo = j - CR.window(w) + 1  # first return in the window; its prediction is lo - 1
        R = np.array(S.df.values, float)
        sig = S.sigmas()
        sd = R.std(axis=0) + 1e-12
        if family == "outside":
            for q in range(0, lo):
                R[ix.index(CR.times[q])] = rng.normal(size=S.n) * sd * 10 ** rng.uniform(-1, 1.5)
            for q in range(j + 1, len(CR.times)):
                R[ix.index(CR.times[q])] = rng.normal(size=S.n) * sd * 3
            for k in sig:
                for q in list(range(0, lo - 1)) + list(range(j + 1, len(CR.times))):
                    sig[k][CR.times[q]] = sig[k][CR.times[q]] * 10 ** rng.uniform(-2, 2)
        else:
            q = int(rng.integers(lo, j + 1))
            R[ix.index(CR.times[q])] = rng.normal(size=S.n) * sd * 10 ** rng.uniform(0, 1)
            q = int(rng.integers(lo - 1, j + 1))
            for k in sig:
                sig[k][CR.times[q]] = sig[k][CR.times[q]] * 10 ** rng.uniform(-0.5, 0.5)
        df2 = pd.DataFrame(R, index=S.df.index, columns=S.df.columns)
        out2 = {r.time: r for r in S.build(co, sig, returns=df2).solve(window=w) if r is not None}
        r0 = {r.time: r for r in out if r is not None}.get(t)
        r1 = out2.get(t)
        if r0 is None or r1 is None:
            mon.event("solver_none")
            return
        if family == "outside":
            a, b = np.asarray(r0.weights, float), np.asarray(r1.weights, float)
            comb.same_weights(mon, CR, t, w, a, b, "data outside the window does not matter")
            ref.check_result(mon, CR, r1, t, w, "outside: ")
            mon.event("outside_pairs")
        else:
            CR2 = ref.CombRef(sig, df2, S.means())
            CR2.gaptol = CR.gaptol
            ref.check_result(mon, CR2, r1, t, w, "inside: ")
            mon.event("inside_pairs")
