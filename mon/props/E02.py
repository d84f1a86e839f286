"""Rolling-window covariance against the plain average of the last outer products."""
import numpy as np
import pandas as pd

from .. import boot, gen, ref

PRELOAD = ["experiments.utils.experiment_utils"]
FAMILIES = {"random": (260, 4000), "grid": (60, 600), "long": (8, 80), "shock": (100, 1500)}
RULE = ("A case draws a frame, a memory (1, around, equal to and beyond the sample length) and a warm-up and compares every matrix with the explicit average; 'shock' puts one huge return in and checks that it leaves no trace once it is out of the memory; "
        "'grid' runs all memories 1..T+1 on a short frame; 'long' runs thousands of steps.")
NEED = {"oracle": 2000, "matrices": 6000, "full_memory": 1500, "partial_memory": 1500, "after_shock": 300, "memory_one": 10, "beyond_sample": 30}


def run(mon, family, rng, i, tier):
    eu = boot.load("experiments.utils.experiment_utils")
    if family == "long":
        df, d = gen.frame(rng, tier, T=int(rng.integers(1500, 4000)), n=int(rng.integers(2, 4)))
    elif family == "grid":
        df, d = gen.frame(rng, tier, T=int(rng.integers(1, 10)), n=int(rng.integers(1, 4)))
    else:
        df, d = gen.frame(rng, tier, T=int(rng.integers(1, 90)))
    X = np.array(df.values, float)
    T = len(X)
    shock = None
    if family == "shock" and T > 6:
        shock = int(rng.integers(0, T - 3))
        X[shock] *= 10 ** rng.uniform(1, 4)
        df = pd.DataFrame(X, index=df.index, columns=df.columns)
    mems = list(range(1, T + 2)) if family == "grid" else [int(rng.choice([1, 2, max(T - 1, 1), T, T + 1, 2 * T + 5])) if rng.random() < 0.4 else int(rng.integers(1, T + 1))]
    if family == "shock":
        mems = [int(rng.integers(1, max(2, T // 2)))]
    O = np.einsum("ti,tj->tij", X, X)
    for mem in mems:
        mp_ = None if rng.random() < 0.2 else int(rng.integers(0, min(T, 25) + 3))
        mon.describe(frame=d, memory=mem, min_periods=mp_)
        mon.sign(X, mem, mp_)
        out = eu.rolling_window(df, mem) if mp_ is None else eu.rolling_window(df, mem, mp_) if rng.random() < 0.5 else eu.rolling_window(df, memory=mem, min_periods=mp_)
        a = max(20 if mp_ is None else mp_, 1) - 1
        rows = list(range(min(a, T), T))
        mon.event("memory_one", int(mem == 1))
        mon.event("beyond_sample", int(mem > T))
        if not mon.check(list(out.keys()) == [df.index[t] for t in rows], "one result per time once min_periods returns are available", got=len(out), want=len(rows), min_periods=mp_):
            return
        big = np.maximum.accumulate(np.sqrt(np.einsum("tii->ti", O)), axis=0)
        for t in rows if T < 500 else list(rows[:: max(1, len(rows) // 60)]) + rows[-3:]:
            lo = max(0, t - mem + 1)
            want = O[lo : t + 1].mean(axis=0)
            # rounding of the largest return so far may stay behind
            tol = 1e-10 * np.sqrt(np.abs(np.outer(np.diag(want), np.diag(want)))) + 4e-16 * (t + 4) * np.outer(big[t], big[t]) + 1e-300
            mon.close(ref.arr(out[df.index[t]], index=df.columns, columns=df.columns, what="rolling covariance"), want, tol, "average of the outer products in memory", t=t, memory=mem, T=T)
            mon.event("matrices")
            mon.event("full_memory" if t + 1 >= mem else "partial_memory")
            if shock is not None and t - mem >= shock:
                mon.event("after_shock")
