"""Runs registry functions in a process of its own (used by P01): python mon/job.py ROOT OUT < JSON job description.

The job: {"cases": [[name, seed], ...], "state": {...}}; the plain results are pickled to OUT.
"""
import json, os, pickle, sys


def disturb(state):
    """process-wide state the results may not depend on"""
    import random

    import numpy as np
    import pandas as pd

    if "seed" in state:
        random.seed(state["seed"])
        np.random.seed(state["seed"])
    if "decimals" in state:
        pd.set_option("display.precision", state["decimals"])
        np.set_printoptions(precision=state["decimals"], suppress=True, threshold=3, edgeitems=1)
    if "errors" in state:
        np.seterr(all=state["errors"])
    if "recursion" in state:
        sys.setrecursionlimit(state["recursion"])
    if "locale" in state:
        import locale

        try:
            locale.setlocale(locale.LC_ALL, state["locale"])
        except locale.Error:
            pass
    if "clock" in state:
        import time

        real = time.time
        time.time = lambda: real() + state["clock"]
    if "cpus" in state:
        try:
            os.sched_setaffinity(0, set(list(os.sched_getaffinity(0))[: state["cpus"]]))
        except OSError:
            pass


def case(E, K08, name, seed):
    import numpy as np

    rng = np.random.default_rng([77, seed])
    T, n, K = int(rng.integers(9, 40)) + 20, int(rng.integers(3, 6)), int(rng.integers(2, 5))
    if name.startswith(("from_sigmas", "Trader")):
        T = int(rng.integers(9, 15))
    d = K08.Draw(rng, T, n, K)
    if rng.random() < 0.6:
        # names whose hashes differ from process to process
        words = np.array(["z", "apple", "Éclair", "b2", "x y", "MSFT", "aa", "0", "q", "Zeta"])
        d.assets = [str(x) for x in rng.permutation(words)[:n]]
        d.assets[0] = "a0" if name == "predictors" else d.assets[0]
    o = K08.options(rng, n)
    draw, call, rtol, atol, _ = E[name]
    args = draw(d)
    if name == "from_sigmas times":
        import pandas as pd

        args[2] = [tuple, list, pd.DatetimeIndex][int(rng.integers(3))](args[2])
    if name == "from_sigmas":
        names = ["slow", "fast", "a", "10-21", "Mid", "β", "k7"]
        ks = [str(x) for x in rng.permutation(names)[: len(args[0])]]
        args = [dict(zip(ks, args[0].values())), args[1], dict(zip(ks, args[2].values()))]
    return K08.plain(call(args, o)), rtol, atol


def main():
    root, out = sys.argv[1:3]
    job = json.load(sys.stdin)
    sys.path.insert(0, root)
    sys.dont_write_bytecode = True
    if job["state"].get("order") == "experiments first":
        from mon import boot

        boot.install()
        for m in ("experiments.utils.trading_model", "experiments.utils.experiment_utils", "cvx.covariance.regularization"):
            boot.load(m)
    from mon import boot, pool
    from mon.props import K08

    boot.install()
    disturb(job["state"])
    E = K08.registry()
    res = []
    null = open(os.devnull, "w")
    keep = sys.stdout
    sys.stdout = null
    for name, seed in job["cases"]:
        pool.SCHEDULE.reset()
        try:
            res.append(("ok", case(E, K08, name, seed)[0]))
        except Exception as e:
            res.append(("error", "%s: %s" % (type(e).__name__, str(e)[:300])))
    sys.stdout = keep
    import hashlib

    with open(out, "wb") as f:
        pickle.dump(dict(results=res, hash=hash("probe"), optimised=not __debug__, files=sorted(os.listdir("."))), f)


if __name__ == "__main__":
    main()
