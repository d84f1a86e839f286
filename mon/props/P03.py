"""Nothing piles up: memory of streams and repeated calls, one solve per result, no processes or files left open."""
import copy, gc, multiprocessing, multiprocessing.pool, os, threading, time, tracemalloc

import numpy as np
import pandas as pd

from .. import boot, comb, gen, pool, port
from . import K08

PRELOAD = K08.PRELOAD
FAMILIES = {"streams": (40, 400), "calls": (93, 900), "solves": (60, 900), "processes": (24, 160)}
RULE = ("'streams' measures (tracemalloc, after a collection) the memory held while a long stream is consumed, at a third and at the end, with every result dropped, against the size of the results handed out between; 'calls' repeats a public function on new data of equal size and compares the memory held after the third and the last call with the size of its arguments and results; "
        "'solves' counts the optimisation problems behind the first k results and behind selected times; 'processes' runs backtests (also failing ones) with real worker processes and counts child processes, threads and open files afterwards.")
NEED = {"oracle": 300, "streams": 36, "megabytes handed out": 40, "repeated": 80, "counted": 100, "real backtests": 30}
ASSUMPTIONS = ["ECOS is replaced by CLARABEL", "multiprocessing.Pool is replaced by a pickling in-process pool, except in `processes`"]


def held():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def size(x):
    return sum(v.nbytes for _, _, v in K08.plain(x) if v is not None and v.dtype.kind != "O")


def streams(mon, rng, i):
    ew = boot.load("cvx.covariance.ewma")
    co = boot.load("cvx.covariance.combination")
    rg = boot.load("cvx.covariance.regularization")
    lr = boot.load("experiments.utils.low_rank_ewma")
    eu = boot.load("experiments.utils.experiment_utils")
    names = ["iterated_ewma", "iterated_ewma with means", "regularize", "regularize factors", "em", "low_rank", "realized", "solve"]
    name = names[i % len(names)]
    n, T = (int(rng.integers(50, 80)), int(rng.integers(120, 200))) if name != "solve" else (60, 50)
    if name in ("regularize factors", "em", "low_rank"):
        n, T = int(rng.integers(120, 160)), int(rng.integers(80, 100))
    index = pd.date_range("2001-01-01", periods=T)
    X = pd.DataFrame(rng.normal(size=(T, n)) * 0.01, index=index, columns=[f"a{j}" for j in range(n)])
    mon.describe(stream=name, T=T, n=n)
    mon.sign(name, X.values)
    r = int(rng.integers(6, 10))

    def sig(k=1.0):
        B = gen.spd(rng, n, "wishart") * 1e-4
        return {t: pd.DataFrame(B * (1 + 0.5 * rng.random()) * k, index=X.columns, columns=X.columns) for t in index}

    if name.startswith("iterated"):
        make = lambda: ew.iterated_ewma(X, 10, 20, 3, 3, mean=name.endswith("means"), clip_at=4.2 if rng.random() < 0.5 else None)
    elif name == "regularize":
        S = sig()
        make = lambda: rg.regularize_covariance(S, r)
    elif name == "regularize factors":
        S = sig()
        make = lambda: rg.regularize_covariance(S, r, low_rank_format=True)
    elif name == "em":
        S = sig()
        I = dict(rg.regularize_covariance(S, r, low_rank_format=True))
        make = lambda: rg.em_regularize_covariance(S, I)
    elif name == "low_rank":
        make = lambda: lr.low_rank_iterated_ewma(X, 10, 20, r, 3, 3)
    elif name == "realized":
        Y = X.set_axis(index[np.arange(T) // 2])
        make = lambda: eu.realized_ewma(Y, 10)
    else:
        E = {k: sig(k + 1.0) for k in range(2)}
        c = co.from_sigmas(E, X)
        make = lambda: c.solve(window=5)
    for _ in zip(range(8 if name != "em" else T), make()):
        pass  # (what is set up on first use; pandas keeps lookup tables with the labels of the arguments)
    _ = None
    tracemalloc.start(1)
    try:
        it = iter(make())
        k = done = steps = 0
        first = None
        for x in it:
            k += 1
            if k == T // 3:
                x = None
                first = held()
            elif first is not None:
                done += size(x)
                steps += 1
            if k == T - 10:
                x = None
                break
        x = None
        last = held()
        it = None
        after = held()
    finally:
        tracemalloc.stop()
    mon.event("streams")
    mon.event("megabytes handed out", done / 1e6)
    mon.peak("growth / results " + name, (last - first) / done)
    mon.check(last - first <= 0.3 * done + 2500 * steps, "the memory a stream holds grows as it is consumed", stream=name, grown=last - first, results=done)
    mon.check(after <= last + 60000, "a dropped stream holds more memory", stream=name)


def calls(mon, rng, i):
    E = K08.registry()
    names = list(E)
    name = names[i % len(names)]
    T, n, K = 150, 12, 2
    if name.startswith(("from_", "Trader")):
        T, n = (14, 24) if name != "from_ewmas" else (90, 4)
    elif name.startswith("low_rank"):
        T = 60
    o = K08.options(rng, n)
    draw, call = E[name][:2]
    mon.describe(function=name, T=T, n=n, options=o)
    mon.sign(name, repr(o), int(rng.integers(1 << 60)))
    d = K08.Draw(rng, T, n, K)
    N = 11 if not name.startswith(("from_", "Trader", "low_rank")) else 7
    call(draw(d), o)
    tracemalloc.start(1)
    try:
        first = None
        for k in range(N):
            args = draw(d)
            got = call(args, o)
            if not isinstance(got, (list, tuple, dict, pd.DataFrame, pd.Series, np.ndarray, float)):
                got = list(got)
            s = size(args), size(got)
            args = got = None
            boot.LOG.reset()
            pool.SCHEDULE.reset()
            if k == 2:
                first = held()
        last = held()
    finally:
        tracemalloc.stop()
    mon.event("repeated")
    unit = (min(s) if min(s) > 20000 else max(s)) * (N - 3)
    mon.peak("growth / data " + name, (last - first) / unit)
    mon.check(last - first <= 0.3 * unit + 40000, "memory grows from call to call", function=name, grown=last - first, arguments=s[0], results=s[1], calls=N - 3)


def solves(mon, rng, tier):
    co = boot.load("cvx.covariance.combination")
    S = comb.Setup(rng, tier, Tmax=16, nmax=4, Kmax=3)
    mon.describe(**S.desc)
    S.sign(mon)
    w = comb.window(rng, S.T)
    c = S.build(co)
    boot.LOG.reset()
    res = list(c.solve(window=w))
    N, made = len(res), boot.LOG.total
    mon.event("counted", 2)
    mon.check(made <= N + 2, "at most one optimisation problem is solved for each result", solves=made, results=N)
    if not N or any(r is None for r in res):
        return
    k = int(rng.integers(1, N + 1))
    boot.LOG.reset()
    it = c.solve(window=w)
    for _ in range(k):
        next(it)
    made = boot.LOG.total
    mon.event("taken", k)
    mon.check(made <= k, "the first results need only their own optimisation problems", solves=made, results=k, of=N)
    it = None
    times = [r.time for r in res]
    a = int(rng.integers(0, N))
    b = int(rng.integers(a + 1, N + 1))
    boot.LOG.reset()
    got = list(c.solve(window=w, times=times[a:b]))
    made = boot.LOG.total
    mon.check(made <= len(times[a:b]), "selected times need only their own optimisation problems", solves=made, times=b - a, of=N)


def children():
    return {p.pid for p in multiprocessing.active_children()}


def fds():
    try:
        return len(os.listdir("/proc/self/fd"))
    except OSError:
        return 0


def processes(mon, rng, i):
    tm = boot.load("experiments.utils.trading_model")
    b = port.Book(rng, T=int(rng.integers(2, 5)), n=3)
    ptype = port.TYPES[i % len(port.TYPES)]
    for _ in range(50):
        kw = port.options(rng, ptype, b.n, book=b)
        if port.feasible(kw, b.n):
            break
    fail = rng.random() < 0.3 and ptype not in ("eq_weighted",)
    mon.describe(**b.desc(), **kw, failing=fail)
    mon.sign(b.S, repr(kw), fail)
    gc.collect()
    try:
        pool.SCHEDULE.real = 2
        t = b.trader(tm)
        t.backtest(**copy.deepcopy(kw))
        t = None
        gc.collect()
        c0, f0, n0 = children(), fds(), {x.name for x in threading.enumerate()}
        mon.check(not c0, "a finished backtest leaves worker processes", left=len(c0), portfolio=ptype)
        for _ in range(2):
            t = b.trader(tm)
            if fail:
                boot.LOG.fault = "raise"
            try:
                t.backtest(**copy.deepcopy(kw))
            except Exception as e:
                if not fail:
                    raise
                mon.event("failed: " + type(e).__name__)
                e = None
            boot.LOG.fault = None
            t = None
            mon.event("real backtests")
        left = 1
        for _ in range(40):
            gc.collect()
            left = len(children())
            if not left and fds() <= f0:
                break
            time.sleep(0.1)
        mon.check(not left, "a finished backtest leaves worker processes", left=left, portfolio=ptype, failing=fail)
        mon.check(fds() <= f0, "a finished backtest leaves files open", before=f0, after=fds(), portfolio=ptype, failing=fail)
        new = {x.name for x in threading.enumerate() if type(x).__name__ != "TMonitor"} - n0
        mon.check(not new, "a finished backtest leaves threads", threads=sorted(new), portfolio=ptype)
    finally:
        boot.LOG.fault = None
        pool.SCHEDULE.reset()
        if children():
            for o in gc.get_objects():
                if isinstance(o, multiprocessing.pool.Pool):
                    o.terminate()
        for p in multiprocessing.active_children():
            p.terminate()


def run(mon, family, rng, i, tier):
    if family == "streams":
        streams(mon, rng, i)
    elif family == "calls":
        calls(mon, rng, i)
    elif family == "solves":
        solves(mon, rng, tier)
    else:
        processes(mon, rng, i)
