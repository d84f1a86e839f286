"""Interleaved result streams: a trace of next/close/restart operations against the streams run alone."""
import numpy as np
import pandas as pd

from .. import boot, comb, gen, ref

FAMILIES = {"interleave": (150, 2600), "same_object": (120, 2000), "overwrite": (120, 2000), "all_orders": (12, 120)}
RULE = ("A case draws 1..3 combination objects (same or different data, shapes and labels), opens 2..5 streams (same or different windows and times), and drives a random schedule of next, close, drop, restart and "
        "overwrite operations; an online checker compares every handed-out result with the stream run alone on a fresh object and re-checks every earlier result against its snapshot after every operation. "
        "'all_orders' enumerates all merges of two short streams.")
NEED = {"oracle": 3000, "switches": 500, "snapshot_checks": 3000, "restarts": 60, "closed_early": 60, "overwritten": 150, "schedules": 300}


def overwrite(rng, r):
    """what a careless user may do with a result"""
    for x in (r.weights, r.covariance, r.mean):
        try:
            v = x.values
            if v.flags.writeable:
                v[...] = -7.0
            else:
                x.iloc[:] = -7.0
        except (ValueError, TypeError, AttributeError):
            pass
    try:
        r.covariance.index = ["?"] * len(r.covariance)
    except Exception:
        pass


def same(a, b):
    return a is None and b is None or (a is not None and b is not None and a[0] == b[0] and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a[1:], b[1:])))


class Stream:
    def __init__(self, obj, setup, CR, w, times, solo):
        self.obj, self.S, self.CR, self.w, self.times, self.solo = obj, setup, CR, w, times, solo
        self.open()

    def open(self):
        self.it = self.obj.solve(window=self.w) if self.times is None else self.obj.solve(window=self.w, times=list(self.times))
        self.k = 0
        self.done = False


def check_step(mon, s, r, tag=""):
    want = s.solo[s.k] if s.k < len(s.solo) else "end"
    if r == "end":
        mon.check(want == "end", tag + "stream ended early", position=s.k, of=len(s.solo))
        s.done = True
        return None
    if not mon.check(want != "end", tag + "stream yields more than alone", position=s.k):
        s.done = True
        return None
    s.k += 1
    snap = comb.snapshot(r)
    if snap is None or want is None:
        if not (snap is None and want is None):
            mon.event("solver_none")
        return snap
    mon.check(snap[0] == want[0], tag + "time as alone", got=snap[0], want=want[0])
    if not same(snap, want):
        comb.same_weights(mon, s.CR, want[0], s.w, want[3], snap[3], tag + "weights as alone")
        ref.check_result(mon, s.CR, r, want[0], s.w, tag)
        mon.event("not_bitwise")
    else:
        mon.event("bitwise")
        mon.event("oracle")
    return snap


def run(mon, family, rng, i, tier):
    co = boot.load("cvx.covariance.combination")
    # objects
    nobj = 1 if family in ("same_object", "all_orders") else int(rng.integers(1, 4))
    small = family == "all_orders"
    T, n, K = int(rng.integers(4, 7 if small else 16)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    if not small and i % 30 == 13:
        T, K = (int(rng.integers(30, 90)), K) if i % 60 == 13 else (T, int(rng.integers(6, 12)))
    kk = str(rng.choice(comb.KEYKINDS[:4]))
    setups = []
    for q in range(nobj):
        same_shape = rng.random() < 0.6
        S = comb.Setup(rng, tier, T=T if same_shape else int(rng.integers(4, 16)), n=n if same_shape else int(rng.integers(1, 5)), K=K if same_shape else int(rng.integers(1, 5)),
                       keykind=kk, index_kind="date" if same_shape else None, columns_kind="letters" if same_shape else None, kind=str(rng.choice(["ewma", "wishart", "noisy", "static", "identical"])))
        setups.append(S)
    objs = [S.build(co) for S in setups]
    refs = [S.ref() for S in setups]
    streams = []
    wshare = None
    for q in range(2 if small else int(rng.integers(2, 6))):
        o = int(rng.integers(nobj))
        CR = refs[o]
        if rng.random() < 0.4 and wshare is not None and wshare[0] == o:
            w = wshare[1]
        else:
            w = comb.window(rng, CR.N)
            wshare = (o, w)
        times = None
        if rng.random() < 0.35 and CR.N >= 2:
            a = int(rng.integers(0, CR.N))
            times = CR.usable[a : int(rng.integers(a + 1, CR.N + 1))]
        fresh = setups[o].build(co)
        it = fresh.solve(window=w) if times is None else fresh.solve(window=w, times=list(times))
        solo = [comb.snapshot(r) for r in it]
        streams.append(Stream(objs[o], setups[o], CR, w, times, solo))
    mon.describe(objects=[S.desc for S in setups], streams=[dict(object=objs.index(s.obj), window=s.w, times=None if s.times is None else len(s.times), length=len(s.solo)) for s in streams])
    for S in setups:
        S.sign(mon)
    if small:
        import itertools

        la, lb = len(streams[0].solo), len(streams[1].solo)
        if la + lb > 9:
            la, lb = min(la, 5), min(lb, 4)
        for pick in itertools.combinations(range(la + lb), la):
            for s in streams:
                s.open()
            held = []
            for p in range(la + lb):
                s = streams[0] if p in pick else streams[1]
                r = next(s.it, "end")
                snap = check_step(mon, s, r, "merged: ")
                if r != "end":
                    held.append((r, snap))
                mon.event("switches")
            for r, snap in held:
                mon.event("snapshot_checks")
                mon.check(same(comb.snapshot(r), snap), "a handed-out result changed afterwards")
            mon.event("schedules")
        return
    held, ops = [], []
    last = None
    for step in range(int(rng.integers(15, 60 if tier == "quick" else 120))):
        if all(s.done for s in streams) and rng.random() < 0.7:
            break
        q = int(rng.integers(len(streams)))
        s = streams[q]
        x = rng.random()
        if x < 0.80:
            if s.done and rng.random() < 0.8:
                continue
            r = next(s.it, "end")
            if s.done:
                mon.check(r == "end", "a finished stream yields again")
                continue
            snap = check_step(mon, s, r, "interleaved: ")
            if last is not None and last != q:
                mon.event("switches")
            last = q
            ops.append("n%d" % q)
            if r != "end" and r is not None:
                if family == "overwrite" and rng.random() < 0.6 or rng.random() < 0.08:
                    overwrite(rng, r)
                    mon.event("overwritten")
                    ops.append("!")
                else:
                    held.append((r, snap))
        elif x < 0.86:
            s.it.close() if hasattr(s.it, "close") else None
            s.open()
            mon.event("closed_early")
            mon.event("restarts")
            ops.append("c%d" % q)
        elif x < 0.93:
            s.open()  # the old generator is dropped half way
            mon.event("restarts")
            ops.append("r%d" % q)
        else:
            # a second full run on the same object in between
            list(s.obj.solve(window=comb.window(rng, s.CR.N)))
            mon.event("full_runs_between")
            ops.append("f%d" % q)
        for r, snap in held:
            mon.event("snapshot_checks")
            if not mon.check(same(comb.snapshot(r), snap), "a handed-out result changed afterwards", time=snap[0], after=ops[-3:]):
                held = []
                break
    mon.event("schedules")
    mon.sign(" ".join(ops))
    # the leftovers, one after the other
    for s in streams:
        while not s.done and s.k <= len(s.solo):
            check_step(mon, s, next(s.it, "end"), "drained: ")
    for r, snap in held:
        mon.check(same(comb.snapshot(r), snap), "a handed-out result changed afterwards", time=snap[0])
