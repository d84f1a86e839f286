"""Streams of the estimators and regularisers: schedules of next/close/restart/overwrite operations, and concurrent threads, against the streams run alone."""
import sys, threading

import numpy as np
import pandas as pd

from .. import boot, gen, ref
from .K08 import plain, differ

PRELOAD = ["cvx.covariance.ewma", "cvx.covariance.regularization", "experiments.utils.low_rank_ewma", "experiments.utils.experiment_utils", "experiments.utils.iterated_ewma_vec"]
FAMILIES = {"interleave": (90, 1500), "overwrite": (120, 2000), "twins": (60, 900), "threads": (40, 500)}
RULE = ("A case opens 2..5 streams of the iterated EWMA, the low-rank iterated EWMA, the regularisers, the realised EWMA and the plain EWMA (on the same or different data), and drives a random schedule of next, close, drop, restart and overwrite operations; "
        "an online checker compares every result with the stream run alone beforehand, and re-checks every result handed out earlier, and the inputs, against their snapshots. 'twins' runs the same stream twice over the same input objects; "
        "'threads' consumes every stream in its own thread with a very short switch interval.")
NEED = {"oracle": 4000, "switches": 1500, "snapshot_checks": 8000, "restarts": 150, "closed_early": 60, "overwritten": 400, "kinds": 200, "thread_results": 800, "input_checks": 250}
KINDS = ["iewma", "iewma", "lowrank", "regularize", "factor", "em", "realized", "volas", "plain", "vec"]


def snap(r):
    return plain(r)


def loose(kind, r):
    """factors are determined up to sign only: compare what they represent"""
    if kind == "lowrank":
        F = np.asarray(r.covariance.F.values, float)
        return plain([r.time, r.mean, r.volatility, r.covariance.d.index, F @ F.T + np.diag(np.asarray(r.covariance.d, float))])
    if kind == "factor" or kind == "em":
        t, c = r
        F = np.asarray(c.F.values, float)
        return plain([t, F @ F.T, c.d])
    return plain(r)


def overwrite(x):
    if isinstance(x, (pd.DataFrame, pd.Series)):
        try:
            v = x.values
            if v.flags.writeable:
                v[...] = -7.0
            else:
                x.iloc[:] = -7.0
        except (ValueError, TypeError, AttributeError):
            pass
        try:
            x.index = ["?"] * len(x)
        except Exception:
            pass
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind == "f":
            x[...] = -7.0
    elif isinstance(x, dict):
        for v in x.values():
            overwrite(v)
    elif isinstance(x, (tuple, list)):
        for v in x:
            overwrite(v)


class Source:
    """a way to open the same stream again and again"""

    def __init__(self, rng, kind, df):
        self.kind = kind
        ew, re = boot.load("cvx.covariance.ewma"), boot.load("cvx.covariance.regularization")
        T, n = df.shape
        self.args = [df]
        h = [float(10 ** rng.uniform(0.2, 2)) for _ in range(2)]
        a, b = int(rng.integers(0, T // 3 + 1)), int(rng.integers(0, T // 3 + 1))
        if kind in ("iewma", "lowrank"):
            kw = dict(vola_halflife=h[0], cov_halflife=h[1], min_periods_vola=a, min_periods_cov=b)
            if rng.random() < 0.35:
                kw["mean"] = True
            if rng.random() < 0.3:
                kw["clip_at"] = float(rng.uniform(1.5, 5))
            if kind == "iewma":
                self.open = lambda: ew.iterated_ewma(df, **kw)
            else:
                kw["rank"] = int(rng.integers(1, n))
                f = boot.load("experiments.utils.low_rank_ewma").low_rank_iterated_ewma
                self.open = lambda: f(df, **kw)
            self.what = kw
            return
        if kind in ("regularize", "factor", "em"):
            r = int(rng.integers(1, n))
            S = {df.index[t]: pd.DataFrame(gen.spd(rng, n, str(rng.choice(["wishart", "factor"]))), index=df.columns, columns=df.columns) for t in range(min(T, 25))}
            self.args = [S]
            self.what = dict(r=r)
            if kind == "regularize":
                self.open = lambda: re.regularize_covariance(S, r)
            elif kind == "factor":
                self.open = lambda: re.regularize_covariance(S, r, low_rank_format=True)
            else:
                start = dict(re.regularize_covariance(S, r, low_rank_format=True))
                start = {t: type(c)(F=c.F.copy(), d=c.d * 1.01 + 0.01) for t, c in start.items()}
                self.args = [S, start]
                self.open = lambda: re.em_regularize_covariance(S, start)
            return
        if kind in ("realized", "volas"):
            eu = boot.load("experiments.utils.experiment_utils")
            per = int(rng.integers(2, 5))
            own = np.repeat(np.arange((T + per - 1) // per), per)[:T]
            intra = pd.DataFrame(np.array(df.values, float), index=df.index[own], columns=df.columns)
            self.args = [intra]
            self.what = dict(periods=int(own[-1]) + 1)
            self.open = (lambda: eu.realized_ewma(intra, h[0])) if kind == "realized" else (lambda: eu.realized_volas(intra))
            return
        if kind == "vec":
            f = boot.load("experiments.utils.iterated_ewma_vec").ewma
            frames = rng.random() < 0.5
            y = {df.index[t]: (pd.DataFrame(np.outer(x, x)) if frames else np.outer(x, x)) for t, x in enumerate(np.array(df.values, float))}
            self.args = [y]
            self.what = dict(frames=bool(frames))
            self.open = lambda: f(y, h[0])
            return
        # the plain EWMA streams; where they are no longer separate functions, the iterated one instead
        name = str(rng.choice(["_ewma_mean", "_ewma_cov", "_variance"]))
        f = getattr(ew, name, None)
        self.what = dict(function=name)
        if f is None:
            self.open = lambda: ew.iterated_ewma(df, h[0], h[1], a, b)
        else:
            self.open = lambda: f(df, halflife=h[0], min_periods=a)


class Stream:
    def __init__(self, src):
        self.src = src
        self.solo, self.rough = [], []
        for r in src.open():
            self.solo.append(snap(r))
            self.rough.append(loose(src.kind, r))
        self.restart()

    def restart(self):
        self.it, self.k, self.done = iter(self.src.open()), 0, False


def same(mon, s, k, r, tag):
    got = snap(r)
    exact = differ(got, s.solo[k], 0) is None
    mon.event("bitwise" if exact else "not_bitwise")
    if exact:
        mon.event("oracle")
        return got
    d = differ(loose(s.src.kind, r), s.rough[k], 1e-6 if s.src.kind == "lowrank" else 1e-9)
    mon.check(d is None, tag + "result is not the one of the stream run alone", difference=d, position=k, kind=s.src.kind)
    return got


def step(mon, s, tag):
    """-> (result, snapshot) or None at the end"""
    r = next(s.it, "end")
    if isinstance(r, str):
        mon.check(s.k == len(s.solo), tag + "stream ended early", position=s.k, of=len(s.solo), kind=s.src.kind)
        s.done = True
        return None
    if not mon.check(s.k < len(s.solo), tag + "stream yields more than alone", position=s.k, kind=s.src.kind):
        s.done = True
        return None
    s.k += 1
    return r, same(mon, s, s.k - 1, r, tag)


def run(mon, family, rng, i, tier):
    n = int(rng.integers(3, 7))
    T = int(rng.integers(6, 36))
    frames, srcs = [], []
    for q in range(int(rng.integers(1, 4))):
        if q and rng.random() < 0.6:
            # same labels, other values
            frames.append(pd.DataFrame(np.array(frames[0].values, float)[::-1] * rng.uniform(0.5, 2), index=frames[0].index, columns=frames[0].columns))
        else:
            frames.append(gen.frame(rng, tier, T=T, n=n, kinds=["gauss", "factor", "t3", "garch", "jumps", "regime"])[0])
            if rng.random() < 0.2:
                # moves of a constant size: the volatilities are exactly that size
                f = frames[-1]
                size = 1.0 if rng.random() < 0.6 else 2.0 ** -float(rng.integers(1, 8))
                frames[-1] = pd.DataFrame(size * rng.choice([-1.0, 1.0], f.shape), index=f.index, columns=f.columns)
                mon.event("constant size")
    m = 1 if family == "twins" else int(rng.integers(2, 6))
    for q in range(m):
        kind = str(rng.choice(KINDS))
        f = frames[int(rng.integers(len(frames)))]
        if kind == "lowrank" and len(np.unique(np.abs(f.values))) == 1:
            # centred moves of a constant size may be exactly zero: no correlations to speak of
            kind = "iewma"
        srcs.append(Source(rng, kind, f))
        mon.event("kinds")
        mon.event("kind " + kind)
    if family == "twins" or rng.random() < 0.4:
        srcs.append(srcs[0])
    before = [plain(s.args) for s in srcs]
    streams = [Stream(s) for s in srcs]
    mon.describe(T=T, n=n, streams=[dict(kind=s.src.kind, length=len(s.solo), **{k: v for k, v in s.src.what.items()}) for s in streams])
    mon.sign(*[np.array(f.values, float) for f in frames], repr([s.src.what for s in streams]))
    if family == "threads":
        old = sys.getswitchinterval()
        errs, outs = [], [[] for _ in streams]
        gate = threading.Barrier(len(streams))

        def work(q):
            try:
                gate.wait(30)
                for r in streams[q].src.open():
                    outs[q].append(r)
            except BaseException as e:
                errs.append(e)

        try:
            sys.setswitchinterval(1e-6)
            ts = [threading.Thread(target=work, args=(q,), daemon=True) for q in range(len(streams))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        if errs:
            raise errs[0]
        for q, s in enumerate(streams):
            if mon.check(len(outs[q]) == len(s.solo), "threads: number of results", got=len(outs[q]), want=len(s.solo), kind=s.src.kind):
                for k, r in enumerate(outs[q]):
                    same(mon, s, k, r, "threads: ")
                    mon.event("thread_results")
    else:
        held, ops, last = [], [], None
        for _ in range(int(rng.integers(30, 110))):
            if all(s.done for s in streams):
                break
            q = int(rng.integers(len(streams)))
            s = streams[q]
            x = rng.random()
            if x < 0.92:
                if s.done:
                    mon.check(isinstance(next(s.it, "end"), str), "a finished stream yields again", kind=s.src.kind)
                    continue
                out = step(mon, s, "interleaved: ")
                ops.append("n%d" % q)
                if last is not None and last != q:
                    mon.event("switches")
                last = q
                if out is not None:
                    # (the plain streams are internal: what they hand out is the running average itself)
                    if s.src.kind != "plain" and rng.random() < (0.5 if family == "overwrite" else 0.05):
                        overwrite(out[0])
                        ops.append("!")
                        mon.event("overwritten")
                    else:
                        held.append((s.src.kind,) + out)
            else:
                if x < 0.96 and hasattr(s.it, "close"):
                    s.it.close()
                    mon.event("closed_early")
                s.restart()
                mon.event("restarts")
                ops.append("r%d" % q)
            for kind, r, was in held[-12:]:
                mon.event("snapshot_checks")
                d = differ(snap(r), was, 0)
                if not mon.check(d is None, "a handed-out result changed afterwards", kind=kind, difference=d, after=ops[-3:]):
                    return
        for s in streams:
            while not s.done:
                out = step(mon, s, "drained: ")
                if out is not None:
                    held.append((s.src.kind,) + out)
        for kind, r, was in held:
            mon.event("snapshot_checks")
            d = differ(snap(r), was, 0)
            if not mon.check(d is None, "a handed-out result changed afterwards", kind=kind, difference=d):
                return
    for s, b in zip(srcs, before):
        mon.event("input_checks")
        d = differ(plain(s.args), b, 0)
        mon.check(d is None, "the input changed", kind=s.kind, difference=d)
