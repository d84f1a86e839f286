"""Results are plain data: pickles, deep copies, and independence from the memory of the arguments."""
import copy, pickle

import numpy as np
import pandas as pd

from .. import boot, comb, gen, pool, port
from . import K08

PRELOAD = K08.PRELOAD + ["experiments.utils.factor_model", "experiments.utils.portfolio_backtests"]
FAMILIES = {"results": (231, 2310), "detached": (256, 2560), "combinations": (48, 600), "traders": (40, 400)}
RULE = ("'results' takes the raw results of the public functions (named tuples, frames, factor models, metrics) through pickle (all protocols) and copy/deepcopy, one by one and together, and compares them with the originals (type, fields, labels, dtypes, values); 'detached' overwrites the arguments after the call, "
        "and then the results, and compares the other side with its snapshot; 'combinations' copies and pickles a combination before, during and after solving, overwrites the originals' data and compares all solve results with those of a fresh object; 'traders' does the same with traders before and after backtests of all types.")
NEED = {"oracle": 1500, "round trips": 1200, "detached": 180, "clones": 120, "trader clones": 100, "functions": 20}
ASSUMPTIONS = ["ECOS is replaced by CLARABEL", "multiprocessing.Pool is replaced by a pickling in-process pool"]


def raw():
    """name -> (draw, call): as in K08, but the results as they are handed out"""
    ew = boot.load("cvx.covariance.ewma")
    co = boot.load("cvx.covariance.combination")
    rg = boot.load("cvx.covariance.regularization")
    lr = boot.load("experiments.utils.low_rank_ewma")
    ve = boot.load("experiments.utils.iterated_ewma_vec")
    fm = boot.load("experiments.utils.factor_model")
    base = K08.registry()
    E = {k: v[:2] for k, v in base.items() if k not in ("Trader", "regularize factors", "low_rank_iterated_ewma", "em")}
    E["regularize factors"] = base["regularize"][0], lambda a, o: list(rg.regularize_covariance(a[0], o["r"], low_rank_format=True))
    E["em"] = base["em"][0], lambda a, o: list(rg.em_regularize_covariance(a[0], a[1]))
    E["low_rank_iterated_ewma"] = base["low_rank_iterated_ewma"][0], lambda a, o: list(lr.low_rank_iterated_ewma(a[0], o["h"], 2 * o["h"] + 5, 1, o["mp"] + 2, 3))
    E["clip wide"] = lambda d: [d.df()], lambda a, o: ew.clip(a[0], None if o["mp"] else 1e6)
    E["center mean"] = lambda d: [d.df() * 0.0 if d.rng.random() < 0.3 else d.df()], lambda a, o: ew.center(a[0], o["h"], 0, True)
    E["factor model"] = lambda d: [d.df()], lambda a, o: list(fm.construct_cmiewma_factor_model(a[0], 1, [(4, 8), (6, 14)], update_frequency=3, memory=20))
    E["vectorised raw"] = base["vectorised iterated_ewma"][0], lambda a, o: ve.iterated_ewma(a[0], o["h"], 2 * o["h"] + 5, o["mp"] + 2, 3)
    return E


def form(x):
    """plain form with the fields of named tuples"""
    names = []

    def walk(v, depth=0):
        if len(names) > 500 or depth > 6:
            return
        if hasattr(v, "_fields"):
            names.append((type(v).__name__, tuple(v._fields)))
        if isinstance(v, dict):
            for q in v.values():
                walk(q, depth + 1)
        elif isinstance(v, (list, tuple)):
            for q in v:
                walk(q, depth + 1)

    walk(x)
    return K08.plain(x), names


def same(a, b, rtol=0, atol=0.0):
    x = K08.differ(a[0], b[0], rtol, atol)
    if x is None and a[1] != b[1]:
        x = "named fields"
    return x


WAYS = [("pickle %d" % p, (lambda p: lambda x: pickle.loads(pickle.dumps(x, protocol=p)))(p)) for p in (0, 2, pickle.DEFAULT_PROTOCOL, pickle.HIGHEST_PROTOCOL)] + [("copy", copy.copy), ("deepcopy", copy.deepcopy)]


def leaves(x, out=None):
    out = [] if out is None else out
    if isinstance(x, (pd.DataFrame, pd.Series, np.ndarray)):
        out.append(x)
    elif isinstance(x, dict):
        for v in x.values():
            leaves(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            leaves(v, out)
    return out


def trash(rng, x):
    """overwrites all numbers in place; -> how many containers"""
    n = 0
    for v in leaves(x):
        a = v if isinstance(v, np.ndarray) else v.values
        if a.dtype.kind not in "fi" or not a.size:
            continue
        try:
            if isinstance(v, np.ndarray):
                v[...] = rng.normal() * 77
            elif isinstance(v, pd.DataFrame):
                if a.flags.writeable and v._mgr.is_single_block:
                    a[...] = -55.0
                v.iloc[:, :] = np.full(v.shape, 77.0)
            else:
                if a.flags.writeable:
                    a[...] = -55.0
                v.iloc[:] = 77.0
            n += 1
        except ValueError:
            pass
    return n


def run(mon, family, rng, i, tier):
    if family in ("results", "detached"):
        E = raw()
        names = [x for x in E if not (family == "detached" and x == "center off")]  # centering that is switched off hands back the returns themselves
        name = names[i % len(names)]
        T, n, K = int(rng.integers(9, 30)) + 20, int(rng.integers(3, 6)), int(rng.integers(2, 4))
        if name.startswith("from_sigmas"):
            T = int(rng.integers(9, 15))
        d = K08.Draw(rng, T, n, K)
        o = K08.options(rng, n)
        mon.describe(function=name, T=T, n=n, options=o)
        mon.event("functions")
        draw, call = E[name]
        args = draw(d)
        mon.sign(*[v for _, _, v in K08.plain(args)[:30] if v is not None and v.dtype.kind == "f"], repr(o), name)
        got = call(args, o)
        if not isinstance(got, (list, tuple, dict, pd.DataFrame, pd.Series, np.ndarray, float)):
            got = list(got)
        want = form(got)
        if family == "results":
            parts = [got] + (list(got) if type(got) is list else [])[:: max(1, len(got) // 4) if type(got) is list else 1][:5]
            for p in parts:
                f = form(p)
                for how, way in WAYS:
                    try:
                        q = way(p)
                    except Exception as e:
                        mon.fail("a result cannot be copied or pickled", function=name, how=how, error=repr(e)[:200])
                        continue
                    mon.event("round trips")
                    x = same(f, form(q))
                    mon.check(x is None and type(q) is type(p), "a copied or pickled result differs from the result", function=name, how=how, where=x)
            x = same(want, form(got))
            mon.check(x is None, "copying or pickling changes the result", function=name, where=x)
            return
        snap = form(args)
        mon.event("detached")
        if rng.random() < 0.5:
            trash(rng, args)
            x = same(want, form(got))
            mon.check(x is None, "overwriting the arguments afterwards changes the result", function=name, where=x)
        else:
            trash(rng, got)
            x = same(snap, form(args))
            mon.check(x is None, "overwriting the result changes the arguments", function=name, where=x)
        return
    if family == "combinations":
        co = boot.load("cvx.covariance.combination")
        S = comb.Setup(rng, tier, Tmax=12, nmax=4, Kmax=3)
        mon.describe(**S.desc)
        S.sign(mon)
        w = comb.window(rng, S.T)
        CR = S.ref()
        fresh = [comb.snapshot(r) for r in S.build(co).solve(window=w)]
        sig, mu, df = S.sigmas(), S.means(), S.df.copy()
        c = S.build(co, sigmas=sig, means=mu, returns=df)
        clones = []

        def clone(tag):
            for how, way in [WAYS[2], WAYS[-1]]:
                try:
                    clones.append((tag + ", " + how, way(c)))
                except Exception as e:
                    mon.fail("a combination cannot be copied or pickled", when=tag, how=how, error=repr(e)[:200])

        def compare(obj, tag, it=None):
            got = [comb.snapshot(r) for r in (obj.solve(window=w) if it is None else it)]
            mon.event("clones")
            if not mon.check(len(got) == len(fresh), "a copy of a combination gives other results: number", when=tag, got=len(got), want=len(fresh)):
                return
            for a, b in zip(got, fresh):
                if a is None or b is None:
                    mon.check(a is b, "a copy of a combination gives other results: None", when=tag)
                    continue
                if not mon.check(a[0] == b[0], "a copy of a combination gives other results: times", when=tag):
                    return
                comb.same_weights(mon, CR, a[0], w or S.T + 1, a[3], b[3], "a copy of a combination gives other results: weights", tol=1e-4)
                s = np.sqrt(np.diag(b[2]))
                mon.event("values compared")
                if np.abs(a[3] - b[3]).max() < 1e-9:
                    mon.close(a[2] / np.outer(s, s), b[2] / np.outer(s, s), 1e-6, "a copy of a combination gives other results: covariance", when=tag)
                    mon.close(a[1] / s, b[1] / s, 1e-6 * (1 + np.abs(b[1] / s).max()), "a copy of a combination gives other results: mean", when=tag)

        clone("before solving")
        it = c.solve(window=w)
        head = []
        for _ in range(int(rng.integers(1, 4))):
            r = next(it, "end")
            if r != "end" if isinstance(r, str) else True:
                head.append(r)
        clone("while solving")
        compare(c, "original", iter(head + list(it)))
        clone("after solving")
        if rng.random() < 0.7:
            # the copies have their own data
            trash(rng, [df, sig, mu or {}])
        order = rng.permutation(len(clones))
        for k in order:
            compare(clones[k][1], clones[k][0])
        return
    # ---- traders
    tm = boot.load("experiments.utils.trading_model")
    ptype = port.TYPES[i % len(port.TYPES)]
    b = port.Book(rng)
    for _ in range(50):
        kw = port.options(rng, ptype, b.n, book=b)
        if port.feasible(kw, b.n):
            break
    mon.describe(**b.desc(), **kw)
    mon.sign(b.S, b.R, repr(kw))
    fresh = b.trader(tm)
    fresh.backtest(**copy.deepcopy(kw))
    W = np.array(fresh.ws, float)
    cash = ptype not in ("vol_cont", "mean_variance")

    def met(t):
        out = [float(x) for x in t.get_metrics()]
        if cash and diluted:
            out += [float(x) for x in t.get_metrics(diluted_with_cash=True, sigma_des=sd)] + [float(x) for x in np.ravel(t.ws_diluted)]
        return np.array(out, float)

    diluted, sd = rng.random() < 0.6, float(rng.uniform(0.05, 0.3))
    M = met(fresh)
    R, S, mu = b.frame(b.R), b.cov(), b.frame(b.mu)
    t = tm.Trader(R, S, r_hats=mu)
    clones = []

    def clone(tag):
        for how, way in [WAYS[2], WAYS[-1]]:
            try:
                clones.append((tag, how, way(t)))
            except Exception as e:
                mon.fail("a trader cannot be copied or pickled", when=tag, how=how, error=repr(e)[:200], portfolio=ptype)

    clone("before the backtest")
    t.backtest(**copy.deepcopy(kw))
    clone("after the backtest")
    met(t)
    clone("after the metrics")
    for k in rng.permutation(len(clones)):
        tag, how, q = clones[k]
        mon.event("trader clones")
        if tag.startswith("after"):
            mon.close(np.array(q.ws, float), np.array(t.ws, float), 0.0, "a copy of a trader keeps its weights", when=tag, how=how)
            m = met(q)
            mon.close(m, M, 1e-4 * (np.abs(M) + 1e-2), "a copy of a trader gives the same metrics", when=tag, how=how)
        if tag.startswith("before") or rng.random() < 0.5:
            q.backtest(**copy.deepcopy(kw))
            mon.close(np.array(q.ws, float), W, 2e-5, "a copy of a trader gives the same backtest", when=tag, how=how)
    m = met(t)
    mon.close(m, M, 1e-4 * (np.abs(M) + 1e-2), "working with copies leaves the trader as it was")
    mon.close(np.array(t.ws, float), W, 2e-5, "working with copies leaves the trader as it was: weights")
