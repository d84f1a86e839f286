"""Misaligned or incomplete inputs are refused, not traded on or blended: a valid call next to a spoiled copy of it."""
import numpy as np
import pandas as pd

from .. import boot, comb, gen, pool, port, ref
from .K08 import plain, differ

PRELOAD = ["cvx.covariance.combination", "experiments.utils.trading_model", "experiments.utils.portfolio_backtests", "experiments.utils.return_combination", "experiments.utils.iterated_ewma_vec"]
FAMILIES = {"trader": (160, 2000), "predictors": (160, 2000), "missing": (120, 1200), "means": (120, 1500), "times": (140, 1500), "returns": (100, 1200), "clip": (40, 400)}
RULE = ("A case makes a valid call, which must be accepted, and a spoiled one that differs from it in one respect: a date swapped, dropped, added or renamed, rows or columns of predicted means in another order, a predictor covering an unknown date, "
        "an option that the portfolio type needs left out, requested times reversed, repeated, with a gap or unknown. The spoiled one must raise, leave its inputs alone, and not spoil the valid call when that is repeated.")
NEED = {"oracle": 1500, "rejections": 700, "accepted": 600, "ways": 600, "repeated": 150}


def spoil_order(rng, xs):
    """the same labels in another order"""
    p = list(range(len(xs)))
    a, b = [int(x) for x in rng.choice(len(xs), 2, replace=False)]
    if rng.random() < 0.3:
        return p[::-1]
    p[a], p[b] = p[b], p[a]
    return p


def rename(index, k, new):
    x = list(index)
    x[k] = new
    return x


def another(index):
    """a label that is not in the index, of the same kind"""
    d = index[-1]
    for step in (pd.Timedelta(days=3), 1, 1.0):
        try:
            n = d + step
            if n not in list(index):
                return n
        except Exception:
            pass
    return "no such label"


def run(mon, family, rng, i, tier):
    tm, pb, co = boot.load("experiments.utils.trading_model"), boot.load("experiments.utils.portfolio_backtests"), boot.load("cvx.covariance.combination")
    pool.SCHEDULE.reset()

    def both(good, bad, what, args=None, **d):
        mon.describe(**d)
        before = plain(args) if args is not None else None
        if good is not None:
            good()
            mon.event("accepted")
        mon.event("ways")
        mon.raises(bad, what, **d)
        if args is not None:
            x = differ(plain(args), before, 0)
            mon.check(x is None, "a refused call changed its inputs", difference=x, **d)
        if good is not None and rng.random() < 0.4:
            good()
            mon.event("repeated")

    if family == "trader":
        b = port.Book(rng, T=int(rng.integers(2, 7)))
        if b.index.has_duplicates:
            return
        R, C, M, Q = b.frame(b.R), b.cov(), b.frame(b.mu), b.frame(b.rho)
        mon.sign(b.S, b.R)
        use_m, use_q = bool(rng.random() < 0.7), bool(rng.random() < 0.5)
        kw = {}
        if use_m:
            kw["r_hats"] = M
        if use_q:
            kw["rhos"] = Q
        ways = ["cov order", "cov missing", "cov extra", "cov renamed"]
        for k in kw:
            ways += [f"{k} {w}" for w in ("row order", "column order", "row missing", "column missing", "row renamed", "column renamed", "row extra")]
        way = str(rng.choice(ways))
        C2, kw2 = dict(C), dict(kw)
        T, n = b.T, b.n
        what, how = way.split(" ", 1)
        new = another(b.index)
        if what == "cov":
            ks = list(C)
            if how == "order":
                C2 = {ks[p]: C[ks[p]] for p in spoil_order(rng, ks)}
            elif how == "missing":
                del C2[ks[int(rng.integers(T))]]
            elif how == "extra":
                C2[new] = C[ks[-1]]
            else:
                C2 = dict(zip(rename(ks, int(rng.integers(T)), new), C.values()))
        else:
            F = kw[what]
            if how == "row order":
                F = F.iloc[spoil_order(rng, F.index)]
            elif how == "column order":
                F = F.iloc[:, spoil_order(rng, F.columns)]
            elif how == "row missing":
                F = F.drop(index=F.index[int(rng.integers(T))])
            elif how == "column missing":
                F = F.iloc[:, np.delete(np.arange(n), int(rng.integers(n)))]
            elif how == "row renamed":
                F = pd.DataFrame(F.values, index=pd.Index(rename(F.index, int(rng.integers(T)), new)), columns=F.columns)
            elif how == "row extra":
                F = pd.concat([F, pd.DataFrame(F.values[-1:], index=pd.Index([new]), columns=F.columns)])
            else:
                F = pd.DataFrame(F.values, index=F.index, columns=pd.Index(rename(F.columns, int(rng.integers(n)), "no such asset")))
            kw2[what] = F
        both(lambda: tm.Trader(R, C, **kw), lambda: tm.Trader(R, C2, **kw2), "a trader accepts inputs that are not aligned with its returns", args=[R, C2, kw2], way=way, **b.desc())
        return
    if family == "predictors":
        name = str(rng.choice(["EqWeighted", "MinRisk", "MaxDiverse", "RiskParity", "MeanVariance"]))
        b = port.Book(rng, T=int(rng.integers(4, 8)))
        if b.index.has_duplicates or not b.index.is_monotonic_increasing:
            return
        mon.sign(b.S)
        T = b.T
        k = int(rng.integers(1, 4))
        covs = [b.cov(range(0, T)) for _ in range(k)]
        R = b.frame(b.R)
        M = [b.frame(b.mu) for _ in range(k)]
        names = [f"p{j}" for j in range(k)]
        j = int(rng.integers(k))
        ways = ["unknown date", "start", "end"] + (["mean missing"] * 2 if name == "MeanVariance" else [])
        way = str(rng.choice(ways))
        cov2, M2, kw2 = [dict(c) for c in covs], list(M), {}
        new = another(b.index)
        if way == "unknown date":
            ks = list(cov2[j])
            if rng.random() < 0.5:
                cov2[j][new] = cov2[j][ks[-1]]
            else:
                cov2[j] = dict(zip(rename(ks, int(rng.integers(T)), new), cov2[j].values()))
        elif way == "start":
            kw2["start_date"] = new
        elif way == "end":
            kw2["end_date"] = new
        else:
            M2[j] = M2[j].drop(index=b.index[int(rng.integers(T))])
        cls = getattr(pb, name)
        make = lambda c, m, kw: cls(R, c, names, m, **kw) if name == "MeanVariance" else cls(R, c, names, **kw)
        both(lambda: make(covs, M, {}), lambda: make(cov2, M2, kw2), "a backtest accepts predictors that do not fit the returns", args=[R, cov2, M2], way=way, cls=name, **b.desc())
        return
    if family == "missing":
        b = port.Book(rng, T=int(rng.integers(2, 5)))
        if b.index.has_duplicates:
            return
        mon.sign(b.S, b.R)
        R, C, M = b.frame(b.R), b.cov(), b.frame(b.mu)
        way = str(rng.choice(["kappa", "vol_cont target", "mean_variance target", "mean_variance means", "max_sharpe means", "type", "rf", "rhos date"]))
        rf = pd.Series(rng.uniform(0, 1e-4, b.T), index=b.index)
        cons = {"upper_bound": 1.0}
        T = lambda m=True: tm.Trader(R, C, r_hats=M if m else None)
        if way == "kappa":
            g = lambda: T().backtest("robust_min_risk", kappa=1.0, additonal_cons=cons)
            f = lambda: T().backtest("robust_min_risk", additonal_cons=cons)
        elif way == "vol_cont target":
            g = lambda: T().backtest("vol_cont", sigma_des=0.1, additonal_cons=cons)
            f = lambda: T().backtest("vol_cont", additonal_cons=cons)
        elif way == "mean_variance target":
            g = lambda: T().backtest("mean_variance", sigma_des=0.1, additonal_cons=cons)
            f = lambda: T().backtest("mean_variance", additonal_cons=cons)
        elif way == "mean_variance means":
            g = lambda: T().backtest("mean_variance", sigma_des=0.1, additonal_cons=cons)
            f = lambda: T(False).backtest("mean_variance", sigma_des=0.1, additonal_cons=cons)
        elif way == "max_sharpe means":
            g = lambda: T().backtest("max_sharpe", additonal_cons=cons)
            f = lambda: T(False).backtest("max_sharpe", additonal_cons=cons)
        elif way == "type":
            g = lambda: T().backtest("eq_weighted")
            f = lambda: T().backtest(str(rng.choice(["equal_weighted", "", "min-risk"])))
        elif way == "rf":
            t = T()
            t.backtest("eq_weighted")
            g = lambda: t.get_metrics(excess=True, rf=rf)
            f = lambda: t.get_metrics(excess=True)
        else:
            q = b.frame(b.rho)
            g = lambda: T().backtest("mean_variance", sigma_des=0.1, additonal_cons=cons, rhos=q)
            f = lambda: T().backtest("mean_variance", sigma_des=0.1, additonal_cons=cons, rhos=q.drop(index=b.index[int(rng.integers(b.T))]))
        both(g, f, "a backtest runs without an input it needs", args=[R, C, M, rf], way=way, **b.desc())
        return
    if family in ("means", "times"):
        S = comb.Setup(rng, tier, T=int(rng.integers(6, 16)), n=int(rng.integers(1, 4)), K=int(rng.integers(1, 4)), kind=str(rng.choice(["ewma", "wishart", "static"])), with_means=family == "means" or None)
        CR = S.ref()
        w = comb.window(rng, CR.N)
        S.sign(mon, w)
        sig, mu = S.sigmas(), S.means()
        if family == "means":
            way = str(rng.choice(["expert missing", "expert extra", "time missing", "time extra", "time renamed", "shifted"]))
            k = S.keys[int(rng.integers(S.K))]
            bad = {q: dict(v) for q, v in mu.items()}
            ts = list(bad[k])
            new = another(S.df.index)
            if way == "expert missing":
                del bad[k]
            elif way == "expert extra":
                bad["one more"] = dict(bad[k])
            elif way == "time missing":
                del bad[k][ts[int(rng.integers(len(ts)))]]
            elif way == "time extra":
                bad[k][new] = bad[k][ts[-1]]
            elif way == "time renamed":
                bad[k] = dict(zip(rename(ts, int(rng.integers(len(ts))), new), bad[k].values()))
            else:
                bad[k] = dict(zip(ts[1:] + [new], bad[k].values()))
            both(lambda: next(iter(co.from_sigmas(sig, S.df, means=mu).solve(window=w))), lambda: list(co.from_sigmas(sig, S.df, means=bad).solve(window=w)), "means that do not fit the covariances are accepted", args=[sig, bad, S.df], way=way, **S.desc)
            return
        c = S.build(co)
        U = list(CR.usable)
        if len(U) < 4:
            return
        a = int(rng.integers(0, len(U) - 3))
        z = int(rng.integers(a + 3, len(U) + 1))
        req = U[a:z]
        way = str(rng.choice(["reversed", "repeated", "gap", "unknown", "before", "swapped"]))
        bad = list(req)
        if way == "reversed":
            bad = bad[::-1]
        elif way == "repeated":
            k = int(rng.integers(len(bad)))
            bad = bad[: k + 1] + bad[k:]
        elif way == "gap":
            del bad[int(rng.integers(1, len(bad) - 1))]
        elif way == "unknown":
            bad[int(rng.integers(len(bad)))] = another(S.df.index)
        elif way == "before":
            # the first time of the sample has no earlier prediction
            bad = [S.df.index[0]] + U[: z - a]
        else:
            k = int(rng.integers(len(bad) - 1))
            bad[k], bad[k + 1] = bad[k + 1], bad[k]
        both(lambda: list(c.solve(window=w, times=req)), lambda: list(c.solve(window=w, times=bad)), "requested times that are not consecutive usable times are accepted", args=[sig, bad], way=way, requested=len(req), window=w, **S.desc)
        return
    rc = boot.load("experiments.utils.return_combination")
    if family == "returns":
        T, K, n = int(rng.integers(12, 26)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
        mem = int(rng.integers(3, T - 4)) if rng.random() < 0.5 else T - 1
        ix, ik = gen.index(rng, T)
        if ix.has_duplicates:
            return
        co_, ck = gen.columns(rng, n)
        R = pd.DataFrame(rng.normal(size=(T, n)), index=ix, columns=co_)
        P = [pd.DataFrame(rng.normal(size=(T, K)), index=ix, columns=range(K)) for _ in range(n)]
        mon.sign(R.values)
        new = another(ix)
        way = str(rng.choice(["unknown time", "different times", "old K"] if n > 1 else ["unknown time", "old K"]))
        mon.describe(T=T, K=K, n=n, memory=mem, index=ik)
        if way == "old K":
            def fit(k):
                c = rc.ReturnCombinatorOld()
                c.build(mem, k, 0.1)
                return c.fit(R.iloc[: mem + 3, 0], P[0].iloc[: mem + 3])

            both((lambda: fit(K)) if rng.random() < 0.3 else None, lambda: fit(K + (1 if K == 1 or rng.random() < 0.5 else -1)), "predictors that do not fit the built model are accepted", args=[R, P], way=way)
            return
        if way == "unknown time":
            k = int(rng.integers(T))
            P2 = [pd.DataFrame(p.values, index=pd.Index(rename(ix, k, new)), columns=p.columns) for p in P]
        else:
            k, j = int(rng.integers(T)), int(rng.integers(n))
            P2 = list(P)
            P2[j] = P[j].drop(index=ix[k]) if rng.random() < 0.5 else P[j].iloc[spoil_order(rng, ix)]
        both(lambda: rc.ReturnCombinator().fit(R, P, mem, 0.1), lambda: rc.ReturnCombinator().fit(R, P2, mem, 0.1), "predictors with other times are accepted", args=[R, P2], way=way)
        return
    f = boot.load("experiments.utils.iterated_ewma_vec").ewma
    T = int(rng.integers(3, 20))
    y = {t: rng.normal(size=3) ** 2 for t in range(T)}
    mon.sign(np.array(list(y.values())))
    c = float(rng.uniform(1, 5))
    both(lambda: list(f(y, 5, clip_at=c, min_periods=int(rng.integers(1, 5)))), lambda: list(f(y, 5, clip_at=c)), "clipping without a warm-up is accepted", args=[y], way="min_periods")
