"""Metamorphic relations: units, labels, order and signs of the assets."""
import numpy as np
import pandas as pd

from .. import boot, comb, gen, ref

FAMILIES = {"scale": (160, 3000), "permute": (120, 2000), "rename": (120, 2000), "flip": (100, 1500), "blend_scale": (80, 1200), "blend_rename": (80, 1200), "ewmas": (40, 500), "regularize": (80, 900)}
RULE = ("A case draws a frame and a transformation (own positive constant per asset over up to 32 orders of magnitude, permutation, renaming of assets and times to another label type, sign flips), runs both "
        "frames and compares the transformed outputs; blended predictors under a common constant and renaming.")
NEED = {"oracle": 3000, "pairs": 3000, "blend_pairs": 500, "reg_pairs": 50}


def params(rng, T, mean):
    p = gen.iewma_params(rng, T, mean=mean)
    for k in ("vola_halflife", "cov_halflife", "mu_halflife1", "mu_halflife2"):
        if k in p:
            p[k] = max(p[k], 0.5)
    if mean:
        p["min_periods_cov"], p["min_periods_vola"] = max(2, p["min_periods_cov"]), max(2, p["min_periods_vola"])
        if p.get("clip_at"):
            p["clip_at"] = max(p["clip_at"], 1.2)
    return p


def run(mon, family, rng, i, tier):
    ewma = boot.load("cvx.covariance.ewma")
    co = boot.load("cvx.covariance.combination")
    if family in ("scale", "permute", "rename", "flip"):
        df, d = gen.frame(rng, tier, kinds=gen.SMOOTH + ["collapse"], tmax=100)
        T, n = df.shape
        X = np.array(df.values, float)
        mean = rng.random() < 0.35
        p = params(rng, T, mean)
        perm = np.arange(n)
        c = np.ones(n)
        index, cols = df.index, df.columns
        if family == "scale":
            c = 10 ** (rng.uniform(-6, 6, n) if rng.random() < 0.7 else rng.uniform(-16, 16, n)) if rng.random() < 0.7 else 2.0 ** rng.integers(-20, 20, n)
            if rng.random() < 0.3:
                c[:] = c[0]
        elif family == "flip":
            c = rng.choice([-1.0, 1.0], n)
            c[int(rng.integers(n))] = -1.0
        elif family == "permute":
            perm = rng.permutation(n)
        else:
            index, ik = gen.index(rng, T)
            cols, ck = gen.columns(rng, n)
            d["to"] = [ik, ck]
        df2 = pd.DataFrame((X * c)[:, perm], index=index, columns=cols[perm] if family == "permute" else cols)
        mon.describe(frame=d, params=p, factors=c[:5])
        mon.sign(X, c, perm, repr(p))
        A, B = list(ewma.iterated_ewma(df, **p)), list(ewma.iterated_ewma(df2, **p))
        if not mon.check(len(A) == len(B), family + ": number of estimates", got=len(B), want=len(A)):
            return
        pos = {t: k for k, t in enumerate(df.index)}
        R = ref.IewmaRef(X, **p)
        for k, (x, y) in enumerate(zip(A, B)):
            und = R.und[k] if k < len(R.und) else np.zeros(n, bool)
            mon.check(y.time == index[pos[x.time]], family + ": times correspond", got=y.time)
            v = np.asarray(x.volatility, float) * np.abs(c)
            C = np.asarray(x.covariance, float) * np.outer(c, c)
            m = np.asarray(x.mean, float) * c
            gv = ref.arr(y.volatility, index=df2.columns, what="volatility")
            gC = ref.arr(y.covariance, index=df2.columns, columns=df2.columns, what="covariance")
            gm = ref.arr(y.mean, index=df2.columns, what="mean")
            v, C, m, und = v[perm], C[np.ix_(perm, perm)], m[perm], und[perm]
            if und.any():
                v, gv, m, gm = [np.where(und, 0, z) for z in (v, gv, m, gm)]
                C, gC = [np.where(und[:, None] | und[None, :], 0, z) for z in (C, gC)]
            mon.close(gv, v, 1e-9 * v + 1e-300, family + ": volatility", params=p)
            mon.close(gC, C, ref.ctol(C, 1e-7), family + ": covariance", params=p)
            mtol = 1e-8 * (np.abs(R.M[R.rows[k]]) + R.V[R.rows[k]] * (1 + np.abs(R.Arow[k]))) * np.abs(c) if mean else np.zeros(n)
            mon.close(gm, m, mtol[perm], family + ": mean", params=p)
            mon.event("pairs")
        return
    if family == "regularize":
        reg = boot.load("cvx.covariance.regularization")
        n = int(rng.integers(2, 9))
        labels, _ = gen.columns(rng, n)
        S = gen.spd(rng, n, "spectrum" if rng.random() < 0.5 else "wishart")
        c = 10 ** rng.uniform(-3, 3, n) * rng.choice([1, -1], n)
        perm = rng.permutation(n)
        r = int(rng.integers(1, n + 1))
        ev = np.linalg.eigvalsh(S / np.sqrt(np.outer(np.diag(S), np.diag(S))))[::-1]
        if r < n and ev[r - 1] - ev[r] < 1e-4:
            return
        mon.describe(n=n, rank=r)
        mon.sign(S, c, perm, r)
        a = dict(reg.regularize_covariance({0: pd.DataFrame(S, index=labels, columns=labels)}, r))[0]
        b = dict(reg.regularize_covariance({"x": pd.DataFrame((S * np.outer(c, c))[np.ix_(perm, perm)], index=labels[perm], columns=labels[perm])}, r))["x"]
        W = (a.values * np.outer(c, c))[np.ix_(perm, perm)]
        mon.close(ref.arr(b, index=labels[perm], columns=labels[perm], what="regularized"), W, ref.ctol(W, 1e-8), "regularisation commutes with units, signs and order")
        mon.event("reg_pairs")
        return
    if family == "ewmas":
        n = int(rng.integers(1, 4))
        df, d = gen.frame(rng, tier, T=int(rng.integers(20, 36)), n=n, kinds=gen.SMOOTH, scale=1.0)
        pairs = [(float(rng.uniform(3, 30)), float(rng.uniform(5 + 2 * n, 60))) for _ in range(int(rng.integers(1, 4)))]
        kw = dict(min_periods_vola=3, min_periods_cov=2 * n + 1, mean=bool(rng.random() < 0.3))
        w = int(rng.integers(1, 8))
        c = 10 ** rng.uniform(-3, 3)
        ix, ik = gen.index(rng, len(df))
        cols, ck = gen.columns(rng, n)
        df2 = pd.DataFrame(np.array(df.values, float) * c, index=ix, columns=cols)
        mon.describe(frame=d, pairs=pairs, window=w, factor=c)
        mon.sign(np.array(df.values), c, repr(pairs), w)
        a, b = co.from_ewmas(df, pairs, **kw), co.from_ewmas(df2, pairs, **kw)
        CR = ref.CombRef(a.sigmas, df, a.means)
        tm = dict(zip(df.index, ix))
    else:
        S = comb.Setup(rng, tier, Tmax=22, scale=1.0)
        df = S.df
        c = float(10 ** rng.uniform(-3, 3)) if family == "blend_scale" else 1.0
        ix, cols = df.index, df.columns
        if family == "blend_rename":
            ix, _ = gen.index(rng, S.T)
            cols, _ = gen.columns(rng, S.n)
        tm = dict(zip(df.index, ix))
        w = comb.window(rng, S.T - 1)
        mon.describe(**S.desc, window=w, factor=c)
        S.sign(mon, c, w)
        a = S.build(co)
        CR = S.ref()
        sig = {k: {tm[t]: pd.DataFrame(v.values * c * c, index=cols, columns=cols) for t, v in x.items()} for k, x in S.sigmas().items()}
        mu = S.means()
        mu = None if mu is None else {k: {tm[t]: pd.Series(np.asarray(v) * c, index=cols) for t, v in x.items()} for k, x in mu.items()}
        df2 = pd.DataFrame(np.array(df.values, float) * c, index=ix, columns=cols)
        b = co.from_sigmas(sig, df2, means=mu)
    A, B = list(a.solve(window=w)), list(b.solve(window=w))
    if not mon.check(len(A) == len(B), family + ": number of results", got=len(B), want=len(A)):
        return
    for x, y in zip(A, B):
        if x is None or y is None:
            mon.event("solver_none")
            continue
        mon.check(y.time == tm[x.time], family + ": times correspond")
        wa, wb = np.asarray(x.weights, float), np.asarray(y.weights, float)
        mon.check(list(y.weights.index) == list(x.weights.index), family + ": expert labels")
        comb.same_weights(mon, CR, x.time, w, wa, wb, family + ": weights", tol=1e-4)
        m0, C0 = CR.blend(x.time, wb)
        C0, m0 = C0 * c * c, m0 * c
        mon.close(ref.arr(y.covariance, index=df2.columns, columns=df2.columns, what="covariance"), C0, ref.ctol(C0, 10 * CR.tol(x.time)), family + ": covariance")
        sd = np.sqrt(np.diag(C0))
        mon.close(ref.arr(y.mean, index=df2.columns, what="mean"), m0, 10 * CR.tol(x.time) * sd * max(1.0, np.abs(m0 / sd).max()), family + ": mean")
        A_, P_ = CR.data(x.time, w)
        g = CR.subopt(A_, P_, wb)
        mon.check(g <= CR.allow(A_, P_, wb), family + ": weights stay optimal", gap=g)
        mon.event("blend_pairs")
