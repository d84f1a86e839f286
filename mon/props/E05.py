"""Return predictors and their combination: own formulas, optimality certificates, and causality by perturbation."""
import numpy as np
import pandas as pd

from .. import boot, gen, ref

PRELOAD = ["experiments.utils.return_combination"]
FAMILIES = {"predictors": (160, 2500), "ridge": (120, 1800), "lasso": (50, 500), "ridge_causal": (80, 1000), "lasso_causal": (24, 240), "split": (80, 1000)}
RULE = ("A case draws returns, predictors (lags, EWMAs, arbitrary frames), memory and penalty. 'predictors' and 'ridge' compare every value with own formulas (explicit weighted sums, normal equations); 'lasso' certifies the weights at every time by a duality gap; "
        "the 'causal' families change the return at a time and all later ones (through the predictors as well) and require every prediction for that time and earlier to stay, and some later one to move.")
NEED = {"oracle": 1500, "predictor_values": 3000, "ridge_times": 800, "lasso_times": 200, "causal_pairs": 80, "reacted": 80, "shrunk_to_zero": 20, "tuned": 30}


def lasso_gap(P, r, w, alpha):
    res = r - P @ w
    primal = res @ res + alpha * np.abs(w).sum()
    th = 2 * res
    m = np.abs(P.T @ th).max()
    th = th * (min(1.0, alpha / m) if m > 0 else 1.0)
    return primal - (th @ r - th @ th / 4), primal


def own_ridge(Ps, rs, scale, alpha):
    b = ref.weights(len(rs), 500) * len(rs)
    A = (Ps.T * b) @ Ps + alpha * np.diag(scale)
    return np.linalg.solve(A, (Ps.T * b) @ rs), np.linalg.cond(A / np.sqrt(np.outer(np.diag(A), np.diag(A))))


def frames(rng, T, K, like=None):
    kind = str(rng.choice(["noise", "ar", "mixed"]))
    Z = rng.normal(size=(T, K))
    if kind == "ar":
        Z = ref.ewma(Z, 4) * 2
    if kind == "mixed":
        Z = Z @ (np.eye(K) + 0.5 * rng.normal(size=(K, K)))
    return Z + (1e-3 * rng.normal(size=(T, K)))


def run(mon, family, rng, i, tier):
    rc = boot.load("experiments.utils.return_combination")
    sc = 10 ** (rng.uniform(-6, 3) if family.startswith("ridge") and rng.random() < 0.4 else rng.uniform(-2, 0.5))
    if family == "predictors":
        df, d = gen.frame(rng, tier, T=int(rng.integers(3, 70)), n=1)
        s = pd.Series(np.asarray(df.values[:, 0], float), index=df.index)
        x = s.values
        T = len(x)
        lags = [int(k) for k in rng.choice(np.arange(1, max(2, min(T - 1, 12))), size=min(3, max(1, T - 3)), replace=False)] if T > 3 else [1]
        hs = list(dict.fromkeys(gen.halflife(rng) for _ in range(3)))
        mon.describe(frame=d, lags=lags, halflives=hs)
        mon.sign(x, repr(lags), repr(hs))
        A = rc.daily_predictors(s, list(lags))
        want = np.full((T, len(lags)), np.nan)
        for j, k in enumerate(lags):
            want[k:, j] = x[:-k] if k < T else want[k:, j]
        mon.close(ref.arr(A, index=df.index, columns=lags, what="lagged predictors"), want, 0, "predictor is the return that many days earlier", lags=lags)
        B = rc.ewma_predictors(s, list(hs))
        want = np.stack([ref.ewma(x, h)[:-1] for h in hs], axis=1)
        size = np.maximum.accumulate(np.abs(x))[:-1, None]
        mon.close(ref.arr(B, index=df.index[1:], columns=hs, what="EWMA predictors"), want, 1e-11 * size + 1e-300, "predictor is the EWMA up to the day before", halflives=hs)
        mon.event("predictor_values", want.size)
        # causal
        t = int(rng.integers(1, T))
        y = x.copy()
        y[t:] = rng.normal(size=T - t) * (np.abs(x).max() + 1)
        s2 = pd.Series(y, index=df.index)
        a2, b2 = rc.daily_predictors(s2, list(lags)), rc.ewma_predictors(s2, list(hs))
        mon.close(a2.values[: t + 1], A.values[: t + 1], 0, "lagged predictors do not use the present or the future", t=t)
        mon.close(b2.values[:t], B.values[:t], 1e-11 * size[:t] + 1e-300, "EWMA predictors do not use the present or the future", t=t)
        mon.event("causal_pairs")
        return
    if family == "split":
        df, d = gen.frame(rng, tier, T=int(rng.integers(1, 40)), n=int(rng.integers(1, 6)))
        X = np.array(df.values, float)
        mon.describe(frame=d)
        mon.sign(X)
        out = rc.feature_engineer(df)
        n = X.shape[1]
        if not mon.check(out.shape == (len(X), 2 * n) and list(out.index) == list(df.index), "positive and negative part of every predictor", got=out.shape):
            return
        V = np.asarray(out.values, float)
        mon.close(V[:, :n], np.maximum(X, 0), 0, "positive parts first")
        mon.close(V[:, n:], np.minimum(X, 0), 0, "negative parts second")
        mon.check(list(out.columns) == list(df.columns) * 2, "labels", got=list(out.columns)[:6])
        return
    K = int(rng.integers(1, 5))
    mem = int(rng.integers(1, 30)) if family.startswith("ridge") else int(rng.integers(2, 25))
    if family == "ridge" and rng.random() < 0.03:
        mem = int(rng.integers(150, 700))
    many = family == "ridge" and i % 30 in (7, 22)
    if many:  # many predictors, or more than the standard memory
        mem, K = (1000, K) if i % 30 == 7 else (mem, int(rng.integers(9, 16)))
    T = mem + int(rng.integers(2, 22 if family.startswith("ridge") else 8))
    ix, ik = gen.index(rng, T + 3)
    X = rng.normal(size=(T + 3, 1 if family.startswith("lasso") else int(rng.integers(9, 14)) if many and K > 4 else int(rng.integers(1, 4))))
    n = X.shape[1]
    co, ck = gen.columns(rng, n)
    X = X * sc
    s = int(rng.integers(0, 4))  # the predictors start later than the returns
    own = rng.random() < 0.5 or family.endswith("causal")
    hs = [2, 7, 15, 40, *range(50, 200, 10)][:K]

    def predictors(X):
        if own:
            out = [rc.ewma_predictors(pd.Series(X[:, j], index=ix), hs).iloc[max(s - 1, 0) :] for j in range(n)]
            return [p.iloc[:T] if len(p) > T else p for p in out]
        return given

    given = [pd.DataFrame(frames(rng, T, K) * sc * 0.5, index=ix[s : s + T], columns=[f"p{k}" for k in range(K)]) for _ in range(n)]
    if family.startswith("lasso") and not own and rng.random() < 0.7:
        X[s : s + T, 0] += given[0].values @ (rng.normal(size=K) * rng.integers(0, 2, K))
    P = predictors(X)
    times = list(P[0].index)
    pos = [list(ix).index(t) for t in times]
    alpha = float(10 ** rng.uniform(-3, 1.5)) * (1.0 if family.startswith("ridge") else sc**2 * mem * rng.choice([0.03, 0.3]))
    mon.describe(T=len(times), K=K, n=n, memory=mem, alpha=alpha, index=ik, own_predictors=own)
    mon.sign(X, *[p.values for p in P], mem, alpha)
    first = times[mem:]

    def labelled(hat, ws, names):
        for j in range(n):
            ref.arr(ws[j], index=first, columns=list(P[j].columns), what="weights")
        if isinstance(hat, pd.DataFrame):
            return ref.arr(hat, index=first, columns=names, what="predictions")
        return ref.arr(hat, index=first, what="predictions")[:, None]

    if family.startswith("ridge"):
        R = pd.DataFrame(X, index=ix, columns=co)
        if pos != list(range(pos[0], pos[0] + len(pos))):
            return
        fit = lambda R, P: rc.ReturnCombinator().fit(R, P, mem, alpha)
        hat, ws = fit(R, P)
        H = labelled(hat, ws, list(co))
        conds = np.zeros((len(first), n))
        for q, t in enumerate(range(mem, len(times))):
            for j in range(n):
                V = np.asarray(P[j].values, float)
                sq = ref.ewma(V**2, 250)[t - 1]
                w, c = own_ridge(V[t - mem : t], X[[pos[u] for u in range(t - mem, t)], j], sq, alpha)
                conds[q, j] = c
                if c > 1e7:
                    mon.event("ill_conditioned")
                    continue
                g = np.asarray(ws[j].values, float)[q]
                size = np.abs(w).max() + 1e-300
                mon.close(g, w, 1e-9 * c * size + 1e-12, "weights solve the weighted ridge problem over the preceding days", t=t, memory=mem, alpha=alpha)
                mon.close(H[q, j], V[t] @ g, 1e-10 * np.abs(V[t]) @ np.abs(g) + 1e-300, "prediction is the inner product of weights and predictors", t=t)
                mon.event("ridge_times")
        tol = lambda q: 1e-8 * (np.abs(H[q]) + np.abs(X).max()) * np.maximum(conds[q], 1)
        if family == "ridge" and (mem == 1000 or rng.random() < 0.4):
            # the scan over penalties reports the fit of every penalty
            al = [alpha] + [float(alpha * 10 ** rng.uniform(-2, 2)) for _ in range(int(rng.integers(0, 3)))]
            al = [al[u] for u in rng.permutation(len(al))]
            a2, cs, es, wl = rc.tune_alpha(R, P, list(al)) if mem == 1000 else rc.tune_alpha(R, P, list(al), memory=mem)
            if mon.check(list(a2) == al and len(cs) == len(es) == len(wl) == len(al), "one entry per penalty, in order", got=[len(cs), len(es), len(wl)], want=len(al)):
                for u, a in enumerate(al):
                    h1, w1 = rc.ReturnCombinator().fit(R, P, mem, a)
                    x, y = ref.arr(h1, index=first, columns=list(co), what="predictions").ravel(), X[[pos[v] for v in range(mem, len(times))]].ravel()
                    for j in range(n):
                        g = np.asarray(w1[j].values, float)
                        mon.close(ref.arr(wl[u][j], index=first, columns=list(P[j].columns), what="weights"), g, 1e-12 * np.abs(g) + 1e-300, "weights of this penalty", alpha=a)
                    e = np.sqrt(((x - y) ** 2).mean())
                    mon.close(float(es[u]), e, 1e-9 * e + 1e-300, "root of the mean squared prediction error", alpha=a)
                    if len(x) > 2 and x.std() > 1e-12 * np.abs(x).max() and y.std() > 0:
                        mon.close(float(cs[u]), ((x - x.mean()) * (y - y.mean())).mean() / (x.std() * y.std()), 1e-6, "correlation of predictions and returns", alpha=a)
                    mon.event("tuned")
    else:
        R = pd.Series(X[:, 0], index=ix)
        old = rng.random() < 0.5
        if old:
            def fit(R, P):
                c = rc.ReturnCombinatorOld()
                c.build(mem, K, alpha)
                h, w = c.fit(R, P[0])
                return h, [w]
        else:
            def fit(R, P):
                h, w = rc.ewma_return_combination(R.loc[P[0].index], P[0], alpha, mem)
                return h, [w]

        hat, ws = fit(R, P)
        H = labelled(hat, ws, None)
        V = np.asarray(P[0].values, float)
        W = np.asarray(ws[0].values, float)
        for q, t in enumerate(range(mem, len(times))):
            r = X[[pos[u] for u in range(t - mem, t)], 0]
            gap, primal = lasso_gap(V[t - mem : t], r, W[q], alpha)
            mon.peak("lasso gap", gap / (r @ r))
            mon.check(gap <= 1e-5 * (r @ r) + 1e-7, "weights minimise the L1-penalised least squares over the preceding days", gap=gap, primal=primal, t=t, memory=mem)
            mon.event("shrunk_to_zero", int((np.abs(W[q]) < 1e-4).any()))
            mon.close(H[q, 0], V[t] @ W[q], 1e-10 * np.abs(V[t]) @ np.abs(W[q]) + 1e-300, "prediction is the inner product of weights and predictors", t=t)
            mon.event("lasso_times")
        tol = lambda q: 2e-3 * sc * np.ones(1)
    if family.endswith("causal"):
        q = int(rng.integers(0, len(first)))
        t = pos[mem + q]
        Y = X.copy()
        Y[t:] = rng.normal(size=Y[t:].shape) * sc * 4
        R2 = pd.DataFrame(Y, index=ix, columns=co) if family.startswith("ridge") else pd.Series(Y[:, 0], index=ix)
        h2, w2 = fit(R2, predictors(Y))
        H2 = labelled(h2, w2, list(co))
        for u in range(q + 1):
            if family.startswith("ridge") and conds[u].max() > 1e6:
                continue
            mon.close(H2[u], H[u], tol(u), "a change of the return at t or later does not change the prediction for t", t=t, u=u)
        mon.event("causal_pairs")
        mon.event("reacted", int(q + 1 == len(H) or not np.allclose(H2[q + 1 :], H[q + 1 :], rtol=1e-6)))
