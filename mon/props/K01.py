"""Optimality of the blending weights, recomputed from the public inputs."""
import numpy as np

from .. import boot, comb, gen, ref

FAMILIES = {"general": (420, 7000), "means": (160, 2500), "degenerate": (160, 2500), "tiny": (160, 2000), "ewmas": (60, 800), "wide": (20, 300)}
RULE = ("A case draws returns, 1..5 (wide: up to 12) positive definite experts (own EWMAs, Wishart, static, near-equal, identical, dominated, scales over 12 orders of magnitude) with or without means and a window, "
        "consumes the stream and evaluates, for every result, the optimality gap of the weights in the independently assembled problem (exact optimum by an own interior-point Newton method), the simplex constraints, "
        "the labels, and the likelihood against every single expert and random mixtures.")
NEED = {"oracle": 2000, "gaps": 2000, "vertices": 3000}
ASSUMPTIONS = ["suboptimality tolerance 1e-5 per log term plus an error of 3e-7 in every weight against the slope of the objective; largest seen on correct code 8e-6"]


def restated(A, P):
    import cvxpy as cp

    v, Q = np.linalg.eigh((P + P.T) / 2)
    x = cp.Variable(A.shape[1])
    obj = cp.sum(cp.log((A / A.max(axis=1, keepdims=True)) @ x)) - 0.5 * cp.sum_squares((Q * np.sqrt(np.maximum(v, 0))).T @ x)
    p = cp.Problem(cp.Maximize(obj), [cp.sum(x) == 1, x >= 0])
    try:
        getattr(cp.Problem.solve, "_orig", cp.Problem.solve)(p, solver="CLARABEL")
    except cp.SolverError:
        return "error"
    return p.status


def run(mon, family, rng, i, tier):
    co = boot.load("cvx.covariance.combination")
    kw = {}
    if family == "means":
        kw["with_means"] = True
    elif family == "degenerate":
        kw["kind"] = str(rng.choice(["identical", "near", "scales", "dominant"]))
    elif family == "tiny":
        kw.update(T=int(rng.integers(2, 6)), n=int(rng.integers(1, 3)), K=int(rng.integers(1, 7)))
    elif family == "wide":
        kw.update(K=int(rng.integers(6, 13)), n=int(rng.integers(5, 15)), T=int(rng.integers(5, 25)))
    if family == "ewmas":
        n = int(rng.integers(1, 5))
        df, d = gen.frame(rng, tier, T=int(rng.integers(18, 60)), n=n, kinds=gen.SMOOTH)
        pairs = [(float(rng.uniform(2, 40)), float(rng.uniform(5 + 2 * n, 90))) for _ in range(int(rng.integers(1, 5)))]
        c = co.from_ewmas(df, pairs, min_periods_vola=3, min_periods_cov=2 * n + 1, mean=bool(rng.random() < 0.4), clip_at=None)
        CR = ref.CombRef(c.sigmas, df, c.means)
        mon.describe(frame=d, pairs=pairs)
        mon.sign(np.array(df.values), repr(pairs))
        CR.gaptol = 1e-5
    else:
        S = comb.Setup(rng, tier, **kw)
        c, CR = S.build(co), S.ref()
        mon.describe(**S.desc)
        S.sign(mon)
    w = comb.window(rng, CR.N)
    mon.describe(window=w)
    out = list(c.solve(window=w) if w is not None else c.solve())
    times = CR.result_times(w)
    if not mon.check(len(out) == len(times), "number of results", got=len(out), want=len(times)):
        return
    for t, r, rec in zip(times, out, boot.LOG.calls + [None] * len(out)):
        if r is None:
            failed = any(q["exc"] or q["status"] not in ("optimal", "optimal_inaccurate") for q in boot.LOG.calls)
            mon.check(failed, "no result although the solver converged", time=t)
            if failed:  # the simplex is never empty: the same problem, stated independently, has to be out of reach too
                st = restated(*CR.data(t, w))
                mon.check(st != "optimal", "no result although the problem, stated as in the paper, is solved", time=t)
            mon.event("solver_none")
            continue
        wt = ref.check_result(mon, CR, r, t, w)
        if wt is None:
            continue
        A, P = CR.data(t, w)
        al = CR.allow(A, P, wt)
        f = CR.objective(A, P, np.maximum(wt, 1e-300))
        for q in list(np.eye(CR.K)) + [np.full(CR.K, 1 / CR.K), rng.dirichlet(np.ones(CR.K))]:
            mon.check(f >= CR.objective(A, P, q) - al * A.shape[0], "at least as likely as any fixed mixture", f=f, other=CR.objective(A, P, q), mixture=q)
            mon.event("vertices")
