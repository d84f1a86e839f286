"""Convex-concave factor fitting: objective trace, exact representation of the start, validity of the models built."""
import contextlib
import io

import numpy as np

from .. import boot, gen

PRELOAD = ["experiments.utils.ccp_regularize"]
FAMILIES = {"trace": (60, 700), "start": (160, 2500), "fixed": (16, 150)}
RULE = ("A case draws a target covariance and an initial factor model, records the objective before the first and after every iteration (1..5) together with the model built at that point, and checks the trace: objective equals "
        "log det(model) + trace(model^-1 target), never increases, d > 0, rank kept, each iteration satisfies the optimality conditions of the problem linearised at the previous model, building right away reproduces the initial covariance.")
NEED = {"oracle": 500, "iterations": 100, "improving": 20, "starts": 200, "stationary": 100}
ASSUMPTIONS = ["the convex subproblem is solved by CLARABEL instead of the commercial MOSEK the code asks for"]


def fit(S, C):
    return np.linalg.slogdet(C)[1] + np.trace(np.linalg.solve(C, S))


def drafts(mon, S, F, d, C0, v, n, cond):
    """the gradient variant of the fit is a draft: its start, its objective and its gradients are complete, its iteration is not"""
    name = PRELOAD[0]
    st2 = boot.optional(name, "_State2")
    if st2 is not None and all(hasattr(st2, a) for a in ("build", "objective")):
        y = st2(S.copy(), F.copy(), d.copy())
        F1, d1 = (np.asarray(a, float) for a in y.build())
        C = F1 @ F1.T + np.diag(d1)
        mon.close(C, C0, 1e-11 * cond * np.outer(v, v) * n, "gradient variant: building right away gives the initial covariance back")
        with contextlib.redirect_stdout(io.StringIO()):
            o = float(y.objective())
        f = fit(S, C)
        mon.close(o, f, 1e-10 * cond * (abs(f) + n), "gradient variant: objective is the Gaussian fit of the model it builds")
        mon.event("drafts")
    common, gG, ge = (boot.optional(name, a) for a in ("_common_factor", "_grad_G", "_grad_e"))
    if common is not None and gG is not None and ge is not None:
        # e and G of the precision diag(e) - G G'
        e = 1 / d
        L = np.linalg.cholesky(np.linalg.inv(np.eye(F.shape[1]) + F.T @ (F / d[:, None])))
        G = (F / d[:, None]) @ L
        c = common(e.copy(), G.copy())
        # the derivatives of -log det(diag(e) - G G') are 2 C G and -diag(C), for the covariance C
        mon.close(np.asarray(gG(c), float), 2 * C0 @ G, 1e-9 * cond * 2 * np.abs(C0) @ np.abs(G) + 1e-9 * np.abs(C0 @ G).max(), "gradient in the factors")
        mon.close(np.asarray(ge(e.copy(), G.copy(), c), float), -np.diag(C0), 1e-9 * cond * np.diag(C0), "gradient in the diagonal")
        mon.event("gradients")


def run(mon, family, rng, i, tier):
    st = boot.load("experiments.utils.ccp_regularize")._State
    n = int(rng.integers(2, 7 if family == "trace" else 14))
    r = int(rng.integers(1, n))
    sc = 10 ** rng.uniform(-0.5, 0.5) if family != "start" else 10 ** rng.uniform(-4, 2)
    S = gen.spd(rng, n, cond=100)
    s = np.sqrt(np.diag(S))
    S = S / np.outer(s, s) * np.outer(*[rng.uniform(0.5, 2, n)] * 2) * sc
    sd = np.sqrt(np.diag(S))
    if family == "trace" and rng.random() < 0.5:
        w, Q = np.linalg.eigh(S)
        F = Q[:, n - r :] * np.sqrt(w[n - r :])
        d = np.maximum(np.diag(S - F @ F.T), 0.02 * np.diag(S))
    else:
        F = rng.normal(size=(n, r)) * sd[:, None] * rng.uniform(0.2, 1)
        d = rng.uniform(0.2, 1.5, n) * sd**2
    if family == "fixed":
        S = F @ F.T + np.diag(d)
    mon.describe(n=n, rank=r)
    mon.sign(S, F, d)
    C0 = F @ F.T + np.diag(d)
    v = np.sqrt(np.diag(C0))
    x_d = []
    x = st(S.copy(), F.copy(), d.copy())

    def model(tol):
        F1, d1 = x.build()
        F1, d1 = np.asarray(F1, float), np.asarray(d1, float)
        if not mon.check(F1.shape == (n, r) and d1.shape == (n,), "model has the given rank", got=(F1.shape, d1.shape)):
            return None
        mon.check((d1 > 0).all() and np.isfinite(F1).all(), "diagonal is positive", d=d1)
        C = F1 @ F1.T + np.diag(d1)
        x_d.append(d1)
        f = fit(S, C)
        o = float(x.objective())
        mon.close(o, f, tol * (abs(f) + n), "objective is the Gaussian fit of the model it builds")
        return C, o

    cond = np.linalg.cond(C0 / np.outer(v, v))
    m = model(1e-10 * cond)
    if m is None:
        return
    mon.event("starts")
    mon.close(m[0], C0, 1e-11 * cond * np.outer(v, v) * n, "building right away gives the initial covariance back")
    if family == "start":
        drafts(mon, S, F, d, C0, v, n, cond)
        return
    prev, first = m[1], m[1]
    C = m[0]
    x.construct_problem()
    for k in range(int(rng.integers(1, 4 if tier == "quick" else 7))):
        x.iterate()
        old = C
        m = model(1e-6)
        if m is None:
            return
        C = m[0]
        # the update minimises log det C + trace(C^-1 S) with the concave part of the second term linearised at the previous
        # model P^-1 = D^-1 - G G': its stationarity, in terms of the models alone, is diag(C) = diag(S) and C G_new = S G_old;
        # hence C (D_new^-1 - C^-1) C = S (D_old^-1 - P^-1) S
        W = C @ (np.diag(1 / x_d[-1]) - np.linalg.inv(C)) @ C
        V = S @ (np.diag(1 / x_d[-2]) - np.linalg.inv(old)) @ S
        mon.close(np.diag(C), np.diag(S), 6e-3 * np.diag(S), "each iteration matches the target's variances", iteration=k)
        mon.close(W, V, 2e-2 * np.sqrt(np.outer(np.diag(V), np.diag(V)).clip(0)) + 3e-3 * np.outer(sd, sd), "each iteration solves the problem linearised at the previous model", iteration=k)
        mon.event("stationary")
        mon.event("iterations")
        mon.check(m[1] <= prev + 2e-5 * (1 + abs(prev)), "objective does not increase", before=prev, after=m[1], iteration=k)
        mon.peak("increase", m[1] - prev)
        prev = m[1]
    mon.event("improving", int(prev < first - 1e-3))
    if family == "fixed":
        mon.check(abs(prev - first) <= 1e-4 * (1 + abs(first)), "an exact fit stays", before=first, after=prev)
