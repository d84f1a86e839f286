"""Set-ups and oracles shared by the portfolio monitors (E06, E07, E08)."""
import numpy as np
import pandas as pd
from scipy.optimize import linprog

from . import boot, gen, pool, ref

TYPES = ["eq_weighted", "min_risk", "vol_cont", "robust_min_risk", "mean_variance", "max_diverse", "risk_parity", "max_sharpe"]


class Book:
    """returns to trade, predicted covariances, predicted means and uncertainties, one per date"""

    def __init__(self, rng, T=None, n=None, daily=0.01, easy=False):
        self.T = T or int(rng.integers(1, 6))
        self.n = n or int(rng.integers(2, 8))
        T, n = self.T, self.n
        self.index, self.ik = gen.index(rng, T)
        self.assets, self.ck = gen.columns(rng, n)
        S = np.stack([gen.spd(rng, n, str(rng.choice(["wishart", "factor", "diag"])), cond=100) for _ in range(T)])
        v = np.sqrt(np.einsum("tii->ti", S))
        S = S / (v[:, :, None] * v[:, None, :])
        # keep the correlations moderate so that optima are well determined
        S = 0.85 * S + 0.15 * np.eye(n)
        v = daily * rng.uniform(0.4, 2.0, (T, n))
        self.S = S * v[:, :, None] * v[:, None, :]
        self.v = v
        self.R = rng.normal(size=(T, n)) * v * rng.choice([1, 1, 3])
        self.mu = rng.normal(size=(T, n)) * v * 0.1
        if rng.random() < 0.5:
            self.mu = np.abs(self.mu)
        j = rng.integers(0, n, T)
        self.mu[np.arange(T), j] = np.abs(self.mu[np.arange(T), j]) + 0.02 * v[np.arange(T), j]  # one positive mean a day
        self.rho = np.abs(rng.normal(size=(T, n))) * v * 0.03

    def frame(self, X):
        return pd.DataFrame(X.copy(), index=self.index, columns=self.assets)

    def cov(self, ts=None):
        return {self.index[t]: pd.DataFrame(self.S[t].copy(), index=self.assets, columns=self.assets) for t in (range(self.T) if ts is None else ts)}

    def trader(self, tm, ts=None):
        ts = list(range(self.T)) if ts is None else list(ts)
        return tm.Trader(self.frame(self.R).iloc[ts], self.cov(ts), r_hats=self.frame(self.mu).iloc[ts])

    def desc(self):
        return dict(T=self.T, n=self.n, index=self.ik, columns=self.ck)


def constraints(rng, n):
    """feasible leverage and bounds; any of them may be left out"""
    out = {}
    if rng.random() < 0.75:
        out["upper_bound"] = float(max(rng.uniform(1.05, 3) / n, rng.choice([0.15, 0.3, 0.6, 1.0])))
    if rng.random() < 0.75:
        out["lower_bound"] = float(rng.choice([0.0, -0.05, -0.1, -0.3, -1.0, 0.4 / n]))
    if rng.random() < 0.75:
        out["short_lim"] = float(rng.choice([1.0, 1.2, 1.6, 2.0, 3.0]))
    return {k: out[k] for k in rng.permutation(sorted(out))}


def options(rng, ptype, n, cons=None, book=None):
    """keyword arguments of backtest (feasible minimum holdings need to know the book)"""
    kw = dict(portfolio_type=ptype)
    c = constraints(rng, n) if cons is None else cons
    if ptype in ("max_diverse", "max_sharpe"):
        c = dict(c)
        c.setdefault("upper_bound", float(max(rng.uniform(1.1, 3) / n, rng.choice([0.15, 0.4, 1.0]))))
    if ptype == "mean_variance" and c.get("lower_bound", 0) > 0:
        c = dict(c, lower_bound=0.0)
    kw["additonal_cons"] = c
    kw_sigma = float(rng.choice([0.05, 0.1, 0.15, 0.3]))
    if ptype == "mean_variance" and book is not None and cons is None and rng.random() < 0.35:
        # minimum holdings; the portfolio of just these is well within the risk target
        top = max(risk(S, np.ones(n)) for S in book.S)
        low = float(rng.uniform(0.1, 0.7) * min(kw_sigma / np.sqrt(252) / top, 0.9 / n))
        kw["additonal_cons"] = dict(c, lower_bound=low)
    if ptype in ("vol_cont", "mean_variance"):
        kw["sigma_des"] = kw_sigma
    if ptype == "robust_min_risk":
        kw["kappa"] = float(rng.choice([0.1, 1.0, 10.0, 50.0]))
    return kw


# ---------------------------------------------------------------- oracles
def violations(w, c):
    """by how much risky weights w violate the constraints c"""
    out = [0.0]
    if "upper_bound" in c:
        out.append((w - c["upper_bound"]).max())
    if "lower_bound" in c:
        out.append((c["lower_bound"] - w).max())
    if "short_lim" in c:
        out.append(np.abs(w).sum() - c["short_lim"])
    return max(out)


def _polytope(n, c):
    """variables p, m >= 0 with w = p - m"""
    A, b = [], []
    I = np.eye(n)
    if "upper_bound" in c:
        A.append(np.hstack([I, -I])), b.append(np.full(n, c["upper_bound"]))
    if "lower_bound" in c:
        A.append(np.hstack([-I, I])), b.append(np.full(n, -c["lower_bound"]))
    if "short_lim" in c:
        A.append(np.ones((1, 2 * n))), b.append([c["short_lim"]])
    return (np.vstack(A), np.concatenate(b)) if A else (None, None)


def lowest(g, h, c):
    """min g'w + h'|w| over the constraints and sum w = 1 (None: unbounded or infeasible)"""
    n = len(g)
    A, b = _polytope(n, c)
    r = linprog(np.concatenate([g + h, h - g]), A_ub=A, b_ub=b, A_eq=np.concatenate([np.ones(n), -np.ones(n)])[None], b_eq=[1.0], bounds=[(0, 10)] * (2 * n), method="highs")
    return r.fun if r.status == 0 else None


def risk(S, w):
    return float(np.sqrt(max(w @ S @ w, 0)))


def _solve(prob):
    fault, boot.LOG.fault = boot.LOG.fault, None
    try:
        prob.solve(solver="CLARABEL", tol_gap_abs=1e-12, tol_gap_rel=1e-12, tol_feas=1e-12)
    except Exception:
        return False
    finally:
        boot.LOG.fault = fault
    return prob.status in ("optimal", "optimal_inaccurate")


def min_risk_gap(S, w, c, kappa=None, v=None):
    """certified relative suboptimality of w: value against a lower bound on the optimum, which comes from the
    linearisation at w or, if that is not sharp enough, at a point found by another solver"""
    g = _min_risk_bound(S, w, c, kappa, v)
    if g is None or g[0] <= 1e-5:
        return None if g is None else g[0]
    import cvxpy as cp

    n = len(w)
    s = np.sqrt(np.diag(S).mean())
    L = np.linalg.cholesky(S / s**2)
    p, q = cp.Variable(n, nonneg=True), cp.Variable(n, nonneg=True)
    x = p - q
    cons = [cp.sum(x) == 1]
    if "upper_bound" in c:
        cons.append(x <= c["upper_bound"])
    if "lower_bound" in c:
        cons.append(x >= c["lower_bound"])
    if "short_lim" in c:
        cons.append(cp.sum(p + q) <= c["short_lim"])
    obj = cp.norm(L.T @ x)
    if kappa is not None:
        obj = obj + kappa * s * cp.square((v / s) @ (p + q))
    if not _solve(cp.Problem(cp.Minimize(obj), cons)) or x.value is None:
        return g[0]
    y = np.asarray(x.value, float)
    h = _min_risk_bound(S, y, c, kappa, v)
    if h is None:
        return g[0]
    # near a kink the bound is loose: then judged against the value the other solver reached
    return min((g[1] - max(g[2], h[2])) / g[1], max((g[1] - h[1]) / g[1], 0.0) if violations(y, c) <= 1e-6 and abs(y.sum() - 1) < 1e-6 else np.inf)


def _min_risk_bound(S, w, c, kappa=None, v=None):
    """(relative gap, value, lower bound) by linearisation at w"""
    r = risk(S, w)
    g = S @ w / r
    if kappa is None:
        h, val = np.zeros(len(w)), r
        lb = lowest(g, h, c)
        return None if lb is None else ((r - lb) / r, r, lb)
    q = v @ np.abs(w)
    val = r + kappa * q * q
    # kappa s^2 >= 2 kappa q s - kappa q^2
    lb = lowest(g, 2 * kappa * q * v, c)
    return None if lb is None else ((val - (lb - kappa * q * q)) / val, val, lb - kappa * q * q)


def max_diverse_gap(S, v, w, u):
    """z = w / (v'w) minimises z'Sz over v'z = 1, z >= 0, z <= u sum z; certified as in min_risk_gap"""
    import cvxpy as cp

    n = len(w)
    g = _max_diverse_bound(S, v, w / (v @ w), u)
    if g is None or g[0] <= 1e-5:
        return None if g is None else g[0]
    y = cp.Variable(n, nonneg=True)  # y = v z
    L = np.linalg.cholesky(S / np.outer(v, v))
    iv = v.mean() / v
    if not _solve(cp.Problem(cp.Minimize(cp.norm(L.T @ y)), [cp.sum(y) == 1, cp.multiply(iv, y) <= u * (iv @ y)])) or y.value is None:
        return g[0]
    h = _max_diverse_bound(S, v, np.asarray(y.value, float) / v, u)
    return g[0] if h is None else (g[1] - max(g[2], h[2])) / g[1]


def _max_diverse_bound(S, v, z, u):
    n = len(z)
    r = risk(S, z)
    g = S @ z / r
    A = np.eye(n) - u * np.ones((n, n))
    # scaled: y = v z
    l = linprog(g / v, A_ub=A / v[None, :], b_ub=np.zeros(n), A_eq=np.ones((1, n)), b_eq=[1.0], bounds=[(0, None)] * n, method="highs")
    return ((r - l.fun) / r, r, l.fun) if l.status == 0 else None


def max_sharpe_gap(S, m, w):
    """KKT residuals of the long-only maximal Sharpe ratio, relative"""
    z = w / (m @ w)
    g = S @ z
    lam = z @ g
    s = np.sqrt(np.diag(S) * lam)
    return float(((lam * m - g) / s).max())


def mean_variance_optimum(S, m, rho, target, c):
    """optimal (worst-case) return by an independent formulation"""
    import cvxpy as cp

    n = len(m)
    v = np.sqrt(np.diag(S))
    L = np.linalg.cholesky(S / np.outer(v, v))
    k = float(np.abs(m).max())
    p, q = cp.Variable(n, nonneg=True), cp.Variable(n, nonneg=True)
    w = p - q
    cons = [cp.SOC(target / v.max(), L.T @ cp.multiply(v / v.max(), w))]
    if "upper_bound" in c:
        cons.append(w <= c["upper_bound"])
    if "lower_bound" in c:
        cons.append(w >= c["lower_bound"])
    if "short_lim" in c:
        cons.append(cp.sum(p + q) <= c["short_lim"])
    pr = cp.Problem(cp.Maximize((m / k) @ w - ((np.zeros(n) if rho is None else rho) / k) @ (p + q)), cons)
    fault, boot.LOG.fault = boot.LOG.fault, None
    try:
        pr.solve(solver="CLARABEL")
    finally:
        boot.LOG.fault = fault
    return pr.value * k if pr.status in ("optimal", "optimal_inaccurate") else None


FEAS = 2e-5


def judge(mon, ptype, kw, S, v, w, mu=None, rho=None, tag="", t=None):
    """one day's weights against the constraints and the objective of its type"""
    n = len(v)
    c = kw.get("additonal_cons", {})
    if c is None:
        c = {}
    mon.event("portfolios")
    mon.event("type " + ptype)
    cash = ptype in ("vol_cont", "mean_variance")
    if not mon.check(w.shape == (n + cash,) and np.isfinite(w).all(), tag + "one weight per asset" + (" and cash" if cash else ""), got=w.shape, want=n + cash, type=ptype):
        return
    mon.check(abs(w.sum() - 1) <= FEAS, tag + "fully invested", sum=w.sum(), type=ptype, t=t)
    x = w[:n]
    if ptype == "eq_weighted":
        mon.close(w, np.full(n, 1 / n), 1e-12, tag + "equal weights", t=t)
        return
    if ptype == "vol_cont":
        target = kw["sigma_des"] / np.sqrt(252)
        mon.close(risk(S, x), target, 1e-5 * target, tag + "predicted risk is the target", t=t)
        x = x / x.sum()
    if ptype in ("min_risk", "vol_cont", "robust_min_risk"):
        viol = violations(x, c)
        mon.peak("constraint violation", viol)
        if not mon.check(viol <= FEAS, tag + "within leverage and bounds", by=viol, type=ptype, cons=c, t=t):
            return
        mon.describe(riskval=risk(S, x))
        g = min_risk_gap(S, x, c, kw.get("kappa") if ptype == "robust_min_risk" else None, v)
        if g is None:
            mon.event("no_bound")
            return
        mon.peak("optimality gap " + ptype, g)
        mon.check(g <= 1e-4 + 3e-8 / risk(S, x), tag + "optimal for its objective", gap=g, type=ptype, cons=c, t=t, w=x)
        mon.event("gaps")
        if violations(x, {k: a for k, a in c.items()}) > -1e-4 and c:
            tight = ("upper_bound" in c and x.max() > c["upper_bound"] - 1e-4) or ("lower_bound" in c and x.min() < c["lower_bound"] + 1e-4) or ("short_lim" in c and np.abs(x).sum() > c["short_lim"] - 1e-4)
            mon.event("binding", int(tight))
    elif ptype == "mean_variance":
        target = kw["sigma_des"] / np.sqrt(252)
        viol = violations(x, c)
        mon.check(viol <= FEAS, tag + "within leverage and bounds", by=viol, type=ptype, cons=c, t=t)
        mon.check(risk(S, x) <= target * (1 + 1e-4), tag + "within the risk target", risk=risk(S, x), target=target, t=t)
        val = mu @ x - (0 if rho is None else rho @ np.abs(x))
        best = mean_variance_optimum(S, mu, rho, target, c)
        if best is None:
            mon.event("no_bound")
            return
        size = max(abs(best), np.abs(mu).max() * min(1.0, target / v.max()))
        mon.peak("optimality gap mean_variance", (best - val) / size)
        mon.check(val >= best - 5e-4 * size, tag + "optimal for its objective", got=val, best=best, type=ptype, cons=c, t=t, uncertain=rho is not None)
        mon.event("gaps")
    elif ptype == "risk_parity":
        if not mon.check((x > 0).all(), tag + "positive weights", w=x, type=ptype, t=t):
            return
        rc = x * (S @ x)
        rc = rc / rc.sum()
        mon.peak("risk contribution error", np.abs(rc * n - 1).max())
        mon.close(rc * n, np.ones(n), 5e-3, tag + "equal risk contributions", t=t)
        mon.event("gaps")
    elif ptype == "max_diverse":
        u = c["upper_bound"]
        mon.check(x.min() >= -FEAS and x.max() <= u + FEAS, tag + "long-only within the upper bound", min=x.min(), max=x.max(), bound=u, t=t)
        g = max_diverse_gap(S, v, x, u)
        if g is None:
            mon.event("no_bound")
            return
        mon.peak("optimality gap max_diverse", g)
        mon.check(g <= 1e-4, tag + "maximal diversification ratio", gap=g, t=t)
        mon.event("gaps")
        mon.event("binding", int(x.max() > u - 1e-4))
    elif ptype == "max_sharpe":
        mon.check(x.min() >= -FEAS, tag + "long-only", min=x.min(), t=t)
        if mu @ x <= 0:
            mon.fail(tag + "positive predicted return", ret=mu @ x)
            return
        g = max_sharpe_gap(S, mu, x)
        mon.peak("optimality gap max_sharpe", g)
        mon.check(g <= 2e-3, tag + "maximal Sharpe ratio among long-only portfolios", gap=g, t=t)
        mon.event("gaps")


def schedule(rng):
    pool.SCHEDULE.reset(rng=rng, chunk=None if rng.random() < 0.3 else int(rng.integers(1, 6)), order=str(rng.choice(["fifo", "lifo", "random"])))


def feasible(kw, n):
    c = kw.get("additonal_cons") or {}
    u, l, s = c.get("upper_bound", 10), c.get("lower_bound", -10), c.get("short_lim", 100)
    return u * n > 1.02 and l * n < 0.98 and s >= 1.0
