"""Feasibility and certified optimality of every day's portfolio, for every portfolio type."""
import numpy as np
import pandas as pd

from .. import boot, gen, pool, port, ref

PRELOAD = ["experiments.utils.trading_model"]
FAMILIES = {t: (c, 10 * c) for t, c in dict(eq_weighted=10, min_risk=60, vol_cont=40, robust_min_risk=60, mean_variance=70, max_diverse=60, risk_parity=50, max_sharpe=50).items()}
FAMILIES.update(dilute=(40, 400), defaults=(16, 160), extra=(30, 300), large=(16, 100))
RULE = ("A case draws 1..5 days of covariances, volatilities, means and uncertainties and constraints in which every element may be missing or binding, runs the real backtest (with a random worker schedule) and judges every day: full investment, bounds, leverage, "
        "and a certificate of optimality from an independent computation (linear-programming bound, KKT residuals, equal risk contributions, second formulation). 'extra' passes additional cvxpy-free constraints through defaults; 'dilute' adds cash afterwards.")
NEED = {"oracle": 2000, "portfolios": 1000, "gaps": 800, "binding": 150, "diluted": 60, "uncertain": 40, "type max_sharpe": 60, "type robust_min_risk": 80, "type vol_cont": 60, "other units": 25}
ASSUMPTIONS = ["ECOS is replaced by CLARABEL", "multiprocessing.Pool is replaced by a pickling in-process pool with a random schedule"]


def run(mon, family, rng, i, tier):
    tm = boot.load("experiments.utils.trading_model")
    ptype = family if family in port.TYPES else str(rng.choice(["min_risk", "robust_min_risk", "max_diverse", "risk_parity", "eq_weighted"]))
    if family == "extra":
        ptype = str(rng.choice(["min_risk", "mean_variance"]))
    n = int(rng.integers(7, 10)) if family == "defaults" else None
    days = None
    if family == "large":  # dozens of assets, or months of days
        ptype = port.TYPES[i % len(port.TYPES)]
        n, days = (int(rng.integers(20, 36)), 2) if i // len(port.TYPES) % 2 else (int(rng.integers(2, 4)), int(rng.integers(62, 90)))
    b = port.Book(rng, T=days, n=n, daily=10 ** rng.uniform(-2.5, -1))
    if family == "defaults":
        ptype = str(rng.choice(["min_risk", "mean_variance", "vol_cont", "robust_min_risk", "max_diverse"]))
        kw = port.options(rng, ptype, b.n, cons={"short_lim": 1.6, "upper_bound": 0.15, "lower_bound": -0.1})
        given = {k: v for k, v in kw.items() if k != "additonal_cons"}
    else:
        while True:
            kw = port.options(rng, ptype, b.n, book=b)
            if port.feasible(kw, b.n):
                break
        given = dict(kw)
        if rng.random() < 0.15 and ptype in ("min_risk", "mean_variance", "robust_min_risk", "vol_cont"):
            kw["additonal_cons"] = {}
            given["additonal_cons"] = {}
    rho = None
    k = 1
    if ptype in ("vol_cont", "mean_variance") and rng.random() < 0.25:
        # a model of, say, a hundred times the returns: the same target, adjusted
        k = float(rng.choice([10, 100, 100]))
        b.R, b.S, b.v, b.mu, b.rho = b.R * k, b.S * k**2, b.v * k, b.mu * k, b.rho * k
        given["adjust_factor"] = k
        mon.event("other units")
    t = b.trader(tm)
    if ptype == "mean_variance" and rng.random() < 0.6:
        if rng.random() < 0.3:
            # no uncertainty on the first day, as construct_rho has it, or about some asset
            b.rho[0 if rng.random() < 0.7 else slice(None), slice(None) if rng.random() < 0.7 else int(rng.integers(b.n))] = 0
            mon.event("certain days", int((b.rho == 0).any()))
        rho = b.rho
        f = b.frame(b.rho)
        if rng.random() < 0.4:  # uncertainties for more days than traded
            more = pd.DataFrame(b.rho[:1] * 7, index=[("x", 1)] if not isinstance(b.index, pd.MultiIndex) else [0], columns=b.assets)
            f = pd.concat([f.astype(object).astype(float), more]) if type(b.index) is pd.Index else f
        given["rhos"] = f
        mon.event("uncertain")
    mon.describe(**b.desc(), type=ptype, options={k: v for k, v in kw.items()}, uncertain=rho is not None)
    mon.sign(b.S, b.mu, repr(kw))
    if family == "extra":
        # the same constraint given in the list instead of the dictionary must not be lost: sector limit of nothing
        given["cons"] = []
    port.schedule(rng)
    t.backtest(**given)
    W = np.asarray(t.ws, float)
    if not mon.check(W.ndim == 2 and len(W) == b.T, "one row of weights per day", got=W.shape):
        return
    asked = dict(kw, sigma_des=kw["sigma_des"] * k) if k != 1 else kw
    for d in range(b.T):
        port.judge(mon, ptype, asked, b.S[d], b.v[d], W[d], mu=b.mu[d], rho=None if rho is None else rho[d], t=d)
    if family == "dilute":
        for s in [float(rng.choice([0.05, 0.1, 0.2, 0.4])) for _ in range(int(rng.integers(1, 3)))]:
            if rng.random() < 0.5:
                t.get_metrics(diluted_with_cash=True, sigma_des=s)
            else:
                t.diluted = False
                t.dilute_with_cash(sigma_des=s)
            D = np.asarray(t.ws_diluted, float)
            for d in range(b.T):
                if not mon.check(D.shape == (b.T, b.n + 1), "diluted weights have one more entry", got=D.shape):
                    return
                th = s / np.sqrt(252) / port.risk(b.S[d], W[d])
                mon.close(D[d, :-1], th * W[d], 1e-9 * th, "cash dilution scales the risky part", t=d, target=s)
                mon.close(D[d, -1], 1 - th, 1e-9 * (1 + th), "the rest is in cash", t=d, target=s)
                mon.close(port.risk(b.S[d], D[d, :-1]), s / np.sqrt(252), 1e-8 * s, "predicted risk is the target", t=d)
                mon.event("diluted")
