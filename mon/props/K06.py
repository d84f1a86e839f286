"""Fault injection into the solves of a result stream."""
import itertools

import numpy as np

from .. import boot, comb, gen, ref

LEVEL = "fault_enumeration"
FAMILIES = {"subsets": (72, 900), "random": (240, 3000), "options": (60, 700), "all": (40, 500), "two": (40, 500)}
RULE = ("A case draws a set-up and runs its result stream while chosen solves fail: raised by the solver, stopped at an iteration limit (real, inside the solver), or reported as infeasible, unbounded, "
        "infeasible_or_unbounded or user_limit. 'subsets' enumerates all subsets of failing positions of a short stream for one failure kind; 'all' fails every position or passes max_iter=1 through solve; "
        "'two' interleaves a failing and a healthy stream of the same object; 'options' checks that solver options reach every solve. The log of the wrapped solver decides which positions must be None.")
NEED = {"oracle": 3000, "faults": 1200, "subsets": 400, "none_positions": 1200, "first_failed": 100, "last_failed": 100, "consecutive": 100, "options_seen": 200}
KINDS = ["raise", "raise", "limit", "infeasible", "unbounded", "infeasible_or_unbounded", "user_limit"]
OK = ("optimal", "optimal_inaccurate")


def failed(calls):
    """did the last solve behind this result end without a solution?"""
    return not calls or calls[-1]["exc"] is not None or calls[-1]["status"] not in OK


def drive(mon, it, plan, kind):
    """pull the stream, failing the positions in plan; -> [(result, failed)]"""
    out = []
    k = 0
    while True:
        n0 = len(boot.LOG.calls)
        boot.LOG.fault = kind if k in plan else None
        try:
            r = next(it, "end")
        finally:
            boot.LOG.fault = None
        if isinstance(r, str) and r == "end":
            break
        calls = boot.LOG.calls[n0:]
        bad = failed(calls)
        if k in plan:
            mon.event("faults")
            mon.event("fault " + kind)
        out.append((r, bad))
        k += 1
        if k > 10000:
            break
    return out


def judge(mon, CR, w, times, healthy, out, plan, kind, tag=""):
    if not mon.check(len(out) == len(times), tag + "a failed solve drops or repeats a time", got=len(out), want=len(times), failing=sorted(plan)[:10], kind=kind):
        return
    for k, (t, (r, bad)) in enumerate(zip(times, out)):
        if bad:
            mon.event("none_positions")
            mon.check(r is None, tag + "the time of a failed solve yields None", time=t, position=k, kind=kind, got=None if r is None else dict(weights=np.asarray(r.weights, float)))
            continue
        if not mon.check(r is not None, tag + "None although the solve succeeded", time=t, position=k, failing=sorted(plan)[:10], kind=kind):
            continue
        mon.check(r.time == t, tag + "time of the result", got=r.time, want=t)
        h = healthy.get(t)
        if h is None:
            mon.event("solver_none")
            continue
        s = comb.snapshot(r)
        if all(np.array_equal(a, b) for a, b in zip(s[1:], h[1:])):
            mon.event("bitwise")
            mon.event("oracle")
        else:
            comb.same_weights(mon, CR, t, w, h[3], s[3], tag + "same result as without failures elsewhere")
            ref.check_result(mon, CR, r, t, w, tag)
    ks = sorted(plan)
    mon.event("first_failed", int(0 in plan))
    mon.event("last_failed", int(len(times) - 1 in plan))
    mon.event("consecutive", int(any(b - a == 1 for a, b in zip(ks, ks[1:]))))


def run(mon, family, rng, i, tier):
    co = boot.load("cvx.covariance.combination")
    T = int(rng.integers(3, 8)) if family == "subsets" else int(rng.integers(3, 20))
    S = comb.Setup(rng, tier, T=T, n=int(rng.integers(1, 4)), K=int(rng.integers(2, 5)), kind=str(rng.choice(["ewma", "wishart", "noisy", "static"])))
    if family == "random" and rng.random() < 0.2:
        S.ragged(rng)
    CR = S.ref()
    if CR.N < 1:
        return
    w = comb.window(rng, CR.N)
    times = CR.result_times(w)
    c = S.build(co)
    req = None
    if rng.random() < 0.25 and len(times) > 1:
        a = int(rng.integers(0, len(times)))
        req = times[a:]
        times = req
    start = lambda obj=c, **kw: obj.solve(window=w, **kw) if req is None else obj.solve(window=w, times=list(req), **kw)
    n0 = len(boot.LOG.calls)
    healthy = {r.time: comb.snapshot(r) for r in S.build(co).solve(window=w) if r is not None}
    if times and len(boot.LOG.calls) == n0:
        raise RuntimeError("the solves are out of the monitor's sight")
    mon.describe(**S.desc, window=w, results=len(times))
    S.sign(mon, w)
    if family == "options":
        opts = [dict(solver="CLARABEL"), dict(solver="CLARABEL", max_iter=150), dict(solver="SCS", eps=1e-9, max_iters=20000) if "SCS" in __import__("cvxpy").installed_solvers() else dict(verbose=False),
                dict(verbose=False), dict(solver="CLARABEL", tol_gap_abs=1e-10, tol_gap_rel=1e-10), dict(solver="ECOS"), dict(enforce_dpp=True), dict(solver="CLARABEL", time_limit=60.0)]
        o = opts[int(rng.integers(len(opts)))]
        boot.LOG.reset()
        out = list(start(**o))
        mon.check(len(out) == len(times), "number of results with solver options", got=len(out), want=len(times))
        mon.check(len(boot.LOG.calls) >= len(times), "every time is solved", solves=len(boot.LOG.calls), times=len(times))
        for q in boot.LOG.calls:
            mon.event("options_seen")
            mon.check(all(q["kwargs"].get(k) == v for k, v in o.items()), "solver options reach the solver at every time", given=o, seen=q["kwargs"])
        for t, r in zip(times, out):
            if r is not None:
                ref.check_result(mon, CR, r, t, w, "with options: ", gap=o.get("solver") != "SCS")
        return
    kind = str(rng.choice(KINDS))
    mon.describe(kind=kind)
    N = len(times)
    if family == "subsets":
        if N > 6:
            times, N = times[-6:], 6
            req = times
        for m in range(N + 1):
            for plan in itertools.combinations(range(N), m):
                judge(mon, CR, w, times, healthy, drive(mon, start(), set(plan), kind), set(plan), kind)
                mon.event("subsets")
        return
    if family == "all":
        if rng.random() < 0.5:
            boot.LOG.reset()
            out, k = [], 0
            for r in start(solver="CLARABEL", max_iter=1):
                out.append((r, failed(boot.LOG.calls[k:])))
                k = len(boot.LOG.calls)
            mon.event("faults", sum(b for _, b in out))
            for q in boot.LOG.calls:
                mon.event("options_seen")
                mon.check(q["kwargs"].get("max_iter") == 1 and q["kwargs"].get("solver") == "CLARABEL", "solver options reach the solver at every time, also after a failure", seen=q["kwargs"])
            judge(mon, CR, w, times, healthy, out, set(range(N)), "max_iter=1", "option max_iter=1: ")
        else:
            judge(mon, CR, w, times, healthy, drive(mon, start(), set(range(N)), kind), set(range(N)), kind)
        # and the object still works
        judge(mon, CR, w, times, healthy, drive(mon, start(), set(), kind), set(), kind, "after a run of failures: ")
        return
    if family == "two":
        a, b = start(), start()
        outa, outb = [], []
        plan = set(int(k) for k in np.flatnonzero(rng.random(N) < 0.5))
        for k in range(N):
            order = [0, 1] if rng.random() < 0.5 else [1, 0]
            for q in order:
                n0 = len(boot.LOG.calls)
                boot.LOG.fault = kind if q == 0 and k in plan else None
                try:
                    r = next(a if q == 0 else b, "end")
                finally:
                    boot.LOG.fault = None
                if isinstance(r, str):
                    mon.fail("stream ended early next to a failing one", position=k)
                    return
                (outa if q == 0 else outb).append((r, failed(boot.LOG.calls[n0:])))
        mon.event("faults", len(plan))
        judge(mon, CR, w, times, healthy, outa, plan, kind, "failing stream: ")
        judge(mon, CR, w, times, healthy, outb, set(), kind, "healthy stream: ")
        return
    p = rng.choice([0.1, 0.3, 0.6, 0.9])
    plan = set(int(k) for k in np.flatnonzero(rng.random(N) < p)) or {int(rng.integers(N))}
    r = rng.random()
    if r < 0.15:
        plan.add(0)
    elif r < 0.3:
        plan.add(N - 1)
    mon.sign(repr(sorted(plan)), kind)
    judge(mon, CR, w, times, healthy, drive(mon, start(), plan, kind), plan, kind)
