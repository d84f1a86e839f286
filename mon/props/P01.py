"""Reproducible in any process, and process-wide state left alone."""
import copy, decimal, json, locale, os, pathlib, pickle, random, shutil, signal, subprocess, sys, tempfile, threading, warnings

import numpy as np
import pandas as pd

from .. import boot, core, gen, job, pool
from . import K08

PRELOAD = K08.PRELOAD
FAMILIES = {"processes": (40, 300), "state": (324, 3000), "suspended": (60, 800)}
RULE = ("'processes' draws a dozen calls of public functions (asset and expert names whose hashes differ between processes) and runs them here and in a fresh interpreter with another hash seed and a random choice of: -O or -OO, time zone, locale, working directory, clock, seeds of the global generators, numpy error and print settings, pandas display options, "
        "number of CPUs, environment variables, import order, order of the calls; the results (labels, order, values) must agree and no file may appear. 'state' puts the process-wide state (generators, error state, print and pandas options, environment, working directory, decimal context, warning filters, locale, recursion limit, threads, signal handlers) "
        "into a random condition and compares it before and after each call, failing ones included; 'suspended' does so between the steps of half-consumed streams.")
NEED = {"oracle": 1200, "processes": 36, "compared": 400, "hash seeds": 36, "optimised": 8, "states": 300, "suspended states": 300}
ASSUMPTIONS = ["ECOS is replaced by CLARABEL", "multiprocessing.Pool is replaced by a pickling in-process pool"]
ROOT = str(core.VERIF)


def processes(mon, rng, i):
    E = K08.registry()
    names = list(E)
    some = [names[(5 * i + k) % len(names)] for k in range(10)] + [n for n in ("from_sigmas", "from_ewmas", "regularize", "ReturnCombinator") if rng.random() < 0.4]
    cases = [(n, int(rng.integers(1 << 30))) for n in some]
    state = dict(seed=int(rng.integers(1 << 30)))
    opt = {"decimals": int(rng.integers(1, 9)), "errors": "ignore", "recursion": 5000, "locale": str(rng.choice(["C", "C.UTF-8", "POSIX"])), "clock": float(rng.choice([-1, 1]) * 10 ** rng.uniform(3, 9)), "cpus": 1, "order": "experiments first"}
    for k, v in opt.items():
        if rng.random() < 0.4:
            state[k] = v
    flags = [[], ["-O"], ["-OO"], ["-X", "utf8"], ["-B"]][int(rng.integers(5))]
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF_") and k not in ("PYTHONPATH", "PYTHONOPTIMIZE")}
    env.update(PYTHONHASHSEED=str(int(rng.integers(1, 1 << 31))), PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
    if "VERIF_SCRATCH_REPO" in os.environ:
        env["VERIF_SCRATCH_REPO"] = os.environ["VERIF_SCRATCH_REPO"]
    more = {"TZ": str(rng.choice(["America/New_York", "Asia/Kolkata", "XYZ-13:45", "UTC"])), "LANG": str(rng.choice(["C", "de_DE.UTF-8", "C.UTF-8"])), "OPENBLAS_NUM_THREADS": "3", "USER": "nobody", "DEBUG": "1", "COLUMNS": "7"}
    for k, v in more.items():
        if rng.random() < 0.5:
            env[k] = v
    order = rng.permutation(len(cases))
    d = tempfile.mkdtemp(prefix="p01_")
    cwd = os.path.join(d, "work")
    os.mkdir(cwd)
    if rng.random() < 0.5:
        pathlib.Path(cwd, "numbers.csv").write_text("1,2\n")
    before = sorted(os.listdir(cwd))
    mon.describe(state=state, flags=flags, names=[n for n, _ in cases], hashseed=env["PYTHONHASHSEED"])
    mon.sign(repr(cases), repr(state), env["PYTHONHASHSEED"])
    try:
        p = subprocess.run([sys.executable, *flags, os.path.join(ROOT, "mon", "job.py"), ROOT, os.path.join(d, "out")], input=json.dumps(dict(cases=[cases[k] for k in order], state=state)), cwd=cwd, env=env, capture_output=True, text=True, timeout=220)
        if p.returncode or not os.path.exists(os.path.join(d, "out")):
            if "/cvx/" in p.stderr or "/experiments/" in p.stderr:
                mon.fail("the code cannot be loaded in a fresh process", error=p.stderr[-400:], flags=flags)
                return
            raise RuntimeError("job failed: " + p.stderr[-800:])
        out = pickle.load(open(os.path.join(d, "out"), "rb"))
        after = sorted(os.listdir(cwd))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    mon.event("processes")
    mon.event("hash seeds", int(out["hash"] != hash("probe")))
    mon.event("optimised", int(out["optimised"]))
    mon.check(after == before, "files are left in the working directory", files=after)
    there = {int(k): r for k, r in zip(order, out["results"])}
    for k, (name, seed) in enumerate(cases):
        pool.SCHEDULE.reset()
        try:
            here, rtol, atol = job.case(E, K08, name, seed)
        except Exception as e:
            here = e
        kind, r = there[k]
        if isinstance(here, Exception):
            mon.event("refused here")
            mon.check(kind == "error", "fails here, but not in another process", function=name, error=repr(here)[:200])
            if kind == "error":
                raise here
            continue
        mon.event("compared")
        if not mon.check(kind == "ok", "fails in another process", function=name, error=r, flags=flags, state=state):
            continue
        x = K08.differ(here, r, max(rtol, 1e-9), max(atol, 0.0))
        mon.check(x is None, "another process gives another result", function=name, where=x, flags=flags, state=state, hashseed=env["PYTHONHASHSEED"])


# ---------------------------------------------------------------- the state of this process
def options_of_pandas():
    out = {}
    for k in ("display.precision", "display.max_rows", "display.max_columns", "display.width", "display.float_format", "mode.chained_assignment", "mode.copy_on_write", "mode.use_inf_as_na", "mode.sim_interactive", "compute.use_bottleneck", "compute.use_numexpr", "display.max_colwidth", "future.infer_string", "future.no_silent_downcasting"):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out[k] = repr(pd.get_option(k))
        except Exception:
            pass
    return out


def look():
    g = np.random.get_state()
    return dict(
        numpy_generator=(g[0], g[1].tobytes(), g[2:]), random_generator=hash(random.getstate()), numpy_errors=tuple(sorted(np.geterr().items())), numpy_print=repr(sorted(np.get_printoptions().items(), key=lambda x: x[0])), numpy_errcall=repr(np.geterrcall()),
        pandas=tuple(sorted(options_of_pandas().items())), environment=tuple(sorted(os.environ.items())), directory=os.getcwd(), decimal=repr(decimal.getcontext()), warnings=tuple(map(repr, warnings.filters)),
        locale=locale.setlocale(locale.LC_ALL), recursion=sys.getrecursionlimit(), threads=sorted(t.name for t in threading.enumerate() if type(t).__name__ != "TMonitor"), signals=tuple(repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGCHLD)),
        path=tuple(sys.path), umask=_umask(), nice=os.nice(0), switch=sys.getswitchinterval(), files=tuple(sorted(os.listdir("."))), hooks=(repr(sys.excepthook), repr(sys.displayhook), sys.gettrace() is None))


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


class Shaken:
    """a scratch working directory and a random process-wide state, undone at the end"""

    def __init__(self, rng):
        self.rng = rng

    def __enter__(self):
        rng = self.rng
        self.cwd, self.dir = os.getcwd(), tempfile.mkdtemp(prefix="p01_")
        os.chdir(self.dir)
        self.err = np.seterr(all="warn")
        if rng.random() < 0.4:
            np.seterr(**{str(rng.choice(["divide", "over", "under", "invalid"])): str(rng.choice(["ignore", "print"]))})
        self.po, self.state, self.rs = np.get_printoptions(), np.random.get_state(), random.getstate()
        np.random.seed(int(rng.integers(1 << 30)))
        random.seed(int(rng.integers(1 << 30)))
        if rng.random() < 0.5:
            np.set_printoptions(precision=int(rng.integers(1, 12)))
        self.prec = pd.get_option("display.precision")
        if rng.random() < 0.5:
            pd.set_option("display.precision", int(rng.integers(1, 12)))
        self.catch = warnings.catch_warnings()
        self.catch.__enter__()
        if rng.random() < 0.5:
            warnings.simplefilter(str(rng.choice(["ignore", "always", "default"])))
        warnings.filterwarnings("ignore", message="own filter %d" % rng.integers(1 << 30))
        return self

    def __exit__(self, *a):
        self.catch.__exit__(None, None, None)
        pd.set_option("display.precision", self.prec)
        np.set_printoptions(**{k: v for k, v in self.po.items() if k != "override_repr"})
        np.random.set_state(self.state)
        random.setstate(self.rs)
        np.seterr(**self.err)
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)
        return False


def compare(mon, a, b, what, **kw):
    bad = [k for k in a if a[k] != b.get(k)]
    mon.check(not bad, what, state=bad, **{**kw, "was": {k: str(a[k])[:200] for k in bad[:2]}, "is": {k: str(b[k])[:200] for k in bad[:2]}})


def run(mon, family, rng, i, tier):
    if family == "processes":
        return processes(mon, rng, i)
    E = K08.registry()
    names = list(E)
    n, K = int(rng.integers(3, 6)), int(rng.integers(2, 4))
    if family == "state":
        name = names[i % len(names)]
        T = int(rng.integers(9, 40)) + 20
        if name.startswith(("from_sigmas", "Trader")):
            T = int(rng.integers(9, 15))
        d = K08.Draw(rng, T, n, K)
        o = K08.options(rng, n)
        draw, call = E[name][:2]
        args = draw(d)
        call(copy.deepcopy(args), o)  # (what is imported on first use may set up its own state)
        how = K08.corrupt(rng, args) if rng.random() < 0.4 else None
        mon.describe(function=name, T=T, n=n, options=o, corrupted=how)
        mon.sign(*[v for _, _, v in K08.plain(args)[:30] if v is not None and v.dtype.kind == "f"], repr(o), name)
        with Shaken(rng):
            a = look()
            try:
                K08.plain(call(args, o))
            except Exception as e:
                if how is None:
                    raise
                mon.event("refused: " + type(e).__name__)
            b = look()
        mon.event("states")
        compare(mon, a, b, "a call changes process-wide state", function=name, corrupted=how)
        return
    ew = boot.load("cvx.covariance.ewma")
    co = boot.load("cvx.covariance.combination")
    rg = boot.load("cvx.covariance.regularization")
    lr = boot.load("experiments.utils.low_rank_ewma")
    eu = boot.load("experiments.utils.experiment_utils")
    d = K08.Draw(rng, int(rng.integers(20, 40)), n, K)
    o = K08.options(rng, n)
    streams = {
        "iterated_ewma": lambda: ew.iterated_ewma(d.df(), o["h"], 12, 3, 3, mean=o["mean"], clip_at=o["clip"]),
        "iterated_ewma with gaps": lambda: ew.iterated_ewma(d.df().mask(rng.random((d.T, n)) < 0.2), o["h"], 12, 3, 3),
        "low_rank": lambda: lr.low_rank_iterated_ewma(d.df(), o["h"], 12, 1, 3, 3),
        "regularize": lambda: rg.regularize_covariance(d.sig(), o["r"]),
        "realized": lambda: eu.realized_ewma(d.df().set_axis(d.index[np.arange(d.T) // 3]), o["h"]),
        "solve": lambda: (lambda x: co.from_sigmas(x.experts(), x.df()).solve(window=o["w"]))(K08.Draw(rng, 10, n, K)),
    }
    names = list(streams)
    name = names[i % len(names)]
    mon.describe(stream=name, options=o)
    mon.sign(name, repr(o), int(rng.integers(1 << 60)))
    for f in streams.values():
        for _ in zip(range(14), f()):
            pass
    with Shaken(rng):
        a = look()
        it = iter(streams[name]())
        other = iter(streams[names[int(rng.integers(len(names) - 1))]]())
        for _ in range(int(rng.integers(3, 9))):
            next(it, None)
            compare(mon, a, look(), "a half-consumed stream changes process-wide state", stream=name)
            mon.event("suspended states")
            if rng.random() < 0.5:
                next(other, None)
                compare(mon, a, look(), "a half-consumed stream changes process-wide state", stream="second")
                mon.event("suspended states")
        for x in ((it, other) if rng.random() < 0.5 else (other, it)):
            if rng.random() < 0.5 and hasattr(x, "close"):
                x.close()
            else:
                list(x)
        it = other = x = None
        compare(mon, a, look(), "a finished stream changes process-wide state", stream=name)
