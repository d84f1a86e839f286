"""Runner: executes the cases of one property against /repo, collects what the monitors observed, gives the verdict.

usage: python -m mon ID [--tier quick|thorough] [--seed N] [--replay FILE] [--family F] [--jobs N]
exit 0 held on everything observed; 1 violated (VIOLATION line); 2 inconclusive / error of the check.
"""
import argparse, collections, contextlib, concurrent.futures as cf, faulthandler, hashlib, importlib, json, os, pathlib, signal, sys, time, traceback, zlib

import numpy as np

VERIF = pathlib.Path(__file__).resolve().parent.parent
EVID = VERIF / "evidence"


class Malformed(Exception):
    """the code under test returned something that is not what the interface promises"""


class CaseTimeout(BaseException):
    pass


def _jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple, set)):
        return [_jsonable(v, depth + 1) for v in list(x)[:40]]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist(), depth + 1) if x.size <= 40 else f"array{x.shape}"
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)[:300]


class Mon:
    """collects what one case observed"""

    def __init__(self, prop, family, index, tier):
        self.prop, self.family, self.index, self.tier = prop, family, index, tier
        self.ev = collections.Counter()
        self.peaks = {}
        self.viol = []
        self.desc = {}
        self.sig = hashlib.blake2b(digest_size=8)
        self.signed = False

    # what is being run
    def describe(self, **kw):
        self.desc.update(kw)

    def sign(self, *arrays):
        """the identity of this case's input, for counting distinct cases"""
        for a in arrays:
            if isinstance(a, np.ndarray):
                self.sig.update(np.ascontiguousarray(a).tobytes() if a.dtype != object else repr(a.tolist()).encode())
            else:
                self.sig.update(repr(a).encode())
        self.signed = True

    # observations
    def event(self, name, n=1):
        self.ev[name] += n

    def peak(self, name, v):
        v = float(v)
        if not (v <= self.peaks.get(name, -np.inf)):
            self.peaks[name] = v

    def fail(self, what, **detail):
        if len(self.viol) < 5:
            self.viol.append(dict(what=what, detail=_jsonable(detail)))
        self.ev["violations"] += 1

    def check(self, ok, what, **detail):
        """one evaluation of the oracle"""
        self.ev["oracle"] += 1
        if not bool(ok):
            self.fail(what, **detail)
            return False
        return True

    def close(self, got, want, tol, what, **detail):
        """|got - want| <= tol elementwise, NaN exactly where NaN is wanted; tol may be an array"""
        self.ev["oracle"] += 1
        try:
            got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            self.fail(what + ": not numeric", got=repr(got)[:200], **detail)
            return False
        if got.shape != want.shape:
            self.fail(what + ": shape", got=got.shape, want=want.shape, **detail)
            return False
        self.ev["values"] += got.size
        nan = np.isnan(want)
        if not np.array_equal(np.isnan(got), nan):
            i = np.argwhere(np.isnan(got) != nan)[0]
            self.fail(what + ": NaN pattern", at=i, got=got[tuple(i)], want=want[tuple(i)], **detail)
            return False
        tol = np.broadcast_to(np.asarray(tol, dtype=float), got.shape)
        with np.errstate(all="ignore"):
            err = np.abs(got - want)
        err = np.where(nan | (got == want), 0.0, err)
        bad = ~(err <= tol)
        with np.errstate(all="ignore"):
            r = np.where(err == 0, 0, err / tol)
        if r.size:
            self.peak("err/tol " + what, np.nanmax(r))
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(bad, np.nan_to_num(r, nan=np.inf, posinf=1e300), -1)), got.shape)
            self.fail(what, at=i, got=got[i], want=want[i], err=err[i], tol=tol[i], n_bad=int(bad.sum()), of=got.size, **detail)
            return False
        return True

    def raises(self, fn, what, exc=Exception, **detail):
        """fn must raise"""
        self.ev["oracle"] += 1
        try:
            fn()
        except exc:
            self.event("rejections")
            return True
        self.fail(what, **detail)
        return False


def _case_seed(prop, family, index, seed):
    return [zlib.crc32(prop.encode()), zlib.crc32(family.encode()), int(index), int(seed) & 0xFFFFFFFF]


def _alarm(signum, frame):
    raise CaseTimeout()


def _from_repo(tb):
    """does the traceback pass through the code under test?"""
    from .boot import REPO

    frames = traceback.extract_tb(tb)
    return [f"{f.filename}:{f.lineno} {f.name}" for f in frames if f.filename.startswith(REPO + os.sep)]


def run_case(prop, family, index, seed, tier, limit=240):
    from . import boot, pool

    boot.install()
    mod = importlib.import_module("mon.props." + prop)
    rng = np.random.default_rng(_case_seed(prop, family, index, seed))
    mon = Mon(prop, family, index, tier)
    boot.LOG.reset()
    pool.SCHEDULE.reset()
    t0 = time.time()
    incon = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null), np.errstate(all="ignore"):
            mod.run(mon, family, rng, index, tier)
    except CaseTimeout:
        incon = "case took longer than %d s" % limit
    except Malformed as e:
        mon.fail("malformed output: %s" % e)
    except Exception as e:
        where = _from_repo(e.__traceback__)
        text = "".join(traceback.format_exception(e))[-3000:]
        if where and not isinstance(e, (MemoryError,)):
            mon.fail("exception on a valid input: %s: %s" % (type(e).__name__, str(e)[:300]), where=where[-3:])
        elif isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError, np.linalg.LinAlgError)) or isinstance(e, AttributeError) and "module" not in str(e):
            # no monitor fails this way on the results the properties describe
            mon.fail("malformed output, unreadable for the monitor: %s: %s" % (type(e).__name__, str(e)[:300]), trace=text[-600:])
        else:
            incon = "harness error: " + text
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return dict(family=family, index=index, ev=dict(mon.ev), peaks=mon.peaks, viol=mon.viol, desc=_jsonable(mon.desc),
                sig=mon.sig.hexdigest() if mon.signed else None, incon=incon, wall=time.time() - t0)


def _work(args):
    prop, items, seed, tier, limit, deadline = args
    out = []
    for f, i in items:
        if time.time() > deadline:
            out.append(dict(family=f, index=i, ev={}, peaks={}, viol=[], desc={}, sig=None, incon="total time is up", wall=0.0))
            continue
        out.append(run_case(prop, f, i, seed, tier, limit))
    return out


def _known(prop):
    """known: property=<id> kind=<text the violation's description starts with>"""
    out = []
    p = VERIF / "KNOWN_FINDINGS.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("known: property=%s " % prop):
                out.append(line.split(" kind=", 1)[1].strip())
    return out


# the quick tier runs the families' first numbers of cases this many times over (10 to 60 s on eight cores)
MORE = dict(P03=1, P01=1, I10=1, P04=2, K01=1, K03=2, K05=2, K07=2, K08=2, K04=2, I08=2, I09=2, I06=2)


def counts(prop, mod):
    k = MORE.get(prop, 4)
    return {f: (q * k, max(t, q * k)) for f, (q, t) in mod.FAMILIES.items()}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--scale", type=float, default=1.0, help="share of the cases to run; for trying out, writes no evidence")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    t0 = time.time()
    prop = a.prop
    from . import boot

    if a.replay:
        r = json.loads(pathlib.Path(a.replay).read_text())
        res = run_case(prop, r["family"], r["index"], r["seed"], r["tier"], 600)
        print(json.dumps(dict(desc=res["desc"], viol=res["viol"], incon=res["incon"]), indent=1))
        if res["viol"]:
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 2 if res["incon"] else 0

    try:
        boot.install()
        mod = importlib.import_module("mon.props." + prop)
        pre = getattr(mod, "PRELOAD", ["cvx.covariance.ewma", "cvx.covariance.combination", "cvx.covariance.regularization"])
        broken = None
        for m in pre:
            try:
                boot.load(m)
            except Exception as e:
                broken = (m, e)
                break
    except Exception:
        traceback.print_exc()
        return 2
    if broken is not None:
        # the code under test cannot even be imported: nothing was observed
        print(f"cannot import {broken[0]}: {broken[1]!r}")
        return 2

    fams = {f: c[0 if tier == "quick" else 1] for f, c in counts(prop, mod).items() if not a.family or f == a.family}
    if a.scale != 1.0:
        fams = {f: int(np.ceil(c * a.scale)) for f, c in fams.items()}
    cases = []
    for f, c in fams.items():
        cases += [(f, i) for i in range(c)]
    # interleave the families so that every worker sees a mix
    order = np.random.default_rng(12345).permutation(len(cases))
    cases = [cases[i] for i in order]
    budget = 780 if tier == "quick" else 3300
    limit = 240 if tier == "quick" else 900
    jobs = a.jobs or min(8, max(2, os.cpu_count() or 2))
    deadline = t0 + budget
    results = []
    size = max(1, min(40, len(cases) // (jobs * 6) + 1))
    chunks = [cases[i : i + size] for i in range(0, len(cases), size)]
    try:
        if jobs == 1:
            for c in chunks:
                results += _work((prop, c, seed, tier, limit, deadline))
        else:
            import multiprocessing as mp

            with cf.ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork")) as ex:
                futs = [ex.submit(_work, (prop, c, seed, tier, limit, deadline)) for c in chunks]
                nv = 0
                for fu in cf.as_completed(futs):
                    for r in fu.result():
                        results.append(r)
                        nv += bool(r["viol"])
                    if nv >= 12:
                        for g in futs:
                            g.cancel()
                        break
                if nv >= 12:
                    for g in futs:
                        if g.done() and not g.cancelled():
                            continue
    except cf.process.BrokenProcessPool:
        print("a worker process died")
        if not any(r["viol"] for r in results):
            return 2

    results.sort(key=lambda r: (r["family"], r["index"]))
    ev, peaks, fam_n = collections.Counter(), {}, collections.Counter()
    sigs, incon, viol = set(), [], []
    for r in results:
        ev.update(r["ev"])
        fam_n[r["family"]] += 1
        for k, v in r["peaks"].items():
            if not (v <= peaks.get(k, -np.inf)):
                peaks[k] = v
        if r["sig"] and r["ev"].get("oracle", 0) > 0:
            sigs.add(r["sig"])
        if r["incon"]:
            incon.append((r["family"], r["index"], r["incon"]))
        if r["viol"]:
            viol.append(r)
    samples, seen = [], collections.Counter()
    for r in results:
        if r["desc"] and not r["viol"] and seen[r["family"]] < 2 and len(samples) < 12:
            seen[r["family"]] += 1
            samples.append(dict(family=r["family"], index=r["index"], case=r["desc"], observed=r["ev"]))
    known = _known(prop)
    new, old = [], collections.Counter()
    for r in viol:
        fresh = [v for v in r["viol"] if not any(v["what"].startswith(k) for k in known)]
        for v in r["viol"]:
            for k in known:
                if v["what"].startswith(k):
                    old[k] += 1
        if fresh:
            new.append((r, fresh))
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k} ({old[k]} observations)")
    missing = []
    if not new and a.scale == 1.0:
        for k, m in getattr(mod, "NEED", {"oracle": 1}).items():
            if ev.get(k, 0) < m:
                missing.append(f"{k}: {ev.get(k, 0)} < {m}")
    EVID.mkdir(exist_ok=True)
    e = dict(
        property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=len(results), distinct_nontrivial=len(sigs), rule=mod.RULE, samples=samples,
            families=dict(fam_n), observed=dict(sorted(ev.items())),
            peak_error_over_tolerance={k: float("%.3g" % v) for k, v in sorted(peaks.items())},
            inconclusive=len(incon), missing=missing,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(new),
    )
    if a.scale == 1.0:
        (EVID / f"{prop}.json").write_text(json.dumps(e, indent=1))
    if new:
        rep = EVID / "replays"
        rep.mkdir(exist_ok=True)
        for n, (r, fresh) in enumerate(new[:5]):
            p = rep / f"{prop}-{seed}-{r['family']}-{r['index']}.json"
            p.write_text(json.dumps(dict(prop=prop, family=r["family"], index=r["index"], seed=seed, tier=tier, desc=r["desc"], viol=fresh), indent=1))
            if n == 0:
                print("what: %s" % fresh[0]["what"])
                print("detail: %s" % json.dumps(fresh[0]["detail"])[:1500])
                print("case: %s" % json.dumps(r["desc"])[:1500])
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if incon or missing:
        for x in incon[:3]:
            print("inconclusive:", x[0], x[1], x[2][-500:].strip())
        for m in missing:
            print("observed too little:", m)
        return 2
    print(f"{prop}: held on {len(results)} cases ({len(sigs)} distinct), {ev['oracle']} oracle evaluations, {time.time()-t0:.1f} s, tier {tier}, seed {seed}")
    return 0

