"""Loads the code under test from /repo's working tree (never from a cache) and installs the stand-ins.

Stand-ins (harness side only, nothing in /repo knows about them):
 * cvxpy.Problem.solve is wrapped: every call is logged (kwargs, outcome), a commercial/not installed solver
   (ECOS, MOSEK, ...) is replaced by CLARABEL, faults can be injected, and the solver cache is dropped after
   the solve so that a solved problem can be pickled (CLARABEL leaves an unpicklable object in it);
 * multiprocessing.Pool is replaced by a pool with a controlled schedule (see pool.py);
 * cvx.linalg (not installed here) is replaced by a module with a deterministic pca.
"""
import importlib, importlib.abc, importlib.machinery, importlib.util, os, sys, types, logging, warnings

REPO = os.path.realpath(os.environ.get("VERIF_SCRATCH_REPO", "/repo"))  # the override is for trying planted bugs in scratch copies
warnings.filterwarnings("ignore")


class _SourceLoader(importlib.machinery.SourceFileLoader):
    """compiles the source file that is there now; neither reads nor writes .pyc files"""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            return compile(f.read(), path, "exec", dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in ("cvx", "experiments"):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=_SourceLoader(fullname, base + ".py"))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, p, loader=_SourceLoader(fullname, p), submodule_search_locations=[base])
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


class SolveLog:
    """what the wrapped Problem.solve saw; reset by the monitors"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.calls = []  # dicts: kwargs, status, exc, fault
        self.fault = None  # None | "raise" | "limit" | "none" | "infeasible" | "unbounded" | "ecos"
        self.total = 0


LOG = SolveLog()
_installed = False


def _wrap_solve():
    import cvxpy as cp

    orig = cp.Problem.solve
    if getattr(orig, "_verif", False):
        return
    have = set(cp.installed_solvers())

    def solve(self, *args, **kwargs):
        given = dict(kwargs)
        replaced = kwargs.get("solver") is not None and str(kwargs["solver"]).upper() not in have
        if replaced:
            kwargs["solver"] = "CLARABEL"
        rec = dict(kwargs=given, fault=LOG.fault, status=None, exc=None)
        LOG.total += 1
        if len(LOG.calls) < 100000:
            LOG.calls.append(rec)
        fault = LOG.fault
        try:
            if fault == "raise":
                raise cp.SolverError("injected: solver failed")
            if fault == "limit":
                kwargs["max_iter"] = 2
            out = orig(self, *args, **kwargs)
            if fault in ("infeasible", "unbounded", "infeasible_or_unbounded", "user_limit"):
                # reported as a status, with whatever iterate the solver left in the variables
                self._status = fault
                if fault != "user_limit":
                    for v in self.variables():
                        v.save_value(None)
                else:
                    import numpy as np

                    for v in self.variables():
                        v.save_value(np.full(v.shape, 1.0 / max(v.size, 1)))
            return out
        except BaseException as e:
            rec["exc"] = type(e).__name__
            raise
        finally:
            rec["status"] = self._status
            if replaced:
                # what CLARABEL leaves behind cannot be pickled, unlike what the solver asked for does
                try:
                    self._solver_cache.clear()
                except AttributeError:
                    pass

    solve._verif = True
    solve._orig = orig
    cp.Problem.solve = solve


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    for m in list(sys.modules):
        if m.split(".")[0] in ("cvx", "experiments"):
            del sys.modules[m]
    sys.meta_path.insert(0, _Finder())
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    import logging

    logging.disable(logging.CRITICAL)
    import multiprocessing

    from . import pool

    pool.REAL_POOL = multiprocessing.Pool
    multiprocessing.Pool = pool.Pool
    _wrap_solve()
    from . import linalg_stub

    sys.modules["cvx.linalg"] = linalg_stub


def load(name):
    """module `name` of the code under test; its file must be inside /repo"""
    install()
    m = importlib.import_module(name)
    f = os.path.realpath(m.__file__)
    assert f.startswith(REPO + os.sep), f
    return m


def optional(name, attr):
    """an attribute a behaviour-preserving change may have renamed: None if it is not there"""
    return getattr(load(name), attr, None)
