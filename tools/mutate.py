"""Systematic mutants of the package, run against the checks; prints the survivors.

usage: mutate.py FILE[:FUNCTION] [--par 4] [--out LOG]   (FILE relative to /repo)
Works in copies under /tmp/mut_*; /repo is not touched.
"""
import argparse, ast, concurrent.futures as cf, copy, json, os, pathlib, shutil, subprocess, sys, time

V, R = pathlib.Path(__file__).resolve().parent.parent, pathlib.Path("/repo")
U = "experiments/utils/"
CHECKS = {
    "cvx/covariance/ewma.py": "I03 I01 I04 I02 I05 I06 V01 I08 I10 I09 E09 K07 K08",
    "cvx/covariance/combination.py": "K02 K01 K09 K03 K04 K06 K05 K07 V01 K08",
    "cvx/covariance/regularization.py": "R01 R03 I10 V01 K08",
    U + "iterated_ewma_vec.py": "E09 E11 I10 K08",
    U + "low_rank_ewma.py": "E03 I10 K08",
    U + "ccp_regularize.py": "E04",
    U + "experiment_utils.py": "E01 E02 E11 I10 K08",
    U + "factor_model.py": "E10",
    U + "return_combination.py": "E05 V02 K08",
    U + "trading_model.py": "E08 E07 E11 E06 V02",
    U + "portfolio_backtests.py": "E06 E07 E08 V02",
}
SCALE = os.environ.get("SCALE", "0.25")
SKIP_FUNCS = {"_State2", "_create_table_helper", "yearly_SR"}


class Sites(ast.NodeVisitor):
    """every (description, apply) of one tree; apply(tree) mutates a fresh copy at the same position"""

    def __init__(self, tree, only):
        self.out = []
        self.order = list(ast.walk(tree))
        self.parent = {c: p for p in self.order for c in ast.iter_child_nodes(p)}
        self.only = only

    def names(self, n):
        out = []
        while n in self.parent:
            n = self.parent[n]
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.append(n.name)
        return out

    def collect(self):
        for i, n in enumerate(self.order):
            nm = self.names(n)
            if self.only and self.only not in nm or set(nm) & SKIP_FUNCS:
                continue
            p = self.parent.get(n)
            if any(isinstance(a, (ast.Assert, ast.JoinedStr, ast.Raise, ast.ImportFrom, ast.AnnAssign)) for a in [n] + self.up(n)):
                continue
            add = lambda what, f: self.out.append((f"{'.'.join(nm[::-1])}:{getattr(n, 'lineno', '?')} {what}", i, f))
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
                t = type(n.ops[0])
                if t in sw:
                    add(f"{t.__name__}->{sw[t].__name__}", lambda m, s=sw[t]: setattr(m, "ops", [s()]))
            if isinstance(n, ast.BinOp):
                sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
                t = type(n.op)
                if t in sw:
                    add(f"{t.__name__}->{sw[t].__name__} in {ast.unparse(n)[:60]}", lambda m, s=sw[t]: setattr(m, "op", s()))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                add("drop minus", lambda m: setattr(m, "op", ast.UAdd()))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add("drop not", ("replace", lambda m: m.operand))
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                add(f"{n.value}->{n.value + 1}", lambda m: setattr(m, "value", m.value + 1))
                if n.value not in (0, 1):
                    add(f"{n.value}->{n.value - 1}", lambda m: setattr(m, "value", m.value - 1))
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(f"{n.value} flipped", lambda m: setattr(m, "value", not m.value))
            if isinstance(n, ast.BoolOp):
                for k in range(len(n.values)):
                    add(f"operand {k} dropped from {ast.unparse(n)[:60]}", ("replace", lambda m, k=k: m.values[1 - k] if len(m.values) == 2 else ast.BoolOp(m.op, m.values[:k] + m.values[k + 1 :])))
            if isinstance(n, (ast.If, ast.IfExp)):
                add(f"if True: {ast.unparse(n.test)[:50]}", lambda m: setattr(m, "test", ast.Constant(True)))
                add(f"if False: {ast.unparse(n.test)[:50]}", lambda m: setattr(m, "test", ast.Constant(False)))
            if isinstance(n, ast.Slice):
                for side in ("lower", "upper"):
                    v = getattr(n, side)
                    if v is not None and not (isinstance(v, ast.Constant) and isinstance(v.value, str)):
                        for d in (1, -1):
                            add(f"slice {side} {ast.unparse(v)[:30]} {d:+d}", lambda m, side=side, d=d: setattr(m, side, ast.BinOp(getattr(m, side), ast.Add(), ast.Constant(d))))
            if isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load):
                add(f"drop .T of {ast.unparse(n.value)[:40]}", ("replace", lambda m: m.value))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "dropna", "fillna", "shift", "abs", "cumsum", "clip", "mean", "sqrt", "flatten"):
                if not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "cp", "cvx", "pd")):
                    add(f"drop .{n.func.attr}() of {ast.unparse(n.func.value)[:40]}", ("replace", lambda m: m.func.value))
                elif n.args:
                    add(f"drop {ast.unparse(n.func)}()", ("replace", lambda m: m.args[0]))
            if isinstance(n, ast.Call):
                for k, kw in enumerate(n.keywords):
                    if kw.arg and kw.arg not in ("axis",):
                        add(f"drop {kw.arg}= of {ast.unparse(n.func)[:40]}", lambda m, k=k: m.keywords.pop(k))
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    add(f"swap first arguments of {ast.unparse(n)[:50]}", lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1]))
            if isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "print" not in ast.unparse(n.value.func):
                add(f"delete {ast.unparse(n)[:50]}", ("replace", lambda m: ast.Pass()))
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                add(f"delete {ast.unparse(n)[:50]}", ("replace", lambda m: ast.Pass()))
            if isinstance(n, ast.List) and len(n.elts) >= 1 and isinstance(n.ctx, ast.Load):
                for k in range(len(n.elts)):
                    if len(n.elts) > 1:
                        add(f"drop element {k} of {ast.unparse(n)[:50]}", lambda m, k=k: m.elts.pop(k))
        return self.out

    def up(self, n):
        out = []
        while n in self.parent:
            n = self.parent[n]
            out.append(n)
        return out


def mutant(src, i, f):
    tree = ast.parse(src)
    order = list(ast.walk(tree))
    n = order[i]
    if isinstance(f, tuple):
        new = f[1](n)
        for p in order:
            for field, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, field, new)
                elif isinstance(v, list):
                    for k, x in enumerate(v):
                        if x is n:
                            v[k] = new
    else:
        f(n)
    return ast.unparse(ast.fix_missing_locations(tree))


def trial(job):
    k, file, desc, text, checks, slot = job
    d = pathlib.Path(f"/tmp/mut_{os.getpid()}")
    if not d.exists():
        shutil.copytree(R, d, ignore=shutil.ignore_patterns(".git", "*.ipynb", "data", "figures", "__pycache__", "node_modules"))
    orig = (R / file).read_text()
    (d / file).write_text(text)
    env = dict(os.environ, VERIF_SCRATCH_REPO=str(d), OMP_NUM_THREADS="1")
    caught, odd = None, []
    t = time.time()
    for c in checks:
        try:
            r = subprocess.run(["./check.sh", c, "--jobs", "1", "--seed", "1", "--scale", SCALE], cwd=V, env=env, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            odd.append(f"{c}:timeout")
            continue
        if r.returncode == 1 and "VIOLATION" in r.stdout:
            caught = c
            break
        if r.returncode != 0:
            odd.append(f"{c}:{r.returncode}")
            if len(odd) == 2:
                break
    (d / file).write_text(orig)
    return desc, caught, odd, time.time() - t


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("target")
    ap.add_argument("--par", type=int, default=4)
    ap.add_argument("--out", default="/tmp/mutants.log")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    file, _, only = a.target.partition(":")
    src = (R / file).read_text()
    base = ast.unparse(ast.parse(src))
    jobs, seen = [], {base}
    for desc, i, f in Sites(ast.parse(src), only).collect():
        try:
            text = mutant(src, i, f)
            compile(text, file, "exec")
        except Exception as e:
            continue
        if text in seen:
            continue
        seen.add(text)
        jobs.append((len(jobs), file, desc, text, CHECKS[file].split(), 0))
    print(file, len(jobs), "mutants", flush=True)
    if a.list:
        for j in jobs:
            print(j[2])
        return
    n = 0
    with cf.ProcessPoolExecutor(a.par) as ex, open(a.out, "a") as log:
        for f in cf.as_completed([ex.submit(trial, j) for j in jobs]):
            desc, caught, odd, t = f.result()
            n += bool(caught)
            log.write(f"{'caught ' + caught if caught else 'SURVIVED'} {file} {desc} {odd} {t:.0f}s\n")
            log.flush()
    print(file, n, "of", len(jobs), "caught", flush=True)


if __name__ == "__main__":
    main()
