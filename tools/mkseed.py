"""Builds and tries planted bugs.  tools/mkseed.py [IDs...]: definitions in tools/bugs/*.py

For every bug: makes a scratch copy of /repo, applies the edits, writes /verif/seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}, confirms that the
demonstration passes without and fails with the patch and that the repository's stable tests pass, runs the property's check (and others given with --checks)
against the patched copy with several seeds, and records the outcome in tools/seeded_results.json.
"""
import argparse, importlib.util, json, os, pathlib, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = pathlib.Path("/verif")
DEMO = '#!/bin/bash\n# exit 0 without the change, nonzero with it; run in the repository\'s root\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TQDM_DISABLE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
BUGS = {}


def bug(id, prop, edits, demo, needs, breaks, checks=()):
    assert id not in BUGS, id
    BUGS[id] = dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, checks=list(checks))


def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)
    return p.returncode, p.stdout + p.stderr


def make(b, tests=True, seeds=(1, 2), jobs=4):
    d = pathlib.Path("/tmp/seed_" + b["id"])
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    out = dict(property=b["prop"], needs=b["needs"], caught=[], missed=[], problems=[])
    try:
        demo = V / "seeded" / b["id"]
        demo.mkdir(parents=True, exist_ok=True)
        (demo / "demo.sh").write_text(DEMO)
        os.chmod(demo / "demo.sh", 0o755)
        (demo / "demo.py").write_text(b["demo"].lstrip("\n"))
        (demo / "meta.json").write_text(json.dumps(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")
        rc, o = sh(f"bash {demo}/demo.sh", d, 300)
        if rc != 0:
            out["problems"].append("demo fails on the clean tree: " + o[-300:])
        diff = ""
        for i, (f, old, new) in enumerate(b["edits"]):
            p = d / f
            s = p.read_text()
            if s.count(old) < 1:
                out["problems"].append(f"edit {i}: text not found in {f}")
                return out
            p.write_text(s.replace(old, new) if s.count(old) == 1 else s.replace(old, new, 1))
        files = sorted({f for f, _, _ in b["edits"]})
        for f in files:
            rc, o = sh(f"git diff --no-index --no-color /repo/{f} {d}/{f}", "/tmp")
            o = o.replace(f"a/repo/{f}", f"a/{f}").replace(f"b{d}/{f}", f"b/{f}")
            diff += re.sub(r"^diff --git .*$", f"diff --git a/{f} b/{f}", o, count=1, flags=re.M)
        (demo / "patch.diff").write_text(diff)
        orig = "".join(sh(f"git show becfcd2:{f}", "/repo")[1] for f in files).splitlines()
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        if not any(l.strip() and l in orig for l in gone):
            out["problems"].append("WARNING: removes no line of the original repository")
        rc, o = sh(f"git apply --check {demo}/patch.diff", "/repo")
        if rc:
            out["problems"].append("patch does not apply: " + o[-300:])
        rc, o = sh(f"bash {demo}/demo.sh", d, 300)
        if rc == 0:
            out["problems"].append("demo passes with the change")
        if tests:
            rc, o = sh("env PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=2 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider --timeout=300 2>&1 | tail -15", d, 600)
            m = re.search(r"(\d+) passed", o)
            out["tests"] = re.findall(r"\d+ (?:passed|failed|error)\w*", o)
            bad = set(re.findall(r"(?:FAILED|ERROR) (\S+)", o))
            base = set(json.loads((V / "tools" / "base_fail.json").read_text())) if (V / "tools" / "base_fail.json").exists() else set()
            if bad - base:
                out["problems"].append("tests fail: " + " ".join(sorted(bad - base)))
        for c in [b["prop"]] + b["checks"]:
            r = []
            for s in seeds:
                rc, o = sh(f"./check.sh {c} --seed {s} --jobs {jobs}", V, 900, dict(VERIF_SCRATCH_REPO=str(d)))
                r.append(rc)
                w = re.search(r"what: (.*)", o)
                if rc == 1 and w:
                    out.setdefault("what", {})[c] = w.group(1)[:160]
            (out["caught"] if all(x == 1 for x in r) else out["missed"]).append(c if all(x == 1 for x in r) else f"{c} {r}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--seeds", default="1,2")
    ap.add_argument("--par", type=int, default=2)
    a = ap.parse_args()
    for f in sorted((V / "tools" / "bugs").glob("*.py")):
        exec(compile(f.read_text(), str(f), "exec"), dict(bug=bug))
    todo = [b for k, b in BUGS.items() if not a.ids or k in a.ids or any(k.startswith(x + "-") or k.startswith(x + "_") for x in a.ids)]
    R = V / "tools" / "seeded_results.json"
    with ThreadPoolExecutor(a.par) as ex:
        for b, out in zip(todo, ex.map(lambda b: make(b, not a.no_tests, [int(x) for x in a.seeds.split(",")]), todo)):
            print(b["id"], "CAUGHT" if out["caught"] else "MISSED", out.get("what"), out["missed"] or "", out["problems"] or "", flush=True)
            res = json.loads(R.read_text()) if R.exists() else {}
            res[b["id"]] = out
            R.write_text(json.dumps(res, indent=1, sort_keys=True) + "\n")


main()
