#!/usr/bin/env python3
"""plant.py [--tests] [ids...]: (re)generate seeded/<id>/ from tools/seeds/*.py and confirm each in a scratch copy.

A seed file defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source, run with the repo venv, cwd repo, PYTHONPATH=src).
"""
import importlib.util, json, os, pathlib, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = pathlib.Path(__file__).resolve().parent.parent
R = pathlib.Path("/repo")
DEMO_SH = '''#!/bin/bash
# Exit 0: behaves as required; nonzero: the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mplconfig}
export PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def load(p):
    s = importlib.util.spec_from_file_location(p.stem, p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def one(p, tests):
    m = load(p)
    out = V / "seeded" / p.stem
    if out.exists():
        shutil.rmtree(out)
    out.mkdir(parents=True)
    d = pathlib.Path(tempfile.mkdtemp(prefix="plant"))
    try:
        subprocess.run(["git", "clone", "-q", str(R), str(d / "repo")], check=True)
        r = d / "repo"
        for f, old, new in m.EDITS:
            q = r / "src" / f
            s = q.read_text()
            if s.count(old) != 1:
                return f"{p.stem}: EDIT matches {s.count(old)} times: {old[:60]!r}"
            q.write_text(s.replace(old, new))
            compile(q.read_text(), str(q), "exec")
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        (out / "patch.diff").write_text(diff)
        (out / "demo.sh").write_text(DEMO_SH)
        os.chmod(out / "demo.sh", 0o755)
        (out / "demo.py").write_text(m.DEMO)
        json.dump({"property": m.PROPERTY, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(out / "meta.json", "w"), indent=1)
        msg = []
        b = subprocess.run(["bash", str(out / "demo.sh")], cwd=r, capture_output=True, text=True, timeout=300)
        if b.returncode == 0:
            msg.append("demo passes with the bug")
        t = ""
        if tests:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            x = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "src", "-q", "-p", "no:cacheprovider", f"--rootdir={r}", "-n", "8", "--timeout=300",
                                "--tb=line", "--disable-warnings", "-o", "junit_family=xunit2", f"--junitxml={d}/j.xml"], cwd=r, capture_output=True, text=True, env=env)
            subprocess.run(["/opt/venv/bin/python", "/opt/vp/results.py", str(d / "o.json"), f"junit:{d}/j.xml"], capture_output=True)
            got = json.load(open(d / "o.json"))
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            passed = set(got["passed"] if "passed" in got else [])
            miss = st - passed
            t = f" tests: {len(st) - len(miss)}/{len(st)}"
            if miss:
                msg.append(f"stable tests fail: {sorted(miss)[:5]}")
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r, check=True)
        g = subprocess.run(["bash", str(out / "demo.sh")], cwd=r, capture_output=True, text=True, timeout=300)
        if g.returncode != 0:
            msg.append("demo fails on the unchanged tree: " + (g.stdout + g.stderr)[-800:])
        # the property's own check
        subprocess.run(["git", "apply", str(out / "patch.diff")], cwd=r, check=True)
        shutil.copytree(V, d / "v", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        caught = "no check"
        if (V / "checks" / (m.PROPERTY.lower() + ".py")).exists():
            k = subprocess.run([sys.executable, "run.py", m.PROPERTY], cwd=d / "v", capture_output=True, text=True, env=dict(os.environ, HC_REPO=str(r)))
            caught = {0: "MISSED", 1: "caught"}.get(k.returncode, "ERROR " + (k.stdout + k.stderr)[-500:])
        return f"{p.stem}: {m.PROPERTY} {caught}{t} " + ("; ".join(msg) if msg else "ok") + ("" if b.returncode else "\n" + b.stdout[-500:])
    finally:
        shutil.rmtree(d)


a = sys.argv[1:]
tests = "--tests" in a
a = [x for x in a if not x.startswith("--")]
fs = [p for p in sorted((V / "tools" / "seeds").glob("*.py")) if not a or any(x in p.stem for x in a)]
with ThreadPoolExecutor(2 if tests else 6) as ex:
    for r in ex.map(lambda p: one(p, tests), fs):
        print(r, flush=True)
