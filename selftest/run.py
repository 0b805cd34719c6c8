#!/usr/bin/env python3
"""Self-test: apply each variant to a scratch copy of /repo/src and run the named checks on it.

Each case: (name, properties, 'quiet' | 'alarm', [(file, old, new), ...]).  Not used by any check.
"""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("HC_REPO0", "/repo")


def load():
    out = []
    for fn in sorted(os.listdir(HERE)):
        if fn.startswith("cases_") and fn.endswith(".py"):
            spec = importlib.util.spec_from_file_location(fn[:-3], os.path.join(HERE, fn))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            out += [(fn[6:-3],) + c for c in m.CASES]
    return out


def one(case):
    grp, name, props, expect, edits = case
    d = tempfile.mkdtemp(prefix="hcst")
    try:
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "repo", "src"))
        shutil.copytree(VERIF, os.path.join(d, "v"), ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        if os.path.isdir(os.path.join(REPO, "surface_code_circuits")):
            os.symlink(os.path.join(REPO, "surface_code_circuits"), os.path.join(d, "repo", "surface_code_circuits"))
        for f, old, new in edits:
            p = os.path.join(d, "repo", "src", f)
            s = open(p).read()
            if old is None:
                s += new
            else:
                if s.count(old) < 1:
                    return [(grp, name, "*", f"EDIT DOES NOT APPLY: {f}: {old[:60]!r}")]
                s = s.replace(old, new)
            compile(s, p, "exec")
            open(p, "w").write(s)
        res = []
        for pid in [q for q in props if os.path.exists(os.path.join(VERIF, "checks", q.lower() + ".py"))]:
            r = subprocess.run([sys.executable, "run.py", pid], cwd=os.path.join(d, "v"), capture_output=True, text=True,
                               env=dict(os.environ, HC_REPO=os.path.join(d, "repo")))
            got = {0: "quiet", 1: "alarm"}.get(r.returncode, "ERROR")
            if got != expect:
                res.append((grp, name, pid, f"expected {expect}, got {got}\n" + (r.stdout + r.stderr)[-1800:]))
        return res
    finally:
        shutil.rmtree(d)


def main():
    sel = sys.argv[1:]
    cases = [c for c in load() if not sel or any(s in c[0] + ":" + c[1] or s in c[2] for s in sel)]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(one, cases):
            for g, n, p, msg in res:
                bad += 1
                print(f"--- {g}:{n} [{p}] {msg}")
    print(f"{len(cases)} cases, {bad} unexpected")
    sys.exit(1 if bad else 0)


main()
