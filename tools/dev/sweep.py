"""sweep.py [--tests] [transforms...]: apply each refactoring of refactor.py to all of /repo/src and run every check on the result."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactor
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".."))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
pids = [a for a in args if a.startswith("C") and a[1:].isdigit()] or sorted(f[:-3].upper() for f in os.listdir(V + "/checks") if f[0] == "c" and f[1:3].isdigit())
trs = [a for a in args if a in refactor.ALL] or list(refactor.ALL)
only = [a for a in args if ".py" in a]
for tr in trs:
    d = tempfile.mkdtemp(prefix="hcsw")
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        shutil.copytree(V, d + "/v", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        n = refactor.run(tr, d + "/repo/src", only[0] if only else None)
        msg = f"== {tr}: {n} files"
        if "--tests" in sys.argv:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "8", "src"], cwd=d + "/repo", capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=d + "/repo/src", MPLBACKEND="Agg"))
            msg += " tests: " + r.stdout.strip().splitlines()[-1] if r.stdout.strip() else " tests: " + r.stderr[-200:]
        print(msg, flush=True)

        def one(pid):
            try:
                r = subprocess.run([sys.executable, "run.py", pid], cwd=d + "/v", capture_output=True, text=True, env=dict(os.environ, HC_REPO=d + "/repo"), timeout=850)
            except subprocess.TimeoutExpired:
                return pid, "timeout", ""
            return pid, r.returncode, (r.stdout + r.stderr)
        with ThreadPoolExecutor(6) as ex:
            for pid, rc, out in ex.map(one, pids):
                if rc != 0:
                    lines = [l for l in out.splitlines() if l.strip()]
                    print(f"  {pid} rc={rc}", "\n     ".join(l[:330] for l in (lines[:6] if rc == 1 else lines[-4:])), flush=True)
    finally:
        shutil.rmtree(d)
