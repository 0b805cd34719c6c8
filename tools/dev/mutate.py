"""mutate.py <file> [--start N] [--max N] [--func f,g] [--pids C01,..]: small bugs in one production file that no check reports.

Used to look for gaps; not used by any check.
"""
import ast, copy, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".."))
PIDS = {"collect_data.py": "C01 C02 C03 C04 C05 C06 C07 C08", "decoding.py": "C09 C10 C11 C12 C13", "noise.py": "C14 C15", "measure_tracker.py": "C16", "probability_util.py": "C26 C07 C30",
        "plotting.py": "C25 C31", "paper/main_render_lambda_figure.py": "C27 C24 C32", "honeycomb_layout.py": "C20 C23 C21 C22", "honeycomb_circuit.py": "C18 C17 C19 C23",
        "paper/aggregate_csv_data.py": "C01", "paper/main_collect_all.py": "C24 C21 C33", "paper/main_render_threshold_figure.py": "C24", "paper/main_render_detection_fraction_figure.py": "C24",
        "main_example.py": "C24"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.BitXor: ast.BitOr, ast.BitOr: ast.BitXor}


def mutants(tree, funcs):
    """(description, function applying it to a deep copy found by node number)"""
    nodes = list(ast.walk(tree))
    inside = {}
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for x in ast.walk(n):
                if isinstance(n, ast.FunctionDef):
                    inside[id(x)] = n.name
    out = []
    for i, n in enumerate(nodes):
        fn = inside.get(id(n))
        if funcs and fn not in funcs:
            continue
        line = getattr(n, "lineno", 0)

        def add(d, f):
            out.append((f"{line} {fn}: {d}", i, f))
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                if type(o) in CMP:
                    add(f"cmp {type(o).__name__}", lambda m, k=k, o=o: m.ops.__setitem__(k, CMP[type(o)]()))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(f"bin {type(n.op).__name__}", lambda m: setattr(m, "op", BIN[type(m.op)]()))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            add(f"aug {type(n.op).__name__}", lambda m: setattr(m, "op", BIN[type(m.op)]()))
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            add(f"const {n.value}+1", lambda m: setattr(m, "value", m.value + 1))
            if n.value not in (0,):
                add(f"const {n.value}-1", lambda m: setattr(m, "value", m.value - 1))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(f"const {n.value}", lambda m: setattr(m, "value", not m.value))
        if isinstance(n, ast.Constant) and type(n.value) is str and n.value:
            add(f"str {n.value[:20]!r}", lambda m: setattr(m, "value", m.value + "_"))
        if isinstance(n, ast.BoolOp):
            add("and/or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add("test True", lambda m: setattr(m, "test", ast.Constant(True)))
            if not isinstance(n, ast.While):
                add("test False", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            add("swap args", lambda m: m.args.insert(0, m.args.pop(1)))
        if isinstance(n, ast.Call) and n.keywords:
            for k in range(len(n.keywords)):
                add(f"drop {n.keywords[k].arg}", lambda m, k=k: m.keywords.pop(k))
        if isinstance(n, ast.UnaryOp):
            add("drop unary", lambda m: (setattr(m, "op", ast.UAdd()) if isinstance(m.op, ast.USub) else setattr(m, "operand", ast.UnaryOp(op=ast.Not(), operand=m.operand))))
        if isinstance(n, ast.comprehension) and n.ifs:
            add("drop comp if", lambda m: m.ifs.clear())
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign, ast.Raise, ast.Assert, ast.Break, ast.Continue)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        out.append((f"{s.lineno} {inside.get(id(s))}: delete {ast.unparse(s)[:50]}", i, lambda m, fld=fld, k=k: getattr(m, fld).__setitem__(k, ast.Pass())))
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
            add("swap elements", lambda m: m.elts.insert(0, m.elts.pop(1)))
    return out


def main():
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    f = a[0]
    src = open("/repo/src/" + f).read()
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body = n.body[1:] or [ast.Pass()]
    for n in ast.walk(tree):
        if isinstance(n, ast.arg):
            n.annotation = n.annotation
    ms = mutants(tree, set(opt("--func", "").split(",")) - {""})
    random.Random(int(opt("--seed", "1"))).shuffle(ms)
    ms = ms[int(opt("--start", "0")):][:int(opt("--max", "100000"))]
    pids = opt("--pids", PIDS.get(f, "")).replace(",", " ").split()
    work = [tempfile.mkdtemp(prefix="hcmu") for _ in range(8)]
    for d in work:
        shutil.copytree("/repo/src", d + "/repo/src")
        shutil.copytree(V, d + "/v", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
    free = list(work)

    def one(m):
        d, i, g = m
        t = copy.deepcopy(tree)
        g(list(ast.walk(t))[i])
        ast.fix_missing_locations(t)
        try:
            code = ast.unparse(t)
            compile(code, f, "exec")
        except Exception as e:
            return d, "uncompilable", ""
        if code == ast.unparse(tree):
            return d, "same", ""
        w = free.pop()
        try:
            open(w + "/repo/src/" + f, "w").write(code)
            res = []
            for pid in pids:
                try:
                    r = subprocess.run([sys.executable, "run.py", pid], cwd=w + "/v", capture_output=True, text=True, env=dict(os.environ, HC_REPO=w + "/repo"), timeout=400)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "T"
                if rc == 1:
                    return d, "caught", pid
                res.append(f"{pid}:{rc}")
            return d, "SURVIVED", " ".join(res)
        finally:
            free.append(w)
    n = {}
    with ThreadPoolExecutor(8) as ex:
        for d, s, x in ex.map(one, ms):
            n[s] = n.get(s, 0) + 1
            if s == "SURVIVED":
                print(d, "|", x if any(not y.endswith(":0") for y in x.split()) else "", flush=True)
    print(n)
    for d in work:
        shutil.rmtree(d)


if __name__ == "__main__":
    main()
