"""Attributes and arguments of library objects, from pyright's inferred types.

Only what pyright says about an attribute or parameter that the inferred type completely lacks is kept, and only for types whose
inference can be relied on: annotations of this code base that are looser or stricter than the truth must not raise anything.
"""
import ast
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

PLAIN = (int, float, complex, str, bytes, bool, list, tuple, dict, set, frozenset, type(None), range, slice, type)
ARRAYS = {"Axes", "Figure", "ndarray", "NDArray", "Sequence", "Iterable", "Collection", "Iterator", "Generator", "Mapping"}
FAMILIES = ({"CircuitInstruction", "CircuitRepeatBlock"}, {"DemInstruction", "DemRepeatBlock", "DemTarget", "DemTargetWithCoords"})
LOOSE = ("numpy", "scipy", "matplotlib")
ARRAY_NAMES = {"flat", "flatten", "ravel", "shape", "size", "ndim", "dtype", "T", "reshape", "copy", "sum", "mean", "min", "max", "any", "all", "item", "tolist",
               "astype", "nonzero", "sort", "argsort", "transpose", "tofile", "tobytes", "fill", "dot", "cumsum", "std", "var", "round", "clip", "real", "imag", "conj",
               "prod", "repeat", "swapaxes", "squeeze", "take", "trace", "view", "itemsize", "nbytes", "strides", "base", "data", "flags", "ctypes", "argmax",
               "argmin", "put", "choose", "compress", "conjugate", "cumprod", "diagonal", "searchsorted", "setflags", "newbyteorder", "ptp", "resize", "tostring",
               "argpartition", "partition", "byteswap", "dump", "dumps", "getfield", "setfield", "itemset"}


def venv_python():
    p = "/opt/venv/bin/python"
    return p if os.path.exists(p) else sys.executable


def stub_members(names):
    """Members of the stim classes of those names, from its stub file."""
    out = set()
    for f in glob.glob("/opt/venv/lib/python3*/site-packages/stim/__init__.pyi"):
        for n in ast.parse(open(f, encoding="utf-8").read()).body:
            if isinstance(n, ast.ClassDef) and n.name in names:
                out |= {x.name for x in n.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
                out |= {x.target.id for x in n.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)}
    return out


def mentions(lib, name):
    """Does any file of the installed library mention the name?"""
    for d in glob.glob("/opt/venv/lib/python3*/site-packages/" + lib):
        for f in glob.glob(d + "/**/*.py*", recursive=True):
            if f.endswith((".py", ".pyi")) and "/tests/" not in f:
                with open(f, encoding="utf-8", errors="replace") as h:
                    if re.search(rf"\b{name}\b", h.read()):
                        return True
    return False


def diagnostics(src):
    """pyright's diagnostics over the source folder, or None when it gives none."""
    exe = shutil.which("pyright")
    if exe is None:
        return None
    d = tempfile.mkdtemp(prefix="hcpy")
    try:
        rel = os.path.relpath(os.path.realpath(src), os.path.realpath(d))
        with open(os.path.join(d, "pyrightconfig.json"), "w") as f:
            json.dump({"include": [rel], "exclude": ["**/*_test.py", "**/__pycache__"], "extraPaths": [rel], "typeCheckingMode": "basic"}, f)
        r = subprocess.run([exe, "-p", os.path.join(d, "pyrightconfig.json"), "--pythonpath", venv_python(), "--outputjson"],
                           capture_output=True, text=True, timeout=400, cwd=d)
        out = json.loads(r.stdout)
    except (OSError, ValueError, subprocess.SubprocessError):
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if not out.get("summary", {}).get("filesAnalyzed"):
        return None
    return out


class Typed:
    def __init__(self, program, src, resolver):
        self.tolerated, self.classes, self.subclassed = resolver.tolerated, resolver.classes, resolver.subclassed
        self.p, self.src = program, src
        self.modules = {n.split(".")[0] for n in program.modules}
        self.plain = set().union(*(set(dir(t)) for t in PLAIN)) | ARRAY_NAMES
        self.repo = set()
        self.defined = {n.name for m in program.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef)}
        self.functions = {n.name for m in program.modules.values() for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        for m in program.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.repo.add(n.name)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    self.repo.add(n.target.id)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.repo.add(n.attr)

    def run(self):
        """([(rule, module, line, what)], files analysed) or None."""
        out = diagnostics(self.src)
        if out is None:
            return None
        by_path = {os.path.realpath(m.path): m for m in self.p.modules.values()}
        found = []
        for d in out["generalDiagnostics"]:
            m = by_path.get(os.path.realpath(d["file"]))
            if m is None:
                continue
            line = d["range"]["start"]["line"] + 1
            what = d["message"].split("\n")[0]
            r = self.kept(d.get("rule"), what, m, d["range"])
            x = re.search(r'"(\w+)"', what)
            if r and not (r == "every attribute exists" and x and self.tolerated(m, line, x[1])):
                found.append((r, m, line, what))
        return found, out["summary"]["filesAnalyzed"]

    def kept(self, rule, what, m, at):
        if rule == "reportAttributeAccessIssue":
            x = re.match(r'"(\w+)" is not a known attribute of module "([\w.]+)"', what)
            if x:
                lib = x[2].split(".")[0]
                return "every attribute exists" if lib in sys.stdlib_module_names or lib not in self.modules and not mentions(lib, x[1]) else None
            x = re.match(r'Cannot access attribute "(\w+)" for class "(.*)"$', what)
            if x and self.absent(x[1], x[2]):
                return "every attribute exists"
            return None
        if rule == "reportCallIssue" and re.match(r'No parameter named "|Expected \d+ positional argument|Arguments? missing for parameter', what):
            root = self.root(m, at)
            if root is not None and root not in LOOSE:
                return "every call passes what its function takes"
        return None

    def absent(self, name, cls):
        kind = bool(re.match(r"type\[", cls))
        base = re.sub(r"^type\[|\]$|\[.*", "", cls).rstrip("*").split(".")[-1].split("@")[0]
        if not re.match(r"^[A-Za-z]\w*$", base) or base in ("Self", "function", "object", "FunctionType", "MethodType", "LinregressResult") or "(" in cls:
            return False
        if kind and base not in ("Circuit", "DetectorErrorModel"):
            return False
        if base in {t.__name__ for t in PLAIN} | ARRAYS | {"Tuple", "List", "Dict", "Set", "None", "Literal"} or base.startswith(("float", "int", "complex", "bool", "signed", "unsigned")):
            return name not in self.plain and name not in self.repo and name not in stub_members({f for fam in FAMILIES for f in fam}) and name not in self.axes()
        if base in self.classes:
            return not self.classes[base].open() and base not in self.subclassed and name not in self.classes[base].attributes()
        if base in self.defined:
            return False
        for fam in FAMILIES:
            if base in fam:
                return name not in stub_members(fam) and name not in self.plain
        return True

    def axes(self):
        """Names matplotlib defines anywhere."""
        if not hasattr(self, "_axes"):
            self._axes = set()
            for f in glob.glob("/opt/venv/lib/python3*/site-packages/matplotlib/**/*.py*", recursive=True):
                if f.endswith((".py", ".pyi")):
                    try:
                        text = open(f, encoding="utf-8").read()
                    except (OSError, UnicodeDecodeError):
                        continue
                    self._axes |= {a or b for a, b in re.findall(r"\bdef (\w+)|^\s+(?:self\.)?(\w+)\s*[:=]", text, re.M)}
        return self._axes

    def root(self, m, at):
        """What the callee of the innermost call around the range starts from: a module's name, '' for a local value, None for none."""
        lo = (at["start"]["line"] + 1, at["start"]["character"])
        best = None
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and (n.lineno, n.col_offset) <= lo <= (n.end_lineno, n.end_col_offset) and (best is None or (n.lineno, n.col_offset) >= (best.lineno, best.col_offset)):
                inside = [*n.args, *n.keywords]
                if any((a.lineno, a.col_offset) <= lo <= (a.end_lineno, a.end_col_offset) for a in inside) or (n.lineno, n.col_offset) == lo:
                    best = n
        if best is None:
            return None
        f = best.func
        if (f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None) in self.functions:
            return None
        while isinstance(f, (ast.Attribute, ast.Call, ast.Subscript)):
            f = f.func if isinstance(f, ast.Call) else f.value
        if not isinstance(f, ast.Name):
            return ""
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name.split(".")[0]) == f.id:
                        return a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.module:
                for a in n.names:
                    if (a.asname or a.name) == f.id:
                        return n.module.split(".")[0]
        return ""
