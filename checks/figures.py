"""Reading the calls a plotting function makes."""
from fractions import Fraction

from hca import terms as T
from hca import events as E
from hca.equiv import equal, split_raise
from hca.linear import Facts
from hca.terms import mk


def call_of(e):
    """(method, receiver, positional, keywords) of a plotting call in the effect log, else None."""
    if E.ev_kind(e) not in ("CALL", "OP"):
        return None
    t = e.args[1]
    if t.op == "mcall":
        return t.args[0], t.args[1], t.args[2], dict(t.args[3])
    if t.op == "call":
        return t.args[0].split(".")[-1], None, t.args[1], dict(t.args[2])
    return None


PLACES = {"plot": 2, "scatter": 2, "fill_between": 3}
NAMES = {"plot": ("x", "y"), "scatter": ("x", "y"), "fill_between": ("x", "y1", "y2")}


def entry(t):
    """Which entry of a table of looks is taken (the table itself is decoration)."""
    if t is None:
        return T.NONE
    if t.op == "idx":
        return mk("call", "$entry", (t.args[1],), ())
    return t


def drawn(methods, look=("marker", "color"), text=("label",)):
    """Projection on the given drawing calls: data, label and which entry of the tables of looks."""
    def f(e):
        c = call_of(e)
        if c is None or c[0] not in methods:
            return None
        name, recv, pos, kw = c
        data = list(pos[:PLACES[name]])
        for n in NAMES[name][len(data):]:
            if n in kw:
                data.append(kw[n])
        keep = tuple((k, kw.get(k, T.NONE)) for k in text) + tuple((k, entry(kw.get(k))) for k in look)
        return mk("ev", "CALL", mk("mcall", name, recv, tuple(data), keep))
    return f


def calls(methods, args=True):
    """Projection on the given calls, with their positional arguments."""
    def f(e):
        c = call_of(e)
        if c is None or c[0] not in methods:
            return None
        name, recv, pos, kw = c
        return mk("ev", "CALL", mk("mcall", name, recv if recv is not None else T.NONE, tuple(pos) if args else (), ()))
    return f


def method_calls(world):
    """[(method, receiver, positional, keywords)] of every call in the log, in order."""
    out = []
    for loops, guards, kind, e in E.walk(E.tree(world)):
        if kind == "ev":
            c = call_of(e)
            if c is not None:
                out.append(c + (loops, guards))
    return out


def numbers(t):
    """Exact values of a fully known sequence of numbers, else None."""
    if t.op != "lst" or not all(s.op == "item" for s in t.args):
        return None
    v = [T.numval(s.args[0]) for s in t.args]
    return None if any(x is None for x in v) else v


def texts(t):
    if t.op != "lst" or not all(s.op == "item" for s in t.args):
        return None
    v = [T.strval(s.args[0]) if hasattr(T, "strval") else None for s in t.args]
    return None if any(x is None for x in v) else v


def spells(text, value, percent=False):
    """Does the label denote exactly the value?"""
    s = text.strip()
    try:
        if s.endswith("%"):
            return Fraction(s[:-1]) / 100 == value
        return Fraction(s) == value
    except ValueError:
        return False


def mains(e):
    """Calls of main and nothing else."""
    if E.ev_kind(e) == "OP" and e.args[1].op == "occ" and e.args[1].args[0] == "main":
        return mk("ev", "CALL", mk("call", "main", (e.args[1].args[1],), ()))
    return None


def runs_main(c, mod):
    """The module, run as a script, calls main exactly once; imported, never."""
    import ast
    rule = "running the script runs its main once, importing it does not"
    m = c.p.module(mod)
    site = f"src/{mod.replace('.', '/')}.py"
    body = [x for x in m.tree.body if not isinstance(x, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Assign, ast.AnnAssign))
            and not (isinstance(x, ast.Expr) and (isinstance(x.value, ast.Constant) or "sys.path" in ast.unparse(x)))]
    if not c.ob(rule, site, bool(body), "nothing runs main"):
        return
    f = ast.parse("def script(__name__):\n    pass").body[0]
    f.body = body
    m.funcs["$script"] = f
    try:
        for name in ("__main__", mod):
            a = c.summary(mod, "$script", args={"__name__": T.const(name)}, opaque={"main"}, effectful={"main"})
            b = c.summary("spec_script", "script", args={"name": T.const(name)}, opaque={"main"}, effectful={"main"})
            m2, pr = equal(E.project(split_raise(a.world)[1], mains), E.project(split_raise(b.world)[1], mains), Facts())
            c.ob(rule, site, m2 is None, f"as {name}: {m2.describe()}" if m2 else "")
    finally:
        del m.funcs["$script"]
