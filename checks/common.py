"""Rules shared by several checks."""
import ast

from hca import terms as T
from hca.engine import AnalysisBroken, ann
from hca.terms import mk, const, num, item, lst, TRUE, FALSE, NONE, EMPTY


def _kw(call, name):
    if isinstance(call, ast.Call):
        for k in call.keywords:
            if k.arg == name:
                return k.value
    return None


def _flag(call, name, default):
    v = _kw(call, name)
    if v is None:
        return default
    if isinstance(v, ast.Constant):
        return bool(v.value)
    return None


def value_class(c, name, fields, order=False):
    """A frozen value class whose equality, hash (and order) are those of the tuple of all its fields."""
    ci = c.p.find_class(name)
    if ci is None:
        raise AnalysisBroken(f"no class {name}")
    site = f"{ci.module.name}.py:{ci.node.lineno} class {name}"
    deco = [d for d in ci.node.decorator_list if "dataclass" in ast.unparse(d).split("(")[0]]
    named = any(b.split(".")[-1] == "NamedTuple" for b in ci.bases)
    d = deco[0] if deco else None
    c.ob("the class is a dataclass (or named tuple)", site, d is not None or named, "no dataclass decorator")
    if d is not None:
        c.ob("instances are frozen", site, _flag(d, "frozen", False) is True, ast.unparse(d))
        c.ob("equality is generated from the fields", site, _flag(d, "eq", True) is True, ast.unparse(d))
        if order:
            c.ob("ordering is generated from the fields", site, _flag(d, "order", False) is True, ast.unparse(d))
    got = [f for f, _, _ in ci.fields]
    for f in fields:
        c.ob(f"parameter {f} is a field of the identity", site, f in got, f"fields are {got}")
    c.ob("the identity has exactly the documented parameters", site, set(got) <= set(fields), f"fields are {got}")
    for f, t, v in ci.fields:
        bad = []
        if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == "field":
            for k in ("compare", "hash"):
                if _kw(v, k) is not None and not (isinstance(_kw(v, k), ast.Constant) and _kw(v, k).value in ((True,) if k == "compare" else (True, None))):
                    bad.append(ast.unparse(v))
            if _flag(v, "init", True) is not True:
                bad.append(ast.unparse(v))
        if "ClassVar" in t or "InitVar" in t:
            bad.append(t)
        c.ob(f"field {f} takes part in equality, hashing and ordering", site, not bad, str(bad))
    banned = {"__eq__", "__ne__", "__hash__", "__lt__", "__le__", "__gt__", "__ge__", "__setattr__", "__delattr__", "__getattribute__", "__new__", "__init__"}
    over = sorted(banned & set(ci.methods)) + sorted(banned & set(ci.consts))
    c.ob("the generated comparison, hash and freezing methods are not overridden", site, not over, f"overrides {over}")
    writes = []
    for m in c.p.modules.values():
        if m.name.startswith("spec_"):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and ast.unparse(n.func) in ("object.__setattr__", "setattr", "object.__delattr__"):
                writes.append(f"{m.name}.py:{n.lineno} {ast.unparse(n)}")
            if isinstance(n, ast.Attribute) and n.attr == "__dict__" and isinstance(getattr(n, "ctx", None), ast.Load):
                writes.append(f"{m.name}.py:{n.lineno} {ast.unparse(n)}")
    c.ob("nothing bypasses freezing with object.__setattr__ or __dict__", site, not writes, "; ".join(writes))
    return ci
