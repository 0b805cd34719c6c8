import ast
import os

from hca import ownership as O
from hca import report
from hca import terms as T
from hca.engine import AnalysisBroken
from hca.equiv import split_raise
from .common import value_class

TECHNIQUE = ("class-shape rules for the value class, a flow-sensitive interprocedural ownership analysis of every place that changes an object in place, "
             "and effect and dependency analysis of every derived member and every cache")
CORE = ("honeycomb_layout", "honeycomb_circuit", "noise", "measure_tracker")
L = "HoneycombLayout"
FIELDS = ("data_width", "data_height", "sub_rounds", "style", "obs", "noise")
# what the functions of the library may change of what they are given (everything else they are given is only read)
MAY = {("honeycomb_circuit", "mtrack"), ("measure_tracker", "self"), ("measure_tracker", "out_circuit")}
VALUES = {"HoneycombLayout", "NoiseModel", "Edge", "EdgeType"}
AMBIENT = {"time", "random", "os", "datetime", "uuid", "secrets", "threading", "socket", "subprocess", "tempfile", "getpass", "platform"}
KNOWN = {
    "honeycomb_circuit": ("generate_honeycomb_circuit", "fault_tolerant_init", "fault_tolerant_measurement", "generate_rounds_sd6", "generate_rounds_pc3",
                          "generate_rounds_em3", "generate_cycle_SI1000", "generate_rounds_SI1000"),
    "noise": ("NoiseModel.noisy_op", "NoiseModel.noisy_circuit", "mix_probability_to_independent_component_probability",
              "parity_measurement_with_correlated_measurement_noise"),
    "measure_tracker": ("Prev.__init__", "MeasurementTracker.add_measurements", "MeasurementTracker.add_dummies", "MeasurementTracker.add_group",
                        "MeasurementTracker.append_detector", "MeasurementTracker.get_record_targets", "MeasurementTracker.measurement_time_set"),
}
ARGS = {"generate_honeycomb_circuit": ("lay",), "NoiseModel.noisy_op": ("self", "op", "p", "ancilla"), "NoiseModel.noisy_circuit": ("self", "circuit", "qs", "ancilla"),
        "parity_measurement_with_correlated_measurement_noise": ("t1", "t2", "ancilla", "mix_probability"), "Prev.__init__": ("v", "offset"),
        "MeasurementTracker.add_measurements": ("keys",), "MeasurementTracker.add_dummies": ("keys", "obstacle"),
        "MeasurementTracker.add_group": ("keys", "group_key"), "MeasurementTracker.append_detector": ("keys", "coords"),
        "MeasurementTracker.get_record_targets": ("keys",), "MeasurementTracker.measurement_time_set": ("keys",)}


def modules():
    out = {}
    for base, _, fs in os.walk(report.SRC):
        for f in sorted(fs):
            if f.endswith(".py") and not f.endswith("_test.py") and not f.startswith("test_") and f != "conftest.py":
                rel = os.path.relpath(os.path.join(base, f), report.SRC)[:-3].replace(os.sep, ".")
                out[rel] = ast.parse(open(os.path.join(base, f)).read())
    return out


def check(c):
    value_class(c, L, FIELDS, order=True)
    mods = modules()
    an = O.Analysis(mods)
    ownership(c, an)
    caches(c, an, mods)
    derived(c)
    ambient(c, mods)


def ownership(c, an):
    for f in an.fns:
        c.count("functions whose in-place changes were attributed")
        site = f"src/{f.mod.name.replace('.', '/')}.py:{getattr(f.node, 'lineno', 1)} {f.qual}"
        core = f.mod.name in CORE
        for o in sorted(f.mutates):
            c.count("owners of changed objects")
            where = f.sites.get(o, "")
            kind, name = o[0], o[1]
            if kind == "s":
                c.ob("cached data is never changed", site, False, f"result of {name} changed at {where}")
            elif kind == "g":
                c.ob("module-level tables and other process-wide objects are never changed", site, False, f"{name} changed at {where}")
            elif name in f.params:
                t = annotation(f, name)
                init = name == "self" and f.node.name in ("__init__", "__post_init__", "__setstate__") and f.cls in VALUES - {L}
                bad = t in VALUES and not init
                if core and f.qual in ARGS and name in ARGS[f.qual]:
                    bad = True
                if f.mod.name == "honeycomb_layout" and not f.node.name.startswith("_") and not init and kind == "p" and name in ("config", "lay", "layout"):
                    bad = True
                if core and f.qual in KNOWN.get(f.mod.name, ()) and name != "self" and not ((f.mod.name, name) in MAY or t in ("Circuit", "MeasurementTracker")):
                    bad = True
                c.ob("no function changes the layout, noise model, edges or circuit it is given", site, not bad, f"argument {name} changed at {where}")
    for q in ("generate_honeycomb_circuit", "NoiseModel.noisy_circuit", "NoiseModel.noisy_op"):
        c.ob("the functions that must not change their arguments are analysed", f"src {q}", any(f.qual == q for f in an.fns), f"no function {q}")


def annotation(f, name):
    if name == "self" and f.cls:
        return f.cls
    a = f.anns.get(name)
    if a is None:
        return None
    return ast.unparse(a).strip("'\"").split(".")[-1]


CACHES = ("cached_property", "lru_cache", "cache")


def decorators(node):
    return [ast.unparse(d).split("(")[0].split(".")[-1] for d in node.decorator_list]


def caches(c, an, mods):
    """A cache returns the same object again and again: it must be keyed by everything the result depends on, and not be handed out to be changed."""
    for f in an.fns:
        if not f.cached:
            continue
        site = f"src/{f.mod.name.replace('.', '/')}.py:{f.node.lineno} {f.qual}"
        c.count("caches")
        r = ast.unparse(f.node.returns) if f.node.returns is not None else ""
        c.ob("no circuit under construction is handed out of a cache", site, "Circuit" not in r, f"returns {r}")
        if f.mod.name in CORE and f.cls != L:
            pure(c, f.mod.name, f.qual, site, "cached results depend on nothing but their key")
    for name, tree in mods.items():
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] in CACHES and isinstance(n.func, (ast.Name, ast.Attribute)):
                used = any(n is d for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) for d in x.decorator_list)
                c.ob("caches are applied where the function they remember is defined", f"src/{name.replace('.', '/')}.py:{n.lineno}", used, ast.unparse(n)[:200])
            if isinstance(n, ast.FunctionDef):
                for m in ast.walk(n):
                    if m is not n and isinstance(m, ast.FunctionDef) and set(decorators(m)) & set(CACHES):
                        c.ob("caches are applied where the function they remember is defined", f"src/{name.replace('.', '/')}.py:{m.lineno}", False, f"{n.name} makes a cache")


def pure(c, mod, qual, site, rule):
    try:
        s = c.summary(mod, qual, opaque={"generate_honeycomb_circuit", "NoiseModel.noisy_circuit"} - {qual})
    except AnalysisBroken as e:
        c.ob(rule, site, False, f"not analysable: {e}")
        return
    w = split_raise(s.world)[1]
    c.ob(f"{rule} (no effects)", site, not w.args, T.show(w)[:300])
    node = c.p.find_func(mod, qual)
    a = node.args
    names = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    odd = []
    for x in T.subterms(s.ret):
        if x.op == "sym" and x.args[0] not in names and x.args[0] not in ("<raises>",):
            odd.append(x)
        elif x.op == "occ":
            odd.append(x)
        elif x.op == "ext" and x.args[0].split(".")[0] in AMBIENT | {"sys"}:
            odd.append(x)
        elif x.op == "call" and isinstance(x.args[0], str) and (x.args[0].split(".")[0] in AMBIENT or x.args[0] in ("id", "input", "open")):
            odd.append(x)
    c.ob(f"{rule} (no other sources)", site, not odd, "; ".join(T.show(x)[:120] for x in odd[:4]))


def derived(c):
    ci = c.p.find_class(L)
    for name, node in ci.methods.items():
        if name.startswith("__") and name != "__post_init__" or name in ("make_circuit", "as_decoder_problem", "legend_label"):
            continue
        pure(c, "honeycomb_layout", f"{L}.{name}", f"src/honeycomb_layout.py:{node.lineno} {L}.{name}", "everything derived from a layout depends on its parameters only")


def ambient(c, mods):
    for m in CORE:
        tree = mods.get(m)
        if tree is None:
            continue
        imported = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    imported[a.asname or a.name.split(".")[0]] = a.name
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    imported[a.asname or a.name] = f"{n.module}.{a.name}"
        bad = []
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                src = imported.get(n.id, "")
                if src.split(".")[0] in AMBIENT or src.startswith("numpy.random") or n.id in ("input", "open", "id", "globals") and n.id not in imported:
                    bad.append(f"{m}.py:{n.lineno} {n.id}")
            if isinstance(n, ast.Attribute) and n.attr == "random" and isinstance(n.value, ast.Name) and imported.get(n.value.id) == "numpy":
                bad.append(f"{m}.py:{n.lineno} numpy.random")
        c.ob("layouts, circuits and noise use no clock, random numbers, environment or files", f"src/{m}.py", not bad, "; ".join(bad[:4]))
