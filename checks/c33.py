from hca import terms as T
from hca import events as E
from hca.equiv import equal, split_raise
from hca.linear import Facts
from hca.terms import mk
from .figures import call_of, method_calls, runs_main

TECHNIQUE = "abstract evaluation of the collection script over arbitrary option values, its one collection call and its option declarations compared with the defining ones"
MOD = "paper.main_collect_all"
PARTS = {"honeycomb_problems", "surface_code_problems", "collect_simulated_experiment_data"}
OPTIONS = {"surface_code_problems_directory": "str", "out_file": "str", "problem_id": "int", "case_reduction": "int", "max_shots": "int", "max_errors": "int", "max_batch_size": "int"}


def parsed(t):
    return t.op == "mcall" and t.args[0] == "parse_args" and not t.args[2] and not t.args[3]


def options(t):
    """Every way of reading a parsed option becomes $opt(name); they are None unless given."""
    def opt(name):
        return mk("call", "$opt", (T.const(name),), ())

    def f(x):
        if x.op == "attr" and parsed(x.args[0]):
            return opt(x.args[1])
        if x.op == "idx" and T.strval(x.args[1]) is not None and x.args[0].op == "call" and x.args[0].args[0] == "vars" and parsed(x.args[0].args[1][0]):
            return opt(T.strval(x.args[1]))
        if x.op == "mcall" and x.args[0] == "get" and x.args[1].op == "call" and x.args[1].args[0] == "vars" and parsed(x.args[1].args[1][0]) and T.strval(x.args[2][0]) is not None:
            return opt(T.strval(x.args[2][0]))
        if x.op == "call" and x.args[0] == "getattr" and len(x.args[1]) >= 2 and parsed(x.args[1][0]) and T.strval(x.args[1][1]) is not None:
            return opt(T.strval(x.args[1][1]))
        return None
    return T.transform(t, f)


def declared(c, site, world):
    """{option: type} as declared to the parser."""
    rule = "every option is declared once, optional, without a default and with its type"
    out = {}
    for name, recv, pos, kw, loops, guards in method_calls(world):
        if name != "add_argument":
            continue
        flags = [T.strval(p) for p in pos]
        if not c.ob(rule, site, bool(flags) and None not in flags and not guards and not loops, f"add_argument({[T.show(p) for p in pos]}) under {[T.show(g)[:100] for g in guards]}"):
            continue
        long = [f for f in flags if f.startswith("--")] or flags
        dest = T.strval(kw["dest"]) if "dest" in kw else long[0].lstrip("-").replace("-", "_")
        c.ob(rule, site, all(f.startswith("-") for f in flags), f"{flags} must always be given")
        c.ob(rule, site, kw.get("required", T.FALSE) == T.FALSE, f"{dest} is required")
        c.ob(rule, site, kw.get("default", T.NONE) == T.NONE, f"{dest} defaults to {T.show(kw.get('default', T.NONE))}")
        odd = set(kw) & {"nargs", "action", "const", "choices"}
        c.ob(rule, site, not odd, f"{dest}: {sorted(odd)}")
        ty = kw.get("type")
        c.ob(rule, site, dest not in out, f"{dest} is declared twice")
        out[dest] = ("--" + dest in flags, ty.args[0].split(".")[-1] if ty is not None and ty.op == "ext" else "str" if ty is None else T.show(ty))
    for k, t in OPTIONS.items():
        if c.ob(rule, site, k in out, f"--{k} is not an option"):
            c.ob(rule, site, out[k] == (True, t), f"--{k} is declared as {out[k]}, not as {t}")
    return out


def collection(e):
    if E.ev_kind(e) == "OP" and e.args[1].op == "occ" and e.args[1].args[0] == "collect_simulated_experiment_data":
        return mk("ev", "CALL", mk("call", "collect", (e.args[1].args[1],), ()))
    return None


def check(c):
    site = c.where(MOD, "main")
    a = c.summary(MOD, "main", opaque=PARTS, effectful={"collect_simulated_experiment_data"})
    b = c.summary("spec_collection", "main", opaque=PARTS, effectful={"collect_simulated_experiment_data"})
    ca, wa = split_raise(a.world)
    cb, wb = split_raise(b.world)
    declared(c, site, wa)
    c.ob("no option value is refused", site, ca == T.FALSE, T.show(ca)[:300])
    m, pr = equal(options(E.project(wa, collection)), options(E.project(wb, collection)), Facts())
    c.count("cases compared", pr.cases)
    c.ob("exactly one collection of the requested problems runs under the requested limits", site, m is None, m.describe() if m else "")
    for v in (T.const("-"), T.const("")):
        s = c.summary(MOD, "surface_code_problems", args={"directory": v})
        w = split_raise(s.world)[1]
        c.ob("no surface code problems without a directory", c.where(MOD, "surface_code_problems"), s.ret == T.lst([]) and not w.args, f"directory {T.show(v)}: {T.show(s.ret)[:300]}")
    runs_main(c, MOD)
