import os

from checks import circuit, c21, c23, surface
from checks.c09 import DECODERS
from hca import report
from hca import terms as T
from hca.equiv import equal, split_raise
from hca.linear import Facts
from hca.terms import const, num, strval

TECHNIQUE = ("value-graph dataflow analysis of the problem lists and of the figure scripts' selections, each name resolved against the library's dispatches "
             "by constant propagation; the circuit files are read as data and every operation in them is pushed through the noise model applied to it")
L = "HoneycombLayout."
GEN = "generate_honeycomb_circuit"
SUITE = "paper.main_collect_all"
FIELDS = ("data_width", "data_height", "noise", "circuit_style", "preserved_observable", "rounds", "code_distance", "num_qubits", "decoder")
COMPARED = ("SD6", "SI1000")


def check(c):
    honey = honeycomb(c)
    surf = surfaces(c)
    suite_list(c)
    if honey and surf:
        comparable(c, honey, surf)
        decoders(c, sorted({d["decoder"] for d in honey + surf}))
        figures(c, honey + surf)
    example(c)


# ------------------------------------------------------------------ the suite


def described(c, site, items):
    out = []
    for e in items:
        p = c21.pair(e)
        d = {f: c21.value(c21.field(p[0], f)) for f in FIELDS} if p else {None: None}
        if not c.ob("each problem's parameters are determined", site, None not in d.values(), T.show(e)[:400]):
            return None
        c.count("problems of the suite")
        out.append(d)
    keys = [tuple(sorted(d.items())) for d in out]
    c.ob("no problem is listed twice", site, len(set(keys)) == len(keys), str([k for k in keys if keys.count(k) > 1][:1]))
    return out


def honeycomb(c):
    site = c.where(SUITE, "honeycomb_problems")
    s = c.summary("spec_problems", "made_honeycomb", opaque={GEN})
    items = c21.elements(s.ret)
    cond = split_raise(s.world)[0]
    if not c.ob("the list of honeycomb problems is determined", site, bool(items) and cond == T.FALSE, T.show(s.ret)[:300]):
        return None
    out = described(c, site, items)
    if out is None:
        return None
    rule = "each honeycomb problem's style, observable and sub-round count are supported by the library"
    seen, supported, styles = {}, {}, {}
    for e, d in zip(items, out):
        call = c21.pair(e)[1]
        ok = call.op == "call" and call.args[0] == GEN
        lay = call.args[1][0] if ok else None
        v = {f: c21.value(c21.field(lay, f)) for f in c21.FIELDS} if ok else {None: None}
        if not c.ob("each problem's circuit is generated from a layout", site, None not in v.values(), T.show(e)[:400]):
            continue
        k = (v["style"], v["obs"], v["sub_rounds"])
        if k not in supported:
            c.count("honeycomb configurations generated")
            m = circuit.prepare(report.Check(c.pid, c.tier))
            run = circuit.Run(m, k[0], k[1], num(k[2]))
            c.functions |= m.functions
            supported[k] = not run.raises and run.ops is not None
            c.ob(rule, site, supported[k], f"style {k[0]}, observable {k[1]}, {k[2]} sub-rounds: no circuit is generated")
            if supported[k] and k[0] not in styles:
                styles[k[0]] = set()
            if supported[k]:
                c21.ops(run.ops, styles[k[0]], [], "")
    for st, names in sorted(styles.items()):
        for name in sorted(names):
            s = c.summary("spec_problems", "accepts", args=dict(style=const(st), name=const(name)))
            c.ob("each operation of a honeycomb problem has a rule in its noise model", site, not circuit.raising(s) and split_raise(s.world)[0] == T.FALSE, f"{name} in style {st}")
    return out


def surfaces(c):
    site = c.where(SUITE, "surface_code_problems")
    opaque = {"NoiseModel.noisy_circuit"} | c21.MODELS
    directory = T.sym("directory", "str")
    f = Facts().assume(T.not_(T.isnone(directory)))
    for x in ("-", ""):
        f = f.assume(T.not_(T.eq(directory, const(x))))
    s = c.summary("spec_problems", "made_surface", opaque=opaque)
    lists = [x for x in c21.branches(f.reduce(s.ret)) if x.op != "lst" or x.args]
    items = c21.elements(lists[0]) if len(lists) == 1 else None
    if not c.ob("the list of surface code problems is determined", site, bool(items), T.show(s.ret)[:300]):
        return None
    out = described(c, site, items)
    if out is None:
        return None
    base = os.path.join(report.SRC, "paper", "surface_code_circuits")
    known = surface.files(base)
    vocab, probed = {}, {}
    for e, d in zip(items, out):
        t = c21.pair(e)[1]
        paths = {path_of(x.args[0], directory) for x in T.subterms(t) if x.op == "file"}
        rel = paths.pop() if len(paths) == 1 else None
        if not c.ob("the circuit file of each surface code problem is determined", site, rel is not None, T.show(t)[:400]):
            continue
        if not c.ob("every surface code problem has its circuit file in the repository", site, rel in known, f"{d['circuit_style']} observable {d['preserved_observable']} distance {d['code_distance']} "
                    f"reads {rel}"):
            continue
        ok = t.op == "call" and t.args[0] == "NoiseModel.noisy_circuit" and t.args[1][0].op == "call"
        model = t.args[1][0].args[0] if ok else None
        if not c.ob("each surface code problem's circuit goes through a noise model", site, ok and model in c21.MODELS, T.show(t)[:400]):
            continue
        style = d["circuit_style"]
        c.ob("each surface code problem's style names its noise model", site, style == "surface_" + model.split(".")[1], f"style {style}, noise model {model}")
        if rel not in vocab:
            vocab[rel] = sorted(surface.facts(known[rel])[0])
            c.count("circuit files read")
        for name in vocab[rel]:
            k = (model, name)
            if k not in probed:
                c.count("file operations looked up in a noise model")
                r = c.summary("spec_problems", "accepts_in", args=dict(model=const(model.split(".")[1]), name=const(name)))
                probed[k] = not circuit.raising(r) and split_raise(r.world)[0] == T.FALSE
            c.ob("circuit files are written only in operations their noise model accepts", site, probed[k], f"{name} in {rel} with {model}")
    for m in {k[0] for k in probed}:
        r = c.summary("spec_problems", "accepts_repeat_in", args=dict(model=const(m.split(".")[1])))
        c.ob("circuit files are written only in operations their noise model accepts", site, not circuit.raising(r) and split_raise(r.world)[0] == T.FALSE, f"REPEAT with {m}")
    return out


def path_of(t, directory):
    """The part of a path below the directory symbol."""
    if t.op == "strcat" and len(t.args) >= 2 and t.args[0] == directory:
        s = "".join(strval(x) if strval(x) is not None else "\0" for x in t.args[1:])
        return os.path.normpath(s.lstrip("/")) if "\0" not in s else None
    return None


def suite_list(c):
    """What is collected is the two lists together, or one element of them."""
    site = c.where(SUITE, "collect_data")
    op = {GEN, "collect_simulated_experiment_data", "surface_code_circuit"}
    args = c.spec_args(SUITE, "collect_data", "spec_problems", "ref_collected")
    collected = lambda w: [x.args[1][0] for x in T.subterms(split_raise(w)[1]) if x.op == "call" and x.args[0] == "collect_simulated_experiment_data"]
    refs = [x for q in ("ref_collected", "ref_collected_2") for x in collected(c.summary("spec_problems", q, opaque=op, args=args).world)]
    calls = collected(c.summary(SUITE, "collect_data", opaque=op).world)
    if c.ob("the problems are collected in one run", site, len(calls) == 1, f"{len(calls)} calls"):
        ok = calls[0] in refs or any(equal(calls[0], r)[0] is None for r in refs)
        c.ob("the suite is the honeycomb problems and the surface code problems of the given or the repository's directory", site, ok, T.show(calls[0])[:600])


def comparable(c, honey, surf):
    site = c.where(SUITE, "surface_code_problems")
    noise = lambda ds: sorted({d["noise"] for d in ds})
    want = noise(honey)
    c.ob("both codes use the same noise values", site, noise(surf) == want, f"honeycomb {want}, surface code {noise(surf)}")
    dec = sorted({d["decoder"] for d in honey})
    c.ob("both codes use the same decoders", site, sorted({d["decoder"] for d in surf}) == dec, f"honeycomb {dec}")
    size = {"honeycomb": lambda d: d["code_distance"] / 4, "surface": lambda d: (d["code_distance"] + 1) / 4}
    steps = None
    for code, ds in (("honeycomb", honey), ("surface", surf)):
        here = c.where(SUITE, code + ("_problems" if code == "honeycomb" else "_code_problems"))
        cases = {}
        for d in ds:
            c.ob("every problem runs three rounds per unit of code distance", here, d["rounds"] == 3 * d["code_distance"], f"{d['rounds']} rounds at distance {d['code_distance']}")
            cases.setdefault((d["circuit_style"], d["preserved_observable"], d["decoder"]), []).append((size[code](d), d["noise"]))
        if code == "honeycomb":
            steps = sorted({s for x in cases.values() for s, _ in x})
        full = sorted((s, p) for s in steps for p in want)
        for k, x in sorted(cases.items()):
            c.ob("each case is run at every noise value and every size, honeycomb distances 4u against surface code distances 4u-1", here, sorted(x) == full,
                 f"{k}: sizes {sorted({s for s, _ in x})} instead of {steps}, {len(x)} of {len(full)} combinations")
        styles = {k[0] for k in cases}
        for st in styles:
            for dc in dec:
                obs = {k[1] for k in cases if k[0] == st and k[2] == dc}
                c.ob("each style is run with both observables and every decoder", here, obs == (set("VH") if code == "honeycomb" else set("XZ")), f"{st} with {dc}: observables {sorted(obs)}")
        c.ob("the noise models compared between the codes are run for both", here, {f"{code}_{m}" for m in COMPARED} <= styles, f"styles {sorted(styles)}")


def decoders(c, names):
    site = c.where("decoding", "sample_decode_count_correct")
    s = c.summary("decoding", "sample_decode_count_correct", opaque={d for d, _ in DECODERS.values()})
    dec = T.sym("decoder", "str")
    for name in names:
        f = Facts().assume(T.eq(dec, const(name)))
        c.ob("every decoder of the suite is supported by the library", site, f.simplify(split_raise(f.reduce(s.world))[0]) != T.TRUE, f"decoder {name}")


# ------------------------------------------------------------------ the figures

SELECTORS = (
    ("paper.main_render_threshold_figure", "plot_thresholds", "focused"),
    ("paper.main_render_lambda_figure", "plot_lambda_line_fits_combo", "focus"),
    ("paper.main_render_lambda_figure", "plot_lambda_combo", None),
    ("paper.main_render_lambda_figure", "plot_teraquop_combo", None),
    ("paper.main_render_detection_fraction_figure", "plot_detection_fraction", None),
)
VARIANT = {"honeycomb_EM3"}


def figures(c, suite):
    """Every group a figure asks for is one the suite fills."""
    for mod, q, flag in SELECTORS:
        site = c.where(mod, q)
        extra = VARIANT if "detection" in mod else set()
        data = list(suite)
        for d in suite if extra else ():
            if d["circuit_style"] == "honeycomb_EM3_v2":
                data += [dict(d, circuit_style=x) for x in extra]
        for value in (T.TRUE, T.FALSE) if flag else (None,):
            k = report.Check(c.pid, c.tier)
            k.p.patch("LambdaGroup", "ModelGroups")
            args = {flag: value} if flag else {}
            s = k.summary(mod, q, args=args, opaque={"ProblemShotData.grouped_by", "selected", "plot_data"}, effectful={"selected", "plot_data"})
            c.functions |= k.functions
            c.count("figures evaluated")
            sel = selections(s)
            if not c.ob("the figure selects groups of the data", site, bool(sel), "no selection found"):
                continue
            for chain in sel:
                c.count("figure selections")
                names, vals = [], []
                for by, key in chain:
                    n, v = by_fields(by), key_values(key)
                    if not c.ob("what a figure groups by is determined", site, n is not None, T.show(by)[:300]):
                        break
                    if own_key(by, key):
                        continue
                    if not c.ob("what a figure selects is determined", site, v is not None and len(v) == len(n), f"grouped by {n}, selected {T.show(key)[:200]}"):
                        break
                    names += n
                    vals += v
                else:
                    chosen(c, site, q, data, names, vals)


def chosen(c, site, q, data, names, vals):
    known = {"circuit_style", "preserved_observable", "decoder", "noise", "code_distance", "data_width", "data_height", "rounds", "num_qubits"}
    if not c.ob("figures group by recorded fields", site, set(names) <= known, str(names)):
        return
    found = [d for d in data if all(d[n] == v for n, v in zip(names, vals))]
    c.ob("every group a figure selects is produced by the suite", site, bool(found), f"{dict(zip(names, vals))}")
    if found and q in ("plot_lambda_line_fits_combo", "plot_lambda_combo", "plot_teraquop_combo"):
        obs = {d["preserved_observable"] for d in found}
        c.ob("a series that combines observables selects both of one code", site, obs in (set("VH"), set("XZ")), f"{dict(zip(names, vals))}: observables {sorted(obs)}")


def grouping(t):
    """(records grouped, grouping function) if t is a grouping of records."""
    if t.op == "call" and t.args[0] == "ProblemShotData.grouped_by":
        return t.args[1][0], t.args[1][1]
    return None


def sources(t):
    """Whether t holds records of the figure's data, and the chain of (grouping function, key) look-ups that select them."""
    if t.op == "sym":
        return [()]
    if t.op == "ite":
        return sources(t.args[1]) + sources(t.args[2])
    if t.op == "idx" and grouping(t.args[0]):
        data, by = grouping(t.args[0])
        return [x + ((by, t.args[1]),) for x in sources(data)]
    return []


def selections(s):
    """Every chain of look-ups in the grouped data."""
    out = {}
    for t in (s.world, s.ret):
        for x in T.subterms(t):
            g, k = (x.args[0], x.args[1]) if x.op == "idx" else (x.args[1], x.args[0]) if x.op == "in" else (None, None)
            if hasattr(g, "op") and grouping(g):
                data, by = grouping(g)
                for chain in sources(data):
                    chain += ((by, k),)
                    out[tuple((b.key, q.key) for b, q in chain)] = chain
    return list(out.values())


def by_fields(f):
    """The fields of a record a grouping function returns."""
    if f.op != "lam" or len(f.args[0]) != 1:
        return None
    x, body = f.args[0][0], f.args[1]
    parts = [body] if body.op == "attr" else c21.elements(body)
    if not parts or any(p.op != "attr" or p.args[0] != x for p in parts):
        return None
    return [p.args[1] for p in parts]


def own_key(by, k):
    """A key that comes from the grouping itself (a loop over its groups)."""
    return any(y.op in ("keys", "items", "sorted", "values") for y in T.subterms(k))


def key_values(t):
    s = c21.value(t)
    if s is not None:
        return [s]
    xs = c21.elements(t) or (list(t.args) if t.op in ("tup", "tuple") else None)
    if xs is None:
        return None
    vs = [c21.value(x) for x in xs]
    return None if None in vs else vs


# ------------------------------------------------------------------ the example


def example(c):
    site = c.where("main_example", "main")
    op = {"collect_simulated_experiment_data", "plot_data", "read_recorded_data", GEN}
    s = c.summary("main_example", "main", opaque=op)
    cond, world = split_raise(s.world)
    c.ob("the example program's layouts are supported", site, cond == T.FALSE, T.show(cond)[:300])
    calls = {x.args[0]: x for x in T.subterms(world) if x.op == "call" and x.args[0] in op}
    run, plot, read = (calls.get(x) for x in ("collect_simulated_experiment_data", "plot_data", "read_recorded_data"))
    if not c.ob("the example program collects, reads back and plots", site, None not in (run, plot, read), str(sorted(calls))):
        return
    ps = c21.elements(run.args[1][0])
    if not c.ob("the example program's problems are determined", site, bool(ps), T.show(run.args[1][0])[:300]):
        return
    names = set()
    for p in ps:
        d = c21.field(p, "desc")
        v = {f: c21.value(c21.field(d, f)) for f in FIELDS} if d is not None else {None: None}
        if c.ob("the example program's problems are determined", site, None not in v.values(), T.show(p)[:300]):
            names.add((v["decoder"], v["circuit_style"], v["preserved_observable"]))
    decoders(c, sorted({n[0] for n in names}))
    for _, style, obs in sorted(names):
        ok = style.startswith("honeycomb_") and style[10:] in circuit.STYLES and obs in ("V", "H")
        c.ob("the example program's styles and observables are supported", site, ok, f"style {style}, observable {obs}")
    written = [a for a in run.args[1] if strval(a) is not None]
    paths = c21.elements(read.args[1][0]) or [read.args[1][0]]
    c.ob("the example program plots the file it collected", site, len(written) == 1 and [strval(x) for x in paths] == [strval(written[0])],
         f"collects into {[strval(x) for x in written]}, reads {[T.show(x) for x in paths]}")
