import os

from checks import circuit, geometry, surface
from hca import report
from hca import terms as T
from hca.arrays import Canon
from hca.equiv import equal, strip_raise
from hca.terms import const, num, numval, intval, strval

TECHNIQUE = ("value-graph dataflow analysis of the descriptions and circuit makers (closures with their late bindings) of every problem, "
             "compared field by field with the circuit they build; the generated circuit's qubits and gates are read off its abstract evaluation")
L = "HoneycombLayout."
MODELS = {f"NoiseModel.{x}" for x in "SD6 PC3 EM3_v1 EM3_v2 SI1000".split()}
GATES = {"SD6": {"CX", "CNOT", "ZCX"}, "PC3": {"CX", "CNOT", "ZCX"} | {a + "C" + b for a in "XYZ" for b in "XYZ"}, "EM3": {"MPP"}, "EM3_v2": {"MPP"},
         "SI1000": {"CZ", "ZCZ"}}
FIELDS = ("data_width", "data_height", "noise", "style", "obs", "sub_rounds")
GEN = "generate_honeycomb_circuit"


def check(c):
    mod = "honeycomb_layout"
    c.agrees(mod, L + "as_decoder_problem_desc", "spec_problems", "ref_desc", also=("ref_desc_2", "ref_desc_3"), raises="set", post=Canon(),
             opaque={L + "num_qubits"}, rule="the description carries the layout's own parameters")
    c.agrees("spec_problems", "made", "spec_problems", "ref_made", raises="set", post=Canon(), opaque={L + "as_decoder_problem_desc", GEN},
             rule="a problem pairs a layout's description with that layout's circuit", site=c.where(mod, L + "as_decoder_problem"))
    c.agrees(mod, L + "make_circuit", "spec_problems", "ref_circuit", raises="set", post=Canon(), opaque={GEN}, rule="the circuit is generated from the layout itself")
    c.agrees(mod, L + "noise_model", "spec_problems", "ref_noise_model", raises="set", post=Canon(), opaque=MODELS,
             rule="each style has its own noise model, of the layout's noise")
    c.agrees(mod, L + "code_distance_1qdep", "spec_problems", "ref_distance", raises="set", post=Canon(), rule="distance")
    for style in circuit.STYLES:
        f = Facts_style(style)
        c.agrees(mod, L + "num_qubits", "spec_layout", "ref_count", also=("ref_count_1",), raises="set", post=Canon(), facts=f, rule=f"qubit count of style {style}")
        generator(c, style)
    c.agrees(mod, L + "used_qubit_coords", "spec_layout", "ref_used", raises="set", post=Canon(), opaque={L + "q2i", L + "data_qubit_coords"},
             rule="qubits of the style")
    geometry.load()
    for tw in range(1, 4):
        for th in range(1, 4):
            for style in circuit.STYLES:
                t = geometry.Torus(2 * tw, 6 * th, style)
                c.ob("reference geometry: the qubit count of a style is the number of its qubits", "spec/spec_layout.py",
                     len(geometry.NS["ref_used"](t)) == geometry.NS["ref_count"](t), f"{style} {2 * tw}x{6 * th}")
    honeycomb_list(c)
    one = {"NoiseModel.noisy_circuit"} | MODELS
    c.agrees("spec_problems", "made_one", "spec_problems", "ref_one", raises="set", post=Canon(), opaque=one,
             rule="a surface code problem describes the file, model and size of its circuit", site=c.where("paper.main_collect_all", "surface_code_problem"))
    surface_list(c, one)


def Facts_style(style):
    from hca.linear import Facts
    return Facts().assume(T.eq(T.mk("attr", T.sym("self", "HoneycombLayout"), "style", "str"), const(style)))


# ------------------------------------------------------------------ the generator of each style


def generator(c, style):
    m = circuit.prepare(report.Check(c.pid, c.tier))
    site = c.where("honeycomb_circuit", GEN) + f" style {style}"
    for n in (3, 36):
        run = circuit.Run(m, style, "V", num(n))
        c.functions |= m.functions
        rule = f"style {style} has a generator built from recognised operations"
        if not c.ob(rule, site, not run.raises and run.ops is not None, str(run.out[:1])[:600] if run.out else "the generator fails"):
            return
        r = run.s.ret
        ok = r.op == "call" and r.args[0] == "spec_noisy" and strval(r.args[1][0]) == style
        c.ob("the finished circuit goes once through the layout's noise model", site, ok and noise_of(r.args[1][1]), T.show(r)[:300])
        c.ob("no other noise is applied to a part of the circuit", site, sum(x.op == "call" and x.args[0] == "spec_noisy" for x in T.subterms(r)) == 1, T.show(r)[:300])
        names, bad = set(), []
        ops(run.ops, names, bad, style)
        two = names & (set(circuit.PAIRS) | {"MPP"})
        c.ob(f"two-qubit interactions are those of the style", site, bool(two) and two <= GATES[style] and (style != "PC3" or {circuit.PAIRS[g][0] for g in two} == set("XYZ")), f"{sorted(two)}")
        c.ob("only the style's qubits are touched", site, not bad, "; ".join(bad[:3]))
        first = [o for o in run.ops if o[0] == "op" and o[1] == "R"][:1]
        c.ob("every qubit of the style is used", site, covers(run, first), "the first reset does not cover the qubits of the style")


def noise_of(t):
    return t.op == "sym" and "noise" in str(t.args[0]) or t.op == "attr" and t.args[1] == "noise"


def ops(nodes, names, bad, style):
    for o in nodes:
        if o[0] == "repeat":
            ops(o[2], names, bad, style)
        elif o[0] == "if":
            ops(o[2], names, bad, style)
            ops(o[3], names, bad, style)
        else:
            names.add(o[1])
            if style in circuit.DIRECT and o[1] not in circuit.NOTES:
                for x in T.subterms(o[2]):
                    if x.op == "attr" and x.args[1] == "center" or x.op == "call" and x.args[0] == "spec_ancillas":
                        bad.append(f"{o[1]} acts on an ancilla: {T.show(x)[:100]}")


def covers(run, first):
    if not first:
        return False
    t = first[0][2]
    for s in t.args if t.op == "lst" else ():
        if s.op == "rep":
            try:
                if run.cls(run.source(s.args[0])) == ("u",):
                    return True
            except circuit.Odd:
                pass
    return any(x.op == "call" and x.args[0] == "spec_used" for x in T.subterms(t))


# ------------------------------------------------------------------ the lists of problems


def elements(t):
    """The elements of a list all of whose elements are known."""
    if t.op in ("seq", "lstv") and t.args:
        t = t.args[0]
    if t.op != "lst":
        return None
    out = []
    for s in t.args:
        if s.op == "item":
            out.append(s.args[0])
        elif s.op == "spread" and elements(s.args[0]) is not None:
            out += elements(s.args[0])
        else:
            return None
    return out


def pair(e):
    x = elements(e)
    return x if x is not None and len(x) == 2 else None


def field(o, name):
    if o.op == "obj":
        for k, v in o.args[1]:
            if k == name:
                return v
    return None


def value(t):
    if t is None:
        return None
    s = strval(t)
    if s is not None:
        return s
    i = intval(t)
    return i if i is not None else numval(t)


def honeycomb_list(c):
    site = c.where("paper.main_collect_all", "honeycomb_problems")
    s = c.summary("spec_problems", "made_honeycomb", opaque={GEN})
    items = elements(s.ret)
    if not c.ob("the list of honeycomb problems is determined", site, bool(items), T.show(s.ret)[:300]):
        return
    for e in items:
        p = pair(e)
        c.count("honeycomb problems")
        if p is None or p[1].op != "call" or p[1].args[0] != GEN:
            c.ob("each problem's circuit is generated from its own layout", site, False, T.show(e)[:400])
            continue
        d, lay = p[0], p[1].args[1][0]
        v = {f: value(field(lay, f)) for f in FIELDS}
        got = {f: value(field(d, f)) for f in ("data_width", "data_height", "noise", "circuit_style", "preserved_observable", "rounds", "code_distance", "num_qubits")}
        if None in v.values() or None in got.values():
            c.ob("each problem's parameters are determined", site, False, T.show(e)[:400])
            continue
        w, h = v["data_width"], v["data_height"]
        want = dict(data_width=w, data_height=h, noise=v["noise"], circuit_style="honeycomb_" + v["style"], preserved_observable=v["obs"],
                    rounds=-(-v["sub_rounds"] // 3), code_distance=min(w, h // 3 * 2), num_qubits=w * h if v["style"] in circuit.DIRECT else w * h * 5 // 2)
        c.ob("each problem's description is that of the circuit it makes", site, want == got, f"described {got}, made from {v}")


def surface_list(c, opaque):
    mod = "paper.main_collect_all"
    site = c.where(mod, "surface_code_problems")
    s = c.summary("spec_problems", "made_surface", opaque=opaque)
    base = os.path.join(report.SRC, "paper", "surface_code_circuits")
    known = {}
    for rel, path in surface.files(base).items():
        names, qubits, measured = surface.facts(path)
        known[rel] = (len(qubits), sorted(measured.values()))
        c.count("circuit files read")
    lists = branches(s.ret)
    items = [e for l in lists for e in elements(l)] if all(elements(l) is not None for l in lists) else None
    if not c.ob("the list of surface code problems is determined", site, bool(items), T.show(s.ret)[:300]):
        return
    memo = {}
    directory = T.sym("directory", "str")
    for e in items:
        c.count("surface code problems")
        p = pair(e)
        got = {f: value(field(p[0], f)) for f in ("data_width", "data_height", "noise", "circuit_style", "preserved_observable", "rounds", "code_distance", "num_qubits")} if p else {None: None}
        if None in got.values() or not str(got["circuit_style"]).startswith("surface_"):
            c.ob("each problem's parameters are determined", site, False, T.show(e)[:400])
            continue
        k = (got["circuit_style"][8:], got["noise"], got["preserved_observable"], got["code_distance"])
        if k not in memo:
            memo[k] = c.summary("spec_problems", "ref_surface_circuit", args=dict(directory=directory, noise_name=const(k[0]), noise=num(k[1]), obs=const(k[2]), d=num(k[3])),
                                opaque=opaque).ret
            memo[k] = first(Canon()(memo[k]))
        circ = first(Canon()(p[1]))
        m = None if memo[k] == circ else equal(memo[k], circ)[0]
        c.ob("each problem's circuit is the one its description names", site, m is None, f"described {got}: {m.describe()[:600] if m else ''}")
        d = k[3]
        want = dict(data_width=d, data_height=d, num_qubits=2 * d * d - 1, rounds=3 * d)
        c.ob("each problem's description is that of the circuit it makes", site, all(got[f] == x for f, x in want.items()), f"described {got}")
        rel = f"{k[0].lower()}_{k[2]}/d{d}_p0.0.stim"
        if c.ob("the circuit file of each problem exists", site, rel in known, rel):
            n, ms = known[rel]
            c.ob("the file has the described number of qubits", f"src/paper/surface_code_circuits/{rel}", n == got["num_qubits"], f"{n} qubits, described {got['num_qubits']}")
            c.ob("the file has the described number of rounds", f"src/paper/surface_code_circuits/{rel}", ms == [1] * (d * d) + [got["rounds"]] * (d * d - 1), f"described {got['rounds']}")


def first(t):
    """Which of many identical readings of a file it is does not matter."""
    def f(x):
        if x.op == "occ" and x.args[0] == ".read":
            return T.mk("occ", x.args[0], T.transform(x.args[1], f), T.lst([T.item(num(0))]))
        if x.op == "file":
            return T.mk("file", *[a if i < 2 else T.lst([T.item(num(0))]) for i, a in enumerate(x.args)])
        return None
    return T.transform(t, f)


def branches(t):
    if t.op == "ite":
        return branches(t.args[1]) + branches(t.args[2])
    if t.op == "lst" and any(s.op == "cseg" for s in t.args):
        outs = [T.lst([])]
        for s in t.args:
            if s.op == "cseg":
                outs = [T.lst(list(o.args) + list(b.args)) for o in outs for b in (s.args[1], s.args[2])]
            else:
                outs = [T.lst(list(o.args) + [s]) for o in outs]
        return outs
    return [t]
