from checks import circuit, c21
from checks.common import value_class
from hca import report
from hca import terms as T
from hca.arrays import Canon
from hca.equiv import split_raise
from hca.linear import Facts
from hca.terms import const, num

TECHNIQUE = ("abstract evaluation of the generator with unknown styles, observables and sub-round counts, showing that every path ends in an exception; "
             "rejection conditions of the dispatching members compared with their reference; every operation a style emits is pushed through its noise model")
L = "HoneycombLayout."
GEN = "generate_honeycomb_circuit"


def drive(c, style, obs, n, facts):
    return c.summary("spec_circuit", "drive", args=dict(style=style, obs=obs, n=n), opaque=circuit.OPAQUE, effectful=circuit.EFFECTFUL, serial=True, facts=facts)


def unknown(name, known):
    s = T.sym(name, "str")
    f = Facts()
    for k in known:
        f = f.assume(T.not_(T.eq(s, const(k))))
    return s, f


def rejects(c, rule, site, style, obs, n, facts, what):
    c.count("rejected configurations shown to raise")
    s = drive(c, style, obs, n, facts)
    ok = circuit.raising(s)
    if not ok:
        cond = facts.simplify(split_raise(facts.reduce(s.world))[0])
        ok = cond == T.TRUE
        what += f" (raises when {T.show(cond)[:200]})"
    c.ob(rule, site, ok, what + " yields a circuit")


def check(c):
    value_class(c, "HoneycombLayout", ("data_width", "data_height", "sub_rounds", "style", "obs", "noise"), order=True)
    ci = c.p.find_class("HoneycombLayout")
    rule = "sizes that do not fit the tiling are rejected when the layout is made"
    if c.ob(rule, c.where("honeycomb_layout", "HoneycombLayout"), "__post_init__" in ci.methods, "no check of the sizes"):
        sizes(c, rule)
    c.agrees("honeycomb_layout", L + "noise_model", "spec_problems", "ref_noise_model", raises="set", post=Canon(), opaque=c21.MODELS,
             rule="a style without a noise model is rejected")
    opaque = {L + x for x in ("obs_v_edges obs_h_edges obs_v_qubits obs_h_qubits obs_v_before_sub_round obs_h_before_sub_round q2i data_qubit_coords".split())}
    for m, s in (("obs_index", "obs_index"), ("obs_edges", "obs_edges"), ("obs_qubits", "obs_qubits"), ("obs_before_sub_round", "obs_before")):
        c.agrees("honeycomb_layout", L + m, "spec_layout", "ref_" + s, raises="set", post=Canon(), opaque=opaque, rule=f"an unknown observable is rejected ({m})")
    c.agrees("honeycomb_layout", L + "used_qubit_coords", "spec_layout", "ref_used", raises="set", post=Canon(), opaque=opaque, rule="qubits of the style")
    c.agrees("honeycomb_layout", L + "make_circuit", "spec_problems", "ref_circuit", raises="set", post=Canon(), opaque={GEN}, rule="circuits are built by the generator that rejects")
    m = circuit.prepare(report.Check(c.pid, c.tier))
    site = c.where("honeycomb_circuit", GEN)
    n = T.sym("n", "int")
    style, other = unknown("style", circuit.STYLES)
    for obs in "VH":
        for k in (1, 2, 3, 6, 7, 36):
            rejects(m, "an unknown style is rejected", site, style, const(obs), num(k), other, f"an unknown style with observable {obs} and {k} sub-rounds")
        rejects(m, "an unknown style is rejected", site, style, const(obs), n, other.assume(T.cmp("GtE", n, num(1))), f"an unknown style with observable {obs}")
    obs, wrong = unknown("obs", "VH")
    for st in circuit.STYLES:
        here = site + f" style {st}"
        for k in range(1, 25):
            rejects(m, "an unknown observable is rejected", here, const(st), obs, num(k), wrong, f"an unknown observable with {k} sub-rounds")
        for o in "VH":
            for k in (0, -1, -2, -3, -6):
                rejects(m, "no sub-rounds at all is rejected", here, const(st), const(o), num(k), Facts(), f"{k} sub-rounds with observable {o}")
            rejects(m, "no sub-rounds at all is rejected", here, const(st), const(o), n, Facts().assume(T.cmp("LtE", n, num(0))), f"n <= 0 sub-rounds with observable {o}")
            q = circuit.Q
            for r in range(6):
                f = Facts().assume(T.cmp("GtE", q, num(circuit.QMIN)))
                if st == "SI1000" and r % 3:
                    rejects(m, "sub-round counts the style cannot do are rejected", here, const(st), const(o), T.add(T.mul(num(6), q), num(r)), f, f"6q+{r} sub-rounds")
            if st == "SI1000":
                for k in range(1, 6 * circuit.QMIN):
                    if k % 3:
                        rejects(m, "sub-round counts the style cannot do are rejected", here, const(st), const(o), num(k), Facts(), f"{k} sub-rounds")
        vocabulary(c, m, st, here)
    c.functions |= m.functions
    c.obs += m.obs
    for k, v in m.counts.items():
        c.count(k, v)


def sizes(c, rule):
    site = c.where("honeycomb_layout", L + "__post_init__")
    s = c.summary("honeycomb_layout", L + "__post_init__")
    cond, world = split_raise(s.world)
    a = lambda f: T.mk("attr", T.sym("self", "HoneycombLayout"), f, "str" if f in ("style", "obs") else "int")
    zero = lambda f, m: T.eq(T.mod(a(f), num(m)), num(0))
    for f, m in (("data_width", 2), ("data_height", 6)):
        got = Facts().assume(T.not_(zero(f, m))).simplify(cond)
        c.ob(rule, site, got == T.TRUE, f"{f} that is not a multiple of {m} is rejected only when {T.show(got)[:200]}")
    good = Facts().assume(zero("data_width", 2)).assume(zero("data_height", 6)).assume(T.cmp("GtE", a("data_width"), num(2))).assume(T.cmp("GtE", a("data_height"), num(6)))
    for style in circuit.STYLES:
        for obs in "VH":
            f = good.assume(T.eq(a("style"), const(style))).assume(T.eq(a("obs"), const(obs))).assume(T.cmp("GtE", a("sub_rounds"), num(3))).assume(zero("sub_rounds", 3))
            got = f.simplify(cond)
            c.ob("sizes that fit the tiling are accepted", site, got == T.FALSE, f"style {style}, observable {obs}: rejected when {T.show(got)[:200]}")
            rest = f.reduce(world)
            c.ob("checking the sizes changes nothing", site, not rest.args, T.show(rest)[:200])


def vocabulary(c, m, style, site):
    """Every operation of a style's circuits has a noise rule in the style's noise model."""
    names = set()
    for o in "VH":
        for k in (1, 2, 3, 4, 5, 6, 36, 37, 38):
            if style == "SI1000" and k % 3:
                continue
            run = circuit.Run(m, style, o, num(k))
            if not c.ob("each style has a generator", site, not run.raises and run.ops is not None, f"{k} sub-rounds, observable {o}: no circuit"):
                continue
            c21.ops(run.ops, names, [], "")
    for name in sorted(names):
        c.count("operations looked up in a noise model")
        s = c.summary("spec_problems", "accepts", args=dict(style=const(style), name=const(name)))
        cond = split_raise(s.world)[0]
        c.ob("each operation of a style has a rule in the style's noise model", site, not circuit.raising(s) and cond == T.FALSE, f"{name} is rejected when {T.show(cond)[:200]}")
    s = c.summary("spec_problems", "accepts_repeat", args=dict(style=const(style)))
    c.ob("each operation of a style has a rule in the style's noise model", site, not circuit.raising(s) and split_raise(s.world)[0] == T.FALSE, "REPEAT blocks are rejected")
