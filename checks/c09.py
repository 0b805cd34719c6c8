from hca import terms as T
from hca import events as E
from hca.linear import Facts
from hca.equiv import split_raise, strip_raise
from hca.terms import const, not_, TRUE, FALSE, item, strval
from .internal import Exchange, flags, handlers, swallows
from .rows import run_simulated, occ_arg

TECHNIQUE = "constant propagation of each decoder name through the dispatch and down to the command line, with effect-order and exception-handler analysis for every other name and for failures"
DECODERS = {"pymatching": ("decode_using_pymatching", FALSE), "internal": ("decode_using_internal_decoder", FALSE), "internal_correlated": ("decode_using_internal_decoder", TRUE)}
FN = "sample_decode_count_correct"


def decode_calls(*terms):
    out = {}
    for t in terms:
        for x in T.subterms(t):
            if x.op == "call" and isinstance(x.args[0], str) and x.args[0] in {d for d, _ in DECODERS.values()}:
                out[x.key] = x
            if x.op == "ext" and any(x.args[0].endswith(d) for d, _ in DECODERS.values()):
                out[x.key] = x
    return list(out.values())


def check(c):
    site = c.where("decoding", FN)
    s = c.summary("decoding", FN, opaque={d for d, _ in DECODERS.values()})
    world = strip_raise(s.world)
    dec = T.sym("decoder", "str")
    other = Facts()
    for name, (fn, flag) in DECODERS.items():
        f = Facts().assume(T.eq(dec, const(name)))
        other = other.assume(not_(T.eq(dec, const(name))))
        bad, log = split_raise(f.reduce(world))
        calls = decode_calls(f.reduce(log), f.reduce(s.ret))
        ok = len(calls) == 1 and calls[0].op == "call" and calls[0].args[0] == fn
        if c.ob(f"decoder {name} runs {fn} and no other decoder", site, ok, "; ".join(T.show(x) for x in calls)[:600]):
            got = f.reduce(argument(c, fn, calls[0]))
            c.ob(f"decoder {name} runs with correlated decoding {'on' if flag == TRUE else 'off'}", site, f.simplify(T.truth(got)) == flag, T.show(got))
    for f, tr in E.traces(E.tree(world), other):
        first = tr[-1] if tr else None
        ok = first is not None and first[0] == "ev" and E.ev_kind(first[1]) == "RAISE" and len(tr) == 1
        c.ob("a name that is not documented raises before anything else happens", site, ok, str([T.show(x[1])[:200] if x[0] == "ev" else x[0] for x in tr]))
    for mod, q, op in (("decoding", FN, {d for d, _ in DECODERS.values()}), ("decoding", "decode_using_pymatching", {"detector_error_model_to_pymatching_graph"})):
        w = c.summary(mod, q, opaque=op).world
        for h in handlers(w):
            c.ob("no failure falls back to something else", c.where(mod, q), not swallows(h), T.show(h)[:400])
        enters = [T.show(x) for x in T.subterms(w) if x.op == "ev" and x.args[0] == "ENTER" and "suppress" in T.show(x)]
        c.ob("nothing suppresses exceptions", c.where(mod, q), not enters, str(enters))
    q = "decode_using_pymatching"
    s = c.summary("decoding", q, opaque={"detector_error_model_to_pymatching_graph"})
    f = Facts().assume(T.truth(T.sym("use_correlated_decoding", "bool")))
    traces = E.traces(E.tree(f.reduce(strip_raise(s.world))), f)
    for _, tr in traces:
        ok = tr and tr[-1][0] == "ev" and E.ev_kind(tr[-1][1]) == "RAISE"
        c.ob("pymatching refuses correlated decoding", c.where("decoding", q), ok, str([T.show(x[1])[:200] for x in tr if x[0] == "ev"]))
    others = decode_calls(s.world, s.ret)
    c.ob("the pymatching decoder runs no other decoder", c.where("decoding", q), not others, str([T.show(x) for x in others]))
    x = Exchange(c)
    flags(c, x)
    others = decode_calls(x.world, x.ret)
    c.ob("the internal decoder runs no other decoder", c.where("decoding", "decode_using_internal_decoder"), not others, str([T.show(q) for q in others]))
    for h in x.tries:
        c.ob("no failure falls back to something else", c.where("decoding", "decode_using_internal_decoder"), not swallows(h), T.show(h)[:400])
    collection(c)


def collection(c):
    """Collection samples each problem with the decoder its description names."""
    s = run_simulated(c)
    site = c.where("collect_data", "collect_simulated_experiment_data")
    n = 0
    for x in T.subterms(s.world):
        if x.op == "occ" and x.args[0] == FN:
            n += 1
            d = occ_arg(x, "decoder")
            ok = d is not None and d.op == "attr" and d.args[1] == "decoder" and d.args[0].op == "attr" and d.args[0].args[1] == "desc"
            c.ob("collection decodes with the decoder named by the problem's description", site, ok, T.show(x)[:500])
    c.ob("collection samples through the dispatching function", site, n >= 1, "no such call")



def argument(c, fn, call):
    n = c.p.find_func("decoding", fn).args
    names = [a.arg for a in n.posonlyargs + n.args + n.kwonlyargs]
    return call.args[1][names.index("use_correlated_decoding")]
