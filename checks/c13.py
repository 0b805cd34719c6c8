from hca import events as E
from hca import terms as T
from hca.arrays import Canon
from hca.equiv import equal
from hca.linear import Facts
from hca.terms import item, lst, mk, not_, num

TECHNIQUE = "value-graph dataflow analysis of the edge merge over a symbolic graph, compared case by case with the reference definition, and effect analysis of the padding"
TAG = "conflicting component replaces the first"


def check(c):
    cn = Canon()

    def post(t):
        # the targets of a component are lists: true when not empty
        return cn(T.transform(t, lambda x: not_(T.eq(T.length(x.args[0]), num(0))) if x.op == "truth" and x.args[0].op == "phi" and T.sort(x.args[0]) == "?" else None))
    c.agrees("decoding", "detector_error_model_to_nx_graph", "spec_decoding", "detector_error_model_to_nx_graph", opaque={"iter_flatten_model"}, post=post,
             known=("detector_error_model_to_nx_graph_last", TAG),
             rule="every error component becomes exactly its edge")
    padding(c)


QUAL = "detector_error_model_to_pymatching_graph"


def padding(c):
    site = c.where("decoding", QUAL)
    s = c.summary("decoding", QUAL, opaque={"detector_error_model_to_nx_graph"})
    model = T.sym("model", "stim.DetectorErrorModel")
    n = mk("attr", model, "num_detectors", "int")
    nobs = mk("attr", model, "num_observables", "int")
    g = mk("call", "detector_error_model_to_nx_graph", (model,), ())
    facts = Facts().assume(T.ge0(n)).assume(T.ge0(nobs))
    c.ob("the matcher is built from the graph of the given error model", site, s.ret.op == "call" and s.ret.args[0] in ("pymatching.Matching", "pymatching.Matching.from_networkx")
         and s.ret.args[1] == (g,) and not s.ret.args[2], T.show(s.ret))
    calls, odd = [], []
    for loops, guards, kind, e in E.walk(E.tree(Canon()(s.world))):
        x = e.args[1] if kind == "ev" and E.ev_kind(e) in ("CALL", "OP") else None
        if x is None or x.op not in ("mcall", "occ"):
            odd.append(e)
            continue
        name, recv, args, kw = method(x)
        if recv != g:
            odd.append(e)
            continue
        r = spread_out(name, args, kw)
        if r is None:
            odd.append(e)
            continue
        for lp, nm, a, k in r:
            calls.append((loops + lp, guards, nm, a, k))
    c.ob("padding only adds nodes and edges to that graph", site, not odd, "; ".join(T.show(e) for e in odd)[:600])
    extra = T.add(n, num(1))
    covered, labelled = [], []
    for loops, guards, nm, a, kw in calls:
        shown = f"{nm}({', '.join(T.show(v) for v in a)}, {', '.join(k + '=' + T.show(v) for k, v in kw.items())})"
        if nm == "add_node":
            c.ob("padding gives no node an attribute", site, not kw and len(a) == 1, shown)
            continue
        ok = len(a) == 2 and any(facts.reduce(v) == extra for v in a)
        if not c.ob("every padding edge ends at the extra node", site, ok, shown):
            continue
        o = a[0] if facts.reduce(a[1]) == extra else a[1]
        w = T.numval(kw.get("weight", T.NONE))
        c.ob("padding edges are too heavy to be used", site, w is not None and w >= 10 ** 6, shown)
        c.ob("padding edges carry nothing but a weight and the observables", site, set(kw) <= {"weight", "qubit_id"}, shown)
        f = facts
        for L in loops:
            f = f.assume(T.ge0(L.i)).assume(T.ge0(T.sub(T.sub(L.n, L.i), num(1))))
        inside = f.decide(T.ge0(o)) is True and f.decide(T.ge0(T.sub(n, o))) is True
        c.ob("padding edges start at a detector or the boundary", site, inside, shown)
        if "qubit_id" in kw:
            labelled.append((loops, guards, kw["qubit_id"]))
        if guards:
            continue
        if not loops:
            covered.append((o, T.add(o, num(1))))
        elif len(loops) == 1 and loops[0].kind == "for":
            i = loops[0].i
            lo = T.subst(o, {i.key: num(0)})
            if T.sub(o, i) == lo:
                covered.append((lo, T.add(lo, facts.reduce(loops[0].n))))
    pos, left = num(0), list(covered)
    while left:
        nxt = [p for p in left if facts.decide(T.ge0(T.sub(pos, facts.reduce(p[0])))) is True]
        left = [p for p in left if p not in nxt]
        if not nxt:
            break
        for lo, hi in nxt:
            hi = facts.reduce(clean(hi, facts))
            if facts.decide(T.ge0(T.sub(hi, pos))) is True:
                pos = hi
    c.ob("every detector and the boundary are connected to the extra node", site, facts.decide(T.ge0(T.sub(pos, extra))) is True, f"covered below {T.show(pos)}")
    v = T.fresh_bv()
    want = lst(T.rep(nobs, v, lst([item(v)])))
    ok = len(labelled) == 1 and not labelled[0][1] and not labelled[0][0]
    m = equal(clean(labelled[0][2], facts), want, facts)[0] if ok else None
    c.ob("exactly one padding edge names all observables", site, ok and m is None, m.describe() if m else str([T.show(q) for _, _, q in labelled]))


def clean(t, facts):
    """max(k, 0) of a count is the count."""
    def f(x):
        if x.op == "call" and x.args[0] == "max" and len(x.args[1]) == 2 and num(0) in x.args[1]:
            o = [y for y in x.args[1] if y != num(0)]
            if len(o) == 1 and facts.decide(T.ge0(o[0])) is True:
                return o[0]
        return None
    return T.transform(t, f)


def method(x):
    if x.op == "mcall":
        return x.args[0], x.args[1], list(x.args[2]), dict(x.args[3]) if len(x.args) > 3 else {}
    a = [q.args[0] for q in x.args[1].args]
    return x.args[0].lstrip("."), a[0], a[1:], {}


def spread_out(name, args, kw):
    """One call as [(extra loops, 'add_node' | 'add_edge', arguments, attributes)], or None."""
    if name in ("add_node", "add_edge"):
        return [((), name, args, kw)]
    if name in ("add_nodes_from", "add_edges_from", "add_weighted_edges_from") and len(args) == 1:
        seq = args[0]
        if seq.op != "lst":
            return None
        out = []
        for sg in seq.args:
            if sg.op == "item":
                els = [((), sg.args[0])]
            elif sg.op == "rep":
                v = T.fresh_bv()
                body = T.subst(sg.args[2], {sg.args[1].key: v})
                if any(b.op != "item" for b in body.args):
                    return None
                els = [((E.Loop("for", sg.args[0], v),), b.args[0]) for b in body.args]
            else:
                return None
            for lp, e in els:
                if name == "add_nodes_from":
                    out.append((lp, "add_node", [e], kw))
                    continue
                if e.op != "lst" or any(q.op != "item" for q in e.args):
                    return None
                p = [q.args[0] for q in e.args]
                k = dict(kw)
                if name == "add_weighted_edges_from":
                    if len(p) != 3:
                        return None
                    k["weight"] = p.pop()
                elif len(p) == 3:
                    d = p.pop()
                    if d.op != "dictv":
                        return None
                    k.update({T.strval(a): b for a, b in d.args[0]})
                out.append((lp, "add_edge", p, k))
        return out
    return None
