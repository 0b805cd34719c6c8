from hca import terms as T
from hca.terms import mk, num, const, strval, TRUE, FALSE, subst
from hca import events as E
from .rows import *

TECHNIQUE = "effect-log analysis: every line written is split at its commas and each field's value term compared with the column it stands under"


def row_ok(c, site, cols, text, want, facts):
    fs = fields_of(text)
    if not c.ob("a row is one newline-terminated line", site, fs is not None, T.show(text)[:400]):
        return
    if not c.ob("a row has exactly one field per header column", site, len(fs) == len(cols), f"{len(fs)} fields under {len(cols)} columns: {T.show(text)[:600]}"):
        return
    for col, f in zip(cols, fs):
        got = canon_counts(field_term(f))
        w = want(col)
        ok = any(same(got, canon_counts(x), facts) for x in w)
        c.ob(f"column {col} holds its own value as plain text", site, ok,
             f"column {col} is written as {T.show(got)[:300]}, expected {' or '.join(T.show(x)[:300] for x in w)}")


def desc_field(d, ci, f):
    from hca.engine import mkattr
    return T.tostr(mkattr(d, f, ci.field_type(f)))


def version(c):
    I = c.interp()
    m = c.p.module("collect_data")
    I.install()
    return I.module_name(m, "CSV_HEADER_VERSION")


def timing(tr, j):
    """All clock differences that span event j within the same iteration."""
    before = [it[1].args[1] for it in tr[:j] if it[0] == "ev" and E.ev_kind(it[1]) == "OP" and it[1].args[1].args[0] in CLOCKS]
    after = [it[1].args[1] for it in tr[j + 1:] if it[0] == "ev" and E.ev_kind(it[1]) == "OP" and it[1].args[1].args[0] in CLOCKS]
    return [T.tostr(T.sub(b, a)) for a in before for b in after if a.args[0] == b.args[0]]


def writer(c, qual, summ, sample, want_for):
    site = c.where("collect_data", qual)
    node = E.tree(summ.world)
    header = header_of(c, node, site)
    if header is None:
        return
    cols = header[:-1].split(",")
    c.ob("the header names the documented columns once each", site, sorted(cols) == sorted(COLUMNS), f"header is {cols}")
    bodies = []

    def find(n, loops):
        for it in n.items:
            if it[0] == "loop":
                if any(x[2] == "ev" and is_sample(x[3], sample) for x in E.walk(Only(it[2]))):
                    bodies.append((loops + (it[1],), it[2]))
                find(it[2], loops + (it[1],))
            elif it[0] == "if":
                find(it[2], loops)
                find(it[3], loops)

    class Only:
        """Events of a body outside nested loops."""
        def __init__(self, n):
            self.items = [i for i in n.items if i[0] != "loop"]
    find(node, ())
    c.ob("samples are taken inside a loop over the problems", site, bool(bodies), "no sampling event found in any loop")
    out_none = T.isnone(T.sym("out_path", "Optional[str]"))
    nrows = 0
    for loops, body in bodies:
        for facts, tr in E.traces(body):
            if any(E.ev_kind(i[1]) == "RAISE" for i in tr if i[0] == "ev"):
                continue
            ss = [j for j, i in enumerate(tr) if i[0] == "ev" and is_sample(i[1], sample)]
            if not ss:
                ls = lines(tr)
                c.ob("no row is written for a batch that was not sampled", site, not ls, T.show(ls[0][3])[:300] if ls else "")
                continue
            c.ob("one batch is sampled per recorded row", site, len(ss) == 1, f"{len(ss)} samplings in one iteration")
            ls = [l for l in lines(tr)]
            echo = [l for l in ls if l[1] == "STDOUT"]
            files = [l for l in ls if l[1] == "WRITE"]
            c.ob("the row is echoed to stdout exactly once per batch", site, len(echo) == 1, f"{len(echo)} lines echoed")
            c.ob("no partial lines are left behind", site, not [l for l in ls if l[1] == "partial"], "")
            want_file = facts.decide(out_none) is not True
            if facts.decide(out_none) is None:
                c.ob("whether the row goes to the file depends only on a path having been given", site, False,
                     f"an iteration does not distinguish the missing path: {[T.show(l)[:80] for l in facts.lits.values()]}")
                continue
            c.ob("the row is appended to the file exactly once per batch when a path was given", site,
                 len(files) == (1 if want_file else 0), f"{len(files)} rows written with out_path {'given' if want_file else 'None'}")
            for l in files:
                c.ob("rows go to the requested path", site, l[2].args[0] == T.sym("out_path", "Optional[str]"), T.show(l[2])[:200])
                if echo:
                    c.ob("the recorded row and the echoed row are the same", site, same(l[3], echo[0][3], facts), T.show(l[3])[:500])
            for l in (files + echo):
                nrows += 1
                row_ok(c, site, cols, l[3], want_for(loops, tr, ss[0]), facts)
    c.ob("rows are written", site, nrows > 0, "no row writes found")
    c.count("row writes checked", nrows)
    # outside the sampling loops only header lines are written
    inner = {id(b) for _, b in bodies}

    def rest(n):
        for it in n.items:
            if it[0] == "loop":
                if id(it[2]) not in inner:
                    rest(it[2])
            elif it[0] == "if":
                rest(it[2])
                rest(it[3])
            elif it[0] == "ev" and E.ev_kind(it[1]) in ("WRITE", "STDOUT"):
                t = it[1].args[-1]
                c.ob("only the header is written outside the sampling loop", site, strval(t) == header, T.show(t)[:300])
            elif it[0] == "opaque":
                c.ob("the effect log is fully understood", site, False, T.show(it[1])[:300])
    rest(node)


def problem_of(c, loops):
    P = T.sym("problems", "List[DecodingProblem]")
    for L in loops:
        if L.kind == "for" and same(L.n, T.length(P)):
            return T.idx(P, L.i)
    return None


def check(c):
    ci = c.p.find_class("DecodingProblemDesc")
    pi = c.p.find_class("DecodingProblem")
    from hca.engine import mkattr
    ver = T.tostr(version(c))
    plain = [f for f, _, _ in ci.fields]
    s = run_simulated(c)
    qual = "collect_simulated_experiment_data"

    def want_sim(loops, tr, j):
        o = tr[j][1].args[1]
        p = problem_of(c, loops)
        d = mkattr(p, "desc", pi.field_type("desc")) if p is not None else T.sym("<no problem>")

        def want(col):
            if col == "num_shots":
                return [T.tostr(occ_arg(o, "num_shots") or T.sym("<shots>"))]
            if col == "num_correct":
                return [T.tostr(o)]
            if col == "total_processing_seconds":
                return timing(tr, j)
            if col == "version":
                return [ver]
            return [desc_field(d, ci, col)]
        circ = occ_arg(o, "circuit")
        site = c.where("collect_data", qual)
        ok = p is not None and circ is not None and same(circ, mk("app", mkattr(p, "circuit_maker", pi.field_type("circuit_maker")), (), ())) \
            and same(occ_arg(o, "decoder"), mkattr(d, "decoder", "str"))
        c.ob("the sampled circuit and decoder are the problem's own", site, ok, T.show(o)[:400])
        return want
    writer(c, qual, s, "sample_decode_count_correct", want_sim)

    s = run_fraction(c)
    qual2 = "collect_detection_fraction_data"

    def want_frac(loops, tr, j):
        o = tr[j][1].args[1]
        p = problem_of(c, loops)
        d = mkattr(p, "desc", pi.field_type("desc")) if p is not None else T.sym("<no problem>")
        shape = mk("attr", o, "shape", "?")
        total = mk("call", "math.prod", (shape,), ())
        alt = T.mul(T.idx(shape, num(0)), T.idx(shape, num(1)))
        dets = [mk("call", "numpy.count_nonzero", (o,), ()), mk("call", "numpy.sum", (o,), ()), mk("mcall", "sum", o, (), ())]
        site = c.where("collect_data", qual2)
        shots = T.sym("shots", "int")
        okc = p is not None and o.args[1].op == "lst" and len(o.args[1].args) >= 2
        if okc:
            recv, n = o.args[1].args[0].args[0], o.args[1].args[1].args[0]
            circ = mk("app", mkattr(p, "circuit_maker", pi.field_type("circuit_maker")), (), ())
            okc = recv.op == "mcall" and recv.args[0] == "compile_detector_sampler" and same(recv.args[1], circ) and same(n, shots)
        c.ob("detectors of the problem's own circuit are sampled the requested number of times", site, okc, T.show(o)[:400])

        def want(col):
            if col == "num_shots":
                return [T.tostr(total), T.tostr(alt)]
            if col == "num_correct":
                return [T.tostr(T.sub(t, x)) for t in (total, alt) for x in dets]
            if col == "total_processing_seconds":
                return timing(tr, j)
            if col == "version":
                return [ver]
            if col == "preserved_observable":
                return [const("-")]
            if col == "decoder":
                return [const("detection_fraction")]
            return [desc_field(d, ci, col)]
        return want
    writer(c, qual2, s, ".sample", want_frac)

    aggregate(c, ci, ver)


def aggregate(c, ci, ver):
    from hca.engine import mkattr, keys_of, sorted_term
    mod, qual = "paper.aggregate_csv_data", "main"
    site = c.where(mod, qual)
    s = c.summary(mod, qual, opaque={"read_recorded_data"})
    node = E.tree(s.world)
    calls = [k for k in s.interp.callsites if k[0] == "read_recorded_data"]
    if not c.ob("aggregation reads the recorded data once", site, len(calls) == 1, f"{len(calls)} reads"):
        return
    header = None
    rows = 0
    call = None
    for t in T.subterms(s.world):
        if t.op == "call" and t.args[0] == "read_recorded_data":
            call = t
    if not c.ob("aggregated rows come from the recorded data", site, call is not None, "no row mentions the data read"):
        return
    D = mk("attr", call, "data", c.p.find_class("ProblemShotData").field_type("data"))
    from hca.linear import Facts
    for facts, tr in E.traces(node):
        if any(i[0] == "ev" and E.ev_kind(i[1]) == "RAISE" for i in tr):
            continue
        head = False
        for it in tr:
            if it[0] == "ev" and E.ev_kind(it[1]) == "STDOUT":
                t = strval(it[1].args[1])
                ok = t is not None and not head and t.endswith("\n")
                c.ob("exactly one header line precedes the rows", site, ok, T.show(it[1])[:300])
                header, head = t, True
            elif it[0] == "loop":
                if not any(x[2] == "ev" and E.ev_kind(x[3]) == "STDOUT" for x in E.walk(it[2])):
                    continue
                L = it[1]
                if not c.ob("the header precedes the rows", site, head, ""):
                    return
                cols = header[:-1].split(",")
                c.ob("the header names the documented columns once each", site, sorted(cols) == sorted(COLUMNS), f"header is {cols}")
                c.ob("there is exactly one row per recorded parameter set", site, L.kind == "for" and same(L.n, T.length(D)), T.show(L.n)[:300])
                for f2, tr2 in E.traces(it[2], facts):
                    ls = lines(tr2)
                    c.ob("each parameter set gets exactly one row", site, len(ls) == 1, f"{len(ls)} lines")
                    for l in ls:
                        rows += 1
                        ks = keys_of(D)
                        cand = [T.idx(sorted_term(ks, None), L.i), T.idx(ks, L.i)]
                        fs = fields_of(l[3])
                        used = [k for k in cand if any(x == k for x in T.subterms(l[3]))]
                        d = used[0] if used else cand[0]
                        rec = T.idx(D, d)
                        sd = c.p.find_class("ShotData")

                        def want(col):
                            if col in ("num_shots", "num_correct", "total_processing_seconds"):
                                return [T.tostr(mkattr(rec, col, sd.field_type(col)))]
                            if col == "version":
                                return [ver]
                            return [desc_field(d, ci, col)]
                        row_ok(c, site, cols, l[3], want, f2)
    c.ob("aggregation writes rows", site, rows > 0, "no rows are printed")
    # every named file is read
    args = calls[0][1]
    c.ob("aggregation reads every named file, expanding directories recursively", site, agg_paths(args), T.show(list(args.values())[0])[:500])


def agg_paths(args):
    v = list(args.values())[0]
    argv = mk("idx", mk("ext", "sys.argv"), mk("slice", num(1), T.NONE, T.NONE))
    names = {s.args[0] for s in T.subterms(v) if s.op == "mcall"}
    return any(t == argv for t in T.subterms(v)) and bool({"rglob", "glob"} & names)
