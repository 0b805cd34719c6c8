import ast

from hca import terms as T
from hca.terms import mk, num, const, strval, TRUE, FALSE, not_, and_, or_, ge0, sub, add, subst, cmp
from hca import events as E
from hca.linear import Facts
from hca.equiv import equal, consistent
from .rows import *

TECHNIQUE = "recurrence extraction from the sampling loop, inductive linear invariants (Houdini over templates, Fourier-Motzkin), and case-by-case comparison of the stopping condition"
QUAL = "collect_simulated_experiment_data"
SAMPLE = "sample_decode_count_correct"

MIN, MAX = T.sym("min_shots", "int"), T.sym("max_shots", "int")
BATCH = T.sym("max_batch", "int")
SD, NERR = T.sym("max_sample_std_dev", "float"), T.sym("min_seen_logical_errors", "int")


def ge(a, b):
    return ge0(sub(a, b))


def prove_ge(f, a, b):
    """f entails a >= b, splitting minima on the left and maxima on the right."""
    p = f.reduce(sub(a, b))
    return prove_nonneg(f, p)


def prove_nonneg(f, p, depth=0):
    if f.bad:
        return True
    r = f.decide(ge0(p))
    if r is not None:
        return r
    if depth > 8:
        return False
    for m, c in T.pdict(p).items():
        if len(m) == 1 and m[0][1] == 1:
            t = m[0][0]
            if t.op == "call" and ((t.args[0] == "min" and c > 0) or (t.args[0] == "max" and c < 0)):
                return all(prove_nonneg(f, f.reduce(subst(p, {t.key: a})), depth + 1) for a in t.args[1])
            if t.op == "ite":
                c0 = t.args[0]
                ok = True
                for cond, v in ((c0, t.args[1]), (not_(c0), t.args[2])):
                    f2 = f.assume(cond)
                    if consistent(f2) and not prove_nonneg(f2, f2.reduce(subst(p, {t.key: v})), depth + 1):
                        ok = False
                return ok
    return False


def defaults(c):
    """A limit that is not given restricts nothing (a sample's standard deviation never exceeds a half)."""
    site = c.where("collect_data", QUAL)
    a = c.p.find_func("collect_data", QUAL).args
    pos = a.posonlyargs + a.args
    d = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({p.arg: v for p, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    free = {"max_batch": lambda v: v is None, "max_sample_std_dev": lambda v: isinstance(v, (int, float)) and v >= 0.5, "min_shots": lambda v: v in (0, 1),
            "min_seen_logical_errors": lambda v: False, "max_shots": lambda v: False}
    for k, e in d.items():
        if k in free:
            try:
                v = ast.literal_eval(e)
            except ValueError:
                v = float(ast.literal_eval(e.args[0])) if isinstance(e, ast.Call) and ast.unparse(e.func) == "float" and len(e.args) == 1 and isinstance(e.args[0], ast.Constant) else \
                    float("inf") if ast.unparse(e) in ("math.inf", "np.inf", "numpy.inf") else "?"
            c.ob("a limit that is not given does not restrict sampling", site, free[k](v), f"{k} = {ast.unparse(e)}")


def check(c):
    defaults(c)
    for batch, case in ((T.NONE, "no batch limit"), (BATCH, "with a batch limit")):
        run(c, run_simulated(c, max_batch=batch), MAX if batch == T.NONE else BATCH, case)


def run(c, s, B, case):
    site = c.where("collect_data", QUAL)
    node = E.tree(s.world)
    probs = []

    def find(n, loops):
        for it in n.items:
            if it[0] == "loop":
                own = any(x[0] == "ev" and is_sample(x[1], SAMPLE) for x in flat(it[2]))
                if own:
                    probs.append((loops, it[1], it[2], n))
                find(it[2], loops + (it[1],))
            elif it[0] == "if":
                find(it[2], loops)
                find(it[3], loops)

    def flat(n):
        for it in n.items:
            if it[0] == "if":
                yield from flat(it[2])
                yield from flat(it[3])
            elif it[0] != "loop":
                yield it
    find(node, ())
    if not c.ob("batches are sampled in a loop", site, bool(probs), "no sampling loop found"):
        return
    P = T.sym("problems", "List[DecodingProblem]")
    seen = set()
    for loops, L, body, parent in probs:
        c.ob("every problem gets its own batch loop, started afresh", site,
             len(loops) == 1 and loops[0].kind == "for" and same(loops[0].n, T.length(P)),
             f"enclosing loops: {[l.kind for l in loops]}")
        if not c.ob("batches are taken until a stopping rule holds", site, L.kind == "while", "the sampling loop has no stopping recurrence"):
            continue
        f0 = Facts([ge(MIN, num(1)), ge(MAX, num(1)), ge(B, num(1))])
        k = loop_key(L)
        if k in seen:
            continue
        seen.add(k)
        # the iterations that go on and the one that stops are two views of one loop
        exits = []
        for it in parent.items:
            if it[0] == "loop" and it[1].kind == "while" and it[1].last and loop_key(it[1]) == k:
                exits.append(rename(it[2], {a.key: b for a, b in zip(it[1].phis, L.phis)} | {it[1].i.key: L.i}))
        analyse(c, site, L, body, f0, B, case, exits)


def loop_key(L):
    x = L.src.args[0] if L.src.op == "spread" else L.src
    return tuple(repr(a) if not isinstance(a, tuple) else tuple(b.key for b in a) for a in (x.args[2], x.args[3], x.args[4])) + (x.args[5].key,)


def rename(n, m):
    out = []
    for it in n.items:
        if it[0] == "if":
            out.append(("if", subst(it[1], m), rename(it[2], m), rename(it[3], m)))
        elif it[0] == "loop":
            L = it[1]
            sb = lambda t: subst(t, m)
            L2 = E.Loop(L.kind, sb(L.n) if L.n is not None else None, L.i, L.phis, tuple(map(sb, L.inits)), tuple(map(sb, L.nexts)), sb(L.exitc), L.last, L.src)
            out.append(("loop", L2, rename(it[2], m)))
        else:
            out.append((it[0], subst(it[1], m)))
    return E.Node(out)


def analyse(c, site, L, body, f0, B, case, exits):
    red = f0.reduce
    # which iterations sample, and with what
    occs, nosample = {}, []
    views = [(body, L.last)] + [(b, True) for b in exits]
    for last, (f, tr) in [(last, x) for b, last in views for x in E.traces(b, f0)]:
        ss = [i[1].args[1] for i in tr if i[0] == "ev" and is_sample(i[1], SAMPLE)]
        if any(i[0] == "ev" and E.ev_kind(i[1]) == "RAISE" for i in tr):
            continue
        c.ob("an iteration samples at most one batch", site, len(ss) <= 1, case)
        if ss:
            occs[ss[0].key] = ss[0]
        elif not last:
            c.ob("an iteration that goes on samples a batch", site, not consistent(f.assume(not_(L.exitc))), case)
        else:
            nosample.append(and_(*[l for l in f.lits.values() if l.key not in f0.lits]))
    if not c.ob("every iteration samples the same way", site, len(occs) == 1, f"{case}: {len(occs)} different sampling calls"):
        return
    o = list(occs.values())[0]
    N = red(occ_arg(o, "num_shots"))
    G, H = T.sym("<shots so far>", "int"), T.sym("<errors so far>", "int")
    R = T.sym("<correct in batch>", "int")
    sub_o = {o.key: R}
    N = subst(N, sub_o)
    nexts = [red(subst(red(e), sub_o)) for e in L.nexts]
    inits = [red(e) for e in L.inits]
    exitc = red(subst(red(L.exitc), sub_o))
    # counters are affine in the ghosts
    m = {}
    rest = []
    for p, i0, nx in zip(L.phis, inits, nexts):
        d = sub(nx, p)
        k = affine(d, N, R)
        if k is not None:
            al, be = k
            m[p.key] = add(i0, T.mul(num(al + be), G), T.mul(num(-be), H))
        else:
            rest.append((p, i0, nx))
    for _ in range(3):
        N = subst(N, m)
        exitc = subst(exitc, m)
        nexts_r = [(p, i0, subst(nx, m)) for p, i0, nx in rest]
        rest = nexts_r
    head = or_(*[subst(subst(x, sub_o), m) for x in nosample]) if nosample else FALSE
    head = f0.simplify(and_(exitc, head)) if nosample else FALSE
    if not any(last for _, last in views):
        # no events in the last iteration: the loop stops at its head
        head, tail = exitc, FALSE
    elif nosample:
        tail = and_(exitc, not_(head))
    else:
        tail = exitc
    G2, H2 = add(G, N), add(H, sub(N, R))
    # inductive invariants at the head of an iteration that samples
    pv = [p for p, _, _ in rest]
    temps = [ge(G, num(0)), ge(H, num(0)), ge(G, H), ge(sub(MAX, num(1)), G)]
    for p in pv:
        temps += [ge(p, num(1)), ge(p, num(0)), ge(B, p), ge(MAX, p), ge(sub(MAX, G), p)]
    ini = {G.key: num(0), H.key: num(0)}
    for p, i0, _ in rest:
        ini[p.key] = i0
    step = {G.key: G2, H.key: H2}
    for p, _, nx in rest:
        step[p.key] = nx
    started = not_(subst(head, ini))
    fi = f0.assume(f0.simplify(started)) if head != FALSE else f0
    inv = [t for t in temps if holds(fi, red(subst(t, ini)))]
    while True:
        f = f0
        for t in inv:
            f = f.assume(t)
        f = f.assume(ge(R, num(0))).assume(ge(N, R))
        # the loop goes on: no tail exit now, no head exit next time
        cont = and_(not_(tail), not_(subst(head, step)))
        fs = expand(f, cont)
        keep = [t for t in inv if all(holds(g, g.reduce(subst(t, step))) for g in fs)]
        if len(keep) == len(inv):
            break
        inv = keep
    f = f0
    for t in inv:
        f = f.assume(t)
    c.count("inductive invariants", len(inv))
    fh = expand(f, not_(head))
    site_ = site
    c.ob("every batch asks for at least one shot", site_, all(prove_ge(g, N, num(1)) for g in fh), f"{case}: batch size {T.show(N)[:200]} with invariants {[T.show(t) for t in inv]}")
    c.ob("no batch exceeds the batch limit", site_, all(prove_ge(g, B, N) for g in fh), f"{case}: batch size {T.show(N)[:200]} with invariants {[T.show(t) for t in inv]}")
    c.ob("total shots never exceed the maximum", site_, all(prove_ge(g, sub(MAX, G), N) for g in fh), f"{case}: batch size {T.show(N)[:200]} with invariants {[T.show(t) for t in inv]}")
    c.ob("at least one batch is taken", site_, f0.simplify(red(subst(head, ini))) == FALSE, f"{case}: {T.show(head)[:300]}")
    # stopping rule
    p = T.div(H2, G2)
    sd = T.powt(T.div(T.mul(p, sub(num(1), p)), G2), num(T.Fraction(1, 2)))
    want = or_(ge(G2, MAX), and_(ge(G2, MIN), or_(and_(ge(H2, NERR), cmp("LtE", sd, SD)),
                                                 and_(cmp("GtE", H2, T.mul(num(T.Fraction(48, 100)), G2)), ge(H2, num(10))))))
    got = or_(tail, subst(head, step))
    ok, detail = True, ""
    for g in expand(f.assume(ge(R, num(0))).assume(ge(N, R)), not_(head)):
        mm, pr = equal(g.reduce(got), g.reduce(want), g)
        c.count("stopping cases compared", pr.cases)
        if mm is not None:
            ok, detail = False, mm.describe()
    c.ob("sampling stops exactly when the maximum is reached or, from the minimum on, a statistical rule holds", site_, ok, f"{case}: {detail}")
    # the recorded shot count
    cols = None
    for f, tr in E.traces(body, f0):
        for l in lines(tr):
            fs = fields_of(l[3])
            if fs is not None and len(fs) == len(COLUMNS):
                hdr = header_cols(c)
                if hdr and "num_shots" in hdr:
                    got = field_term(fs[hdr.index("num_shots")])
                    c.ob("the recorded shot count is the number sampled", site_, same(got, T.tostr(occ_arg(o, "num_shots")), f), T.show(got)[:200])


def header_cols(c):
    I = c.interp()
    I.install()
    h = strval(I.freeze(I.module_name(c.p.module("collect_data"), "CSV_HEADER")))
    return h.split(",") if h else None


def expand(f, cond):
    """Facts for each disjunct of cond."""
    cond = f.simplify(cond)
    if cond == FALSE:
        return []
    if cond.op == "or":
        out = []
        for a in cond.args:
            out += expand(f, a)
        return out
    if cond.op == "and":
        fs = [f]
        for a in cond.args:
            fs = [h for g in fs for h in expand(g, a)]
        return fs
    g = f.assume(cond)
    return [g] if consistent(g) else []


def holds(f, t):
    if f.bad:
        return True
    t = f.simplify(t)
    if t == TRUE:
        return True
    if t == FALSE:
        return False
    if t.op == "ge0":
        return prove_nonneg(f, t.args[0])
    if t.op == "not" and t.args[0].op == "ge0" and T.is_int(t.args[0].args[0]):
        return prove_nonneg(f, sub(T.neg(t.args[0].args[0]), num(1)))
    if t.op == "and":
        return all(holds(f, a) for a in t.args)
    return False


def affine(d, N, R):
    """(a, b) with d == a*N + b*R, else None."""
    v = T.numval(d)
    if v == 0:
        return (T.Fraction(0), T.Fraction(0))
    b = T.pdict(d).get(((R, 1),), T.Fraction(0))
    r = sub(d, T.mul(num(b), R))
    if T.numval(r) == 0:
        return (T.Fraction(0), b)
    for a in (1, -1, 2, -2):
        if T.numval(sub(r, T.mul(num(a), N))) == 0:
            return (T.Fraction(a), b)
    return None
