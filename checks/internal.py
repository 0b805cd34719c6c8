"""The exchange with the external decoder: files, command line, failure handling, output parsing (C09, C10, C11)."""
from hca import terms as T
from hca import events as E
from hca.arrays import Canon, is_call, no
from hca.equiv import equal, split_raise, strip_raise
from hca.linear import Facts
from hca.terms import mk, num, const, item, lst, not_, and_, strval, subst, TRUE, FALSE, EMPTY, NONE

FN = "decode_using_internal_decoder"
FLAGS = {"-cheap_corr", "-edge_corr", "-node_corr"}
RAISING = {"subprocess.check_output", "subprocess.check_call"}


def flatten(world):
    """The log of a run in which nothing raises: the bodies of try statements in place, their handlers left out."""
    def f(x):
        if x.op == "lst" and any(s.op == "item" and s.args[0].op == "ev" and s.args[0].args[0] in ("TRY", "FINALLY") for s in x.args):
            out = []
            for s in x.args:
                if s.op == "item" and s.args[0].op == "ev" and s.args[0].args[0] in ("TRY", "FINALLY"):
                    out.extend(T.transform(s.args[0].args[1], f).args)
                else:
                    out.append(T.transform(s, f))
            return lst(out)
        return None
    return T.transform(world, f)


def handlers(world):
    out = []
    for x in T.subterms(world):
        if x.op == "handler":
            out.append(x)
    return out


def swallows(h):
    """A handler that can end without raising."""
    return any(strval(s.args[0]) != "raise" for s in h.args[2].args)


def texts(t):
    """One text as a list of pieces."""
    if t.op == "strcat":
        return [y for p in t.args for y in texts(p)]
    if is_call(t, "join") and t.args[1][1].op == "lst":
        sep, l = t.args[1]
        segs = list(l.args)
        if strval(sep) == "":
            return [y for s in segs for y in seg_text(s, "")]
        if strval(sep) is not None and segs and segs[0].op == "item":
            return texts(segs[0].args[0]) + [y for s in segs[1:] for y in seg_text(s, strval(sep))]
    s = strval(t)
    if s is not None:
        return [item(const(ch)) for ch in s]
    if t.op == "ite":
        return T.cseg(t.args[0], lst(texts(t.args[1])), lst(texts(t.args[2])))
    if is_call(t, "str") and len(t.args[1]) == 1:
        return [item(mk("call", "str", (t.args[1][0],), ()))]
    return [item(t)]


def seg_text(s, sep):
    pre = texts(const(sep)) if sep else []
    if s.op == "item":
        return pre + texts(s.args[0])
    if s.op == "rep":
        v = T.fresh_bv()
        body = subst(s.args[2], {s.args[1].key: v})
        return T.rep(s.args[0], v, lst([y for b in body.args for y in seg_text(b, sep)]))
    if s.op == "cseg":
        return T.cseg(s.args[0], lst([y for b in s.args[1].args for y in seg_text(b, sep)]), lst([y for b in s.args[2].args for y in seg_text(b, sep)]))
    return [s]


def written(world, f):
    """Text written to file f as a list of pieces."""
    out = []
    for s in world.args:
        if s.op == "item":
            e = s.args[0]
            if E.ev_kind(e) == "WRITE" and e.args[1] == f:
                out.extend(texts(e.args[2]))
        elif s.op == "rep":
            v = T.fresh_bv()
            b = written(subst(s.args[2], {s.args[1].key: v}), f)
            if b.args:
                out.extend(T.rep(s.args[0], v, b))
        elif s.op == "cseg":
            a, b = written(s.args[1], f), written(s.args[2], f)
            if a.args or b.args:
                out.extend(T.cseg(s.args[0], a, b))
        elif T.occurs(s, lambda x: x.op == "ev" and x.args[0] == "WRITE" and x.args[1] == f):
            out.append(s)
    return lst(out)


def tokens(cmd):
    """Words of the command line, as lists of pieces (constant characters or value terms)."""
    if cmd.op == "lst" and all(s.op == "item" for s in cmd.args):
        return [word(s.args[0]) for s in cmd.args]
    if cmd.op == "ite":
        return None
    parts = cmd.args if cmd.op == "strcat" else (cmd,)
    out, cur, quote = [], [], None
    started = False
    for p in parts:
        s = strval(p)
        if s is None:
            cur.append(p)
            started = True
            continue
        for ch in s:
            if quote:
                if ch == quote:
                    quote = None
                else:
                    cur.append(ch)
            elif ch in "'\"":
                quote = ch
                started = True
            elif ch in " \t\n":
                if started:
                    out.append(pack(cur))
                cur, started = [], False
            else:
                cur.append(ch)
                started = True
    if started:
        out.append(pack(cur))
    return out


def pack(cur):
    return T.strcat(*[const(c) if isinstance(c, str) else unquote(c) for c in cur]) if cur else const("")


def unquote(t):
    if is_call(t, "shlex.quote") and len(t.args[1]) == 1:
        return t.args[1][0]
    return t


def word(t):
    return T.strcat(unquote(t))


class Exchange:
    def __init__(self, c):
        self.c = c
        self.site = c.where("decoding", FN)
        self.cn = Canon()
        s = c.summary("decoding", FN, opaque={"internal_decoder_path", "decode_using_pymatching", "sample_decode_count_correct"})
        self.raw = strip_raise(s.world)
        self.tries = handlers(self.raw)
        w = self.cn(flatten(self.raw))
        self.circ = T.sym("circuit", "stim.Circuit")
        self.dets = T.sym("det_samples", "np.ndarray")
        ret = self.cn(s.ret)
        for x in list(T.subterms(w)) + list(T.subterms(ret)):
            if x.op == "sym" and x.args[0] == "circuit":
                self.circ = x
            if x.op == "sym" and x.args[0] == "det_samples":
                self.dets = x
        self.path = None
        for x in T.subterms(w):
            if is_call(x, "internal_decoder_path"):
                self.path = x
        ndet = T.mk("attr", self.circ, "num_detectors", "int")
        width = T.idx(mk("attr", self.dets, "shape", "?"), num(1))
        self.base = Facts().assume(T.eq(width, ndet))
        if self.path is not None:
            self.base = self.base.assume(not_(T.isnone(self.path)))
        self.bad, self.log = split_raise(w)
        self.ret = ret
        self.world = w
        self.ndet, self.width = ndet, width
        self.corr = next((x for x in T.subterms(w) if x.op == "sym" and x.args[0] == "use_correlated_decoding"), None)

    def calls(self, log):
        return [(g, e.args[1]) for _, g, k, e in E.walk(E.tree(log)) if k == "ev" and E.ev_kind(e) == "OP" and e.args[1].op == "occ"
                and (e.args[1].args[0].startswith(("subprocess.", "os.")))]

    def run(self, flag):
        """(the one call of the external program, its command) with correlated decoding on or off."""
        f = Facts()
        if self.corr is not None:
            f = f.assume(T.truth(self.corr) if flag else not_(T.truth(self.corr)))
        log = f.reduce(self.base.reduce(self.log))
        cs = self.calls(log)
        return log, cs, f


def command(c, x):
    """One external call whose failure raises, with the right files; returns token lists for both settings."""
    res = []
    for flag in (False, True):
        log, cs, f = x.run(flag)
        if not c.ob("the external decoder is run exactly once", x.site, len(cs) == 1, "; ".join(T.show(e) for _, e in cs)):
            return None
        g, e = cs[0]
        args = e.args[1].args
        cmd = args[0].args[0] if args and args[0].op == "item" else None
        toks = tokens(f.reduce(cmd)) if cmd is not None else None
        if not c.ob("the command line can be read off the source", x.site, toks is not None, T.show(e)):
            return None
        res.append((log, e, toks, g))
    return res


def flags(c, x):
    r = command(c, x)
    if r is None:
        return
    plain = [strval(t) for t in r[0][2]]
    corr = [strval(t) for t in r[1][2]]
    c.ob("correlated decoding is not requested when the plain decoder is named", x.site, not any(t in FLAGS or t is not None and "corr" in t for t in plain), str(plain))
    c.ob("correlated decoding is requested when the correlated decoder is named", x.site, FLAGS <= set(corr), str(corr))
    a = [T.show(t) for t in r[0][2]]
    b = [T.show(t) for t in r[1][2] if strval(t) not in FLAGS]
    c.ob("the two settings differ in the correlation flags only", x.site, sorted(a) == sorted(b), f"{a} / {b}")


def closed(c, x):
    """Failures end in exceptions."""
    for h in x.tries:
        c.ob("no handler turns a failure into a result", x.site, not swallows(h), T.show(h)[:400])
    c.ob("a missing binary is an error", x.site, x.path is not None and equal(x.bad, TRUE, Facts().assume(T.isnone(x.path)))[0] is None, T.show(x.bad)[:400])
    enters = {T.show(e.args[1]) for _, _, k, e in E.walk(E.tree(x.world)) if k == "ev" and E.ev_kind(e) == "ENTER"}
    c.ob("nothing suppresses exceptions", x.site, not any("suppress" in e for e in enters), str(enters))
    r = command(c, x)
    if r is None:
        return
    for log, e, toks, g in r:
        name = e.args[0]
        kw = {strval(s.args[0].args[0].args[0]): s.args[0].args[1].args[0] for s in e.args[1].args if s.op == "item" and s.args[0].op == "lst" and len(s.args[0].args) == 2
              and s.args[0].args[0].op == "item" and strval(s.args[0].args[0].args[0]) is not None}
        ok = name in RAISING or name == "subprocess.run" and kw.get("check") == TRUE
        c.ob("a failing decoder process raises", x.site, ok, T.show(e))
        c.ob("the decoder is run unconditionally", x.site, not g, str([T.show(q) for q in g]))
    c.agrees("decoding", "internal_decoder_path", "spec_decoding", "internal_decoder_path", rule="the decoder binary is one of the documented files that exists, or none")


def after(toks, flag):
    out = [toks[j + 1] for j in range(len(toks) - 1) if strval(toks[j]) == flag]
    return out[0] if len(out) == 1 else None


def files(c, x):
    """What the decoder is given."""
    r = command(c, x)
    if r is None:
        return
    for log, e, toks, g in r:
        c.ob("the program run is the decoder binary", x.site, x.path is not None and toks[0] in (x.path, T.strcat(T.tostr(x.path))), T.show(toks[0]))
        c.ob("the decoder matches from the error model file", x.site, strval(after(toks, "-mode") or const("")) == "fi_match_from_dem", str([T.show(t) for t in toks]))
        for flag, spec, what in (("-dem_fname", "write_model", "the complete decomposed error model"), ("-dets_fname", "write_shots", "one line per shot naming the detectors that fired")):
            name = after(toks, flag)
            if not c.ob(f"the file given with {flag} is named once", x.site, name is not None, str([T.show(t) for t in toks])):
                continue
            order = []
            fs = set()
            for it in E.tree(log).items:
                if it[0] == "ev":
                    ev = it[1]
                    k = E.ev_kind(ev)
                    if k in ("OPEN", "CLOSE") and T.strcat(T.tostr(ev.args[1].args[0])) == T.strcat(T.tostr(name)):
                        order.append((k, strval(ev.args[1].args[1])))
                        fs.add(ev.args[1])
                    elif k == "OP" and ev.args[1] == e:
                        order.append(("RUN", None))
            upto = order[:order.index(("RUN", None))] if ("RUN", None) in order else []
            if not c.ob(f"the file given with {flag} is written once and closed before the decoder runs", x.site, upto == [("OPEN", "w"), ("CLOSE", "w")] and len(fs) >= 1, str(order)):
                continue
            f = [y for y in fs if strval(y.args[1]) == "w"][0]
            got = trim(written(log, f))
            s = c.summary("spec_decoding", spec, args={"circuit": x.circ, "det_samples": x.dets})
            sw = x.cn(s.world)
            f0 = next(y for y in T.subterms(sw) if y.op == "file")
            want = trim(written(x.base.reduce(sw), f0))
            if flag == "-dem_fname":
                got = strip_nl(got)
                want = strip_nl(want)
            m, pr = equal(merge(got), merge(want), x.base)
            c.count("cases compared", max(1, pr.cases))
            c.ob(f"the file given with {flag} holds {what}", x.site, m is None, m.describe() if m else "")


def trim(t):
    return t


def strip_nl(t):
    a = list(t.args)
    while a and a[-1] == item(const("\n")):
        a.pop()
    return lst(a)


def merge(t):
    return t


def reading(c, x):
    """How the output becomes predictions."""
    r = command(c, x)
    if r is None:
        return
    s = c.summary("spec_decoding", "read_predictions", args={"circuit": x.circ, "det_samples": x.dets})
    sbad, slog = split_raise(x.cn(strip_raise(s.world)))
    sret = x.cn(s.ret)
    for log, e, toks, g in r:
        name = after(toks, "-out")
        if not c.ob("the output file is named once", x.site, name is not None, str([T.show(t) for t in toks])):
            continue
        opened = [(j, it[1].args[1]) for j, it in enumerate(E.tree(log).items) if it[0] == "ev" and E.ev_kind(it[1]) == "OPEN" and strval(it[1].args[1].args[1]) == "r"]
        run = [j for j, it in enumerate(E.tree(log).items) if it[0] == "ev" and E.ev_kind(it[1]) == "OP" and it[1].args[1] == e]
        ok = len(opened) == 1 and run and opened[0][0] > run[0] and T.strcat(T.tostr(opened[0][1].args[0])) == T.strcat(T.tostr(name))
        if not c.ob("the predictions are read from the decoder's output file after it has run", x.site, ok, str([T.show(f) for _, f in opened])):
            continue
        f = opened[0][1]
        m = {f.key: mk("file", const("$out"), const("r"), NONE)}
        norm = lambda t: chars(subst(t, m))
        bad, ret = norm(x.base.reduce(x.bad)), norm(x.base.reduce(x.ret))
        b2, r2 = chars(x.base.reduce(sbad)), chars(x.base.reduce(sret))
        mm, pr = equal(bad, b2, x.base)
        c.count("cases compared", max(1, pr.cases))
        c.ob("output that is short, malformed or misaligned raises, for every shot and observable", x.site, mm is None, mm.describe() if mm else "")
        mm, pr = equal(ret, r2, x.base.assume(not_(b2)))
        c.count("cases compared", max(1, pr.cases))
        c.ob("prediction s,o is the o-th character of line s", x.site, mm is None, mm.describe() if mm else "")
        reads = lambda l: E.project(l, lambda ev: ev if E.ev_kind(ev) == "OP" and ev.args[1].op == "occ" and ev.args[1].args[0].startswith(".read") else None)
        mm, pr = equal(norm(reads(log)), chars(x.base.reduce(reads(slog))), x.base)
        c.ob("the output is read character by character in order", x.site, mm is None, mm.describe() if mm else "")


def chars(t):
    """Tests on one read character; an empty read is the end of the file, where the line end that must follow is missing too."""
    def f(x):
        if x.op in ("truth", "insub"):
            y = x.args[0] if x.op == "truth" else x
            if y.op == "insub" and strval(y.args[1]) in ("01", "10") and y.args[0].op == "occ":
                return T.or_(T.eq(y.args[0], const("0")), T.eq(y.args[0], const("1")))
        return None
    return T.transform(t, f)
