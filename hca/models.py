"""Models of builtins, containers and the external libraries the repository uses."""
from . import terms as T
from .terms import (mk, const, num, TRUE, FALSE, NONE, UNDEF, EMPTY, ite, and_, or_, not_, eq, lst, item,
                    spread, concat, listof, length, idx, strcat, tostr, truth, in_, add, sub, mul,
                    intval, numval, strval, is_const, fresh_bv, subst, dstore)
from . import engine as E
from .engine import mkset, set_op, simplify_call, sorted_term, T_max0, keys_of, Cell, slice_term

GATE_ALIAS = {"CNOT": "CX", "ZCX": "CX", "ZCY": "CY", "ZCZ": "CZ", "MZ": "M", "RZ": "R", "H_XZ": "H", "H_ZX": "H",
              "H_ZY": "H_YZ", "E": "CORRELATED_ERROR", "SQRT_Z": "S", "CORRELATED_ERROR": "CORRELATED_ERROR"}

MUTABLE_CTORS = {"numpy.zeros", "numpy.array", "numpy.resize", "numpy.ones", "numpy.empty", "networkx.Graph",
                 "numpy.full", "numpy.copy", "networkx.MultiGraph", "networkx.DiGraph", "numpy.zeros_like", "numpy.concatenate",
                 "numpy.append"}

EFFECT = E.EFFECT_CALLS


def fpath(t):
    while t.op == "call" and t.args[0] in ("pathlib.Path", "str", "os.fspath") and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def is_path(t):
    if t.op == "call":
        return t.args[0] == "pathlib.Path" or t.args[0].startswith("pathlib.Path.") if isinstance(t.args[0], str) else False
    if t.op == "attr":
        return t.args[1] in ("parent", "anchor") and is_path(t.args[0])
    if t.op == "idx":
        return t.args[0].op == "attr" and t.args[0].args[1] == "parents" and is_path(t.args[0].args[0])
    if t.op == "mcall":
        return t.args[0] in ("resolve", "absolute", "expanduser", "with_suffix", "with_name") and is_path(t.args[1])
    return t.op in ("sym", "attr") and t.args[-1] in ("pathlib.Path", "Path")


def fz(I, args):
    return tuple(I.freeze(a) for a in args)


def fkw(I, kw):
    return tuple(sorted((k, I.freeze(v)) for k, v in kw.items()))


def arglist(I, args):
    segs = []
    for a in args:
        if a.op == "argseg":
            segs.extend(I.freeze(a.args[0]).args)
        else:
            segs.append(item(I.freeze(a)))
    return lst(segs)


def text_of(I, args, sep=" ", end="\n"):
    parts = []
    for j, a in enumerate(args):
        if j:
            parts.append(const(sep))
        if a.op == "argseg":
            parts.append(mk("call", "join", (const(sep), a.args[0]), ()))
        else:
            parts.append(tostr(I.freeze(a)))
    parts.append(const(end))
    return strcat(*parts)


def open_file(I, path, mode):
    path = fpath(I.freeze(path))
    k = I.st.occ.get("open", 0)
    I.st.occ["open"] = k + 1
    f = mk("file", path, mode, lst([item(i) for i in I.ctx] + [item(num(k))]))
    I.emit("OPEN", f)
    return f


def ext_call(I, name, args, kw, node, stmt):
    h = I.hooks.get("ext:" + name)
    if h is not None:
        return h(I, args, kw, stmt)
    f = TABLE.get(name)
    if f is not None:
        r = f(I, args, kw)
        if r is not None:
            return r
    if name.split(".")[-1] in E.EXCEPTIONS:
        return mk("exc", name)
    if name in EFFECT:
        r = I.occ(name, arglist(I, args) if not kw else concat(arglist(I, args), lst([item(listof(const(k), v)) for k, v in fkw(I, kw)])))
        I.emit("OP", r)
        return r
    if name in MUTABLE_CTORS:
        return I.alloc("ext", simplify_call(name, fz(I, args), fkw(I, kw)))
    fa = fz(I, args)
    if any(a.op == "argseg" for a in fa):
        fa = (mk("argseg", arglist(I, args)),)
    if stmt:
        I.emit("CALL", mk("call", name, fa, fkw(I, kw)))
        return NONE
    return simplify_call(name, fa, fkw(I, kw))


# ------------------------------------------------------------ builtins

def b_print(I, args, kw):
    f = kw.get("file")
    end = strval(kw["end"]) if "end" in kw and strval(kw["end"]) is not None else "\n"
    sep = strval(kw["sep"]) if "sep" in kw and strval(kw["sep"]) is not None else " "
    txt = text_of(I, args, sep, end)
    if f is None or f == NONE:
        I.emit("STDOUT", txt)
    elif f.op == "ext" and f.args[0] == "sys.stderr":
        I.emit("STDERR", txt)
    elif f.op == "ext" and f.args[0] == "sys.stdout":
        I.emit("STDOUT", txt)
    else:
        I.emit("WRITE", I.freeze(f), txt)
    return NONE


def b_open(I, args, kw):
    mode = args[1] if len(args) > 1 else kw.get("mode", const("r"))
    return open_file(I, args[0], mode)


def b_len(I, args, kw):
    v = args[0]
    if v.op == "ref":
        c = I.cell(v)
        if c.kind in ("list", "circ"):
            return length(c.data)
        return length(I.freeze(v))
    return length(I.freeze(I.seq(v)) if I.kind_of(v) in ("list", "tuple") else I.freeze(v))


def b_range(I, args, kw):
    a = [I.freeze(x) for x in args]
    if len(a) == 1:
        lo, hi, st = num(0), a[0], num(1)
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], num(1)
    else:
        lo, hi, st = a
    s = intval(st)
    if s is None:
        return simplify_call("range", tuple(a), ())
    if s > 0:
        n = T.neg(T.floordiv(sub(lo, hi), num(s)))
    else:
        n = T.neg(T.floordiv(sub(hi, lo), num(-s)))
    n = I.simp_num(T_max0(I.simp_num(n)))
    k = intval(n)
    if k is not None and k <= 4096:
        return lst([item(add(lo, num(j * s))) for j in range(k)])
    b = fresh_bv()
    return lst(T.rep(n, b, listof(add(lo, mul(num(s), b)))))


def single_rep(l):
    """(n, elem function) for sequences indexable by position, else None."""
    if l.op != "lst":
        return length(l), lambda i: idx(l, i)
    if len(l.args) == 1:
        s = l.args[0]
        if s.op == "spread":
            x = s.args[0]
            return length(x), lambda i: idx(x, i)
        if s.op == "rep" and len(s.args[2].args) == 1 and s.args[2].args[0].op == "item":
            n, bv, body = s.args
            return n, lambda i: subst(body.args[0].args[0], {bv.key: i})
    return None


def alternatives(l):
    """A sequence that is one of two, as such."""
    if l.op == "lst" and len(l.args) == 1 and l.args[0].op == "cseg":
        return mk("ite", *l.args[0].args)
    return l


def b_enumerate(I, args, kw):
    l = alternatives(I.seq(args[0]))
    start = kw.get("start", args[1] if len(args) > 1 else num(0))
    if l.op == "ite":
        return ite(l.args[0], b_enumerate(I, [l.args[1]], {"start": start}), b_enumerate(I, [l.args[2]], {"start": start}))
    if l.op == "lst" and all(s.op == "item" for s in l.args):
        return lst([item(listof(add(start, num(j)), s.args[0])) for j, s in enumerate(l.args)])
    r = single_rep(l)
    if r is not None:
        b = fresh_bv()
        return lst(T.rep(r[0], b, listof(listof(add(start, b), r[1](b)))))
    out = []
    off = start
    for s in l.args:
        if s.op == "item":
            out.append(item(listof(off, s.args[0])))
            off = add(off, num(1))
            continue
        r = single_rep(lst([s]))
        if r is None:
            b = fresh_bv()
            L = length(l)
            return lst(T.rep(L, b, listof(listof(add(start, b), idx(l, b)))))
        b = fresh_bv()
        out.extend(T.rep(r[0], b, listof(listof(add(off, b), r[1](b)))))
        off = add(off, r[0])
    return lst(out)


def b_zip(I, args, kw):
    ls = [alternatives(I.seq(a)) for a in args]
    for j, l in enumerate(ls):
        if l.op == "ite":
            return ite(l.args[0], *[b_zip(I, ls[:j] + [x] + ls[j + 1:], kw) for x in l.args[1:]])
    if all(l.op == "lst" and all(s.op == "item" for s in l.args) for l in ls):
        n = min(len(l.args) for l in ls)
        return lst([item(listof(*[l.args[j].args[0] for l in ls])) for j in range(n)])
    n = simplify_call("min", tuple(length(l) for l in ls), ())
    b = fresh_bv()
    return lst(T.rep(n, b, listof(listof(*[idx(l, b) for l in ls]))))


def b_sorted(I, args, kw):
    v = args[0]
    x = I.seq(v)
    x = I.freeze(x)
    key = kw.get("key")
    if key is not None and key != NONE:
        key = I.freeze(key)
    else:
        key = None
    rev = kw.get("reverse")
    first = False
    if key is not None and key.op == "lam" and len(key.args[0]) == 1 and key.args[2] == EMPTY:
        pv = key.args[0][0]
        if key.args[1] == pv:
            key = None
        elif key.args[1] == mk("idx", pv, num(0)):
            first = True
    # sorting (key, value) pairs of a mapping is sorting its (distinct) keys
    if (key is None or first) and x.op == "lst" and len(x.args) == 1 and x.args[0].op == "rep":
        n, bv, body = x.args[0].args
        if len(body.args) == 1 and body.args[0].op == "item":
            t = body.args[0].args[0]
            if t.op == "lst" and len(t.args) == 2 and all(s.op == "item" for s in t.args):
                k0, v0 = t.args[0].args[0], t.args[1].args[0]
                if k0.op == "idx" and k0.args[0].op == "keys" and k0.args[1] == bv and v0.op == "idx" and v0.args[1] == k0:
                    D = k0.args[0].args[0]
                    sk = sorted_term(keys_of(D), None)
                    b = fresh_bv()
                    r = lst(T.rep(length(D), b, listof(listof(idx(sk, b), idx(D, idx(sk, b))))))
                    return I.alloc("list", r if rev is None or rev == FALSE else mk("call", "reversed", (r,), ()))
    r = sorted_term(x, key)
    if rev is not None and rev != FALSE:
        r = mk("call", "reversed", (r, rev), ())
    return I.alloc("list", r)


def b_list(I, args, kw):
    return I.alloc("list", I.seq(args[0]) if args else EMPTY)


def b_tuple(I, args, kw):
    if not args:
        return EMPTY
    r = I.seq(args[0])
    return r


def b_set(I, args, kw):
    return I.alloc("set", I.setval(args[0]) if args else mk("setlit"))


def b_frozenset(I, args, kw):
    return I.setval(args[0]) if args else mk("setlit")


def b_dict(I, args, kw):
    ref = I.alloc("dict", mk("dictv", ()))
    if args:
        v = args[0]
        d = I.deref(v)
        if I.kind_of(v) == "dict" or d.op in ("dictv", "store"):
            I.setcell(ref, d)
        else:
            l = I.seq(v)

            def body(p):
                k, x = idx(p, num(0)), idx(p, num(1))
                I.setcell(ref, dstore(I.cell(ref).data, I.freeze(k), I.own(x)))
                return {"fall": (TRUE, I.st, None)}
            o = I.iterate(l, body)
            I.st = o["fall"][1]
    for k, v in kw.items():
        I.setcell(ref, dstore(I.cell(ref).data, const(k), I.own(v)))
    return ref


def b_minmax(name):
    def f(I, args, kw):
        if "key" in kw or "default" in kw:
            return None
        a = [I.freeze(I.seq(x)) if len(args) == 1 else I.freeze(x) for x in args]
        r = simplify_call(name, tuple(a), ())
        return I.simp_num(r)
    return f


def b_sum(I, args, kw):
    r = E.sum_term(I.freeze(I.seq(args[0])))
    if len(args) > 1:
        r = add(r, I.freeze(args[1]))
    return r


def quant(l, isany):
    """or/and over a list term of booleans."""
    if l.op == "ite":
        return ite(l.args[0], quant(l.args[1], isany), quant(l.args[2], isany))
    segs = l.args if l.op == "lst" else [spread(l)]
    parts = []
    for s in segs:
        if s.op == "item":
            c = truth(s.args[0])
        elif s.op == "cseg":
            c = ite(s.args[0], quant(s.args[1], isany), quant(s.args[2], isany))
        elif s.op == "rep":
            n, bv, body = s.args
            c0 = quant(body, isany)
            c0 = c0 if isany else not_(c0)
            b = fresh_bv()
            c0 = subst(c0, {bv.key: b})
            nb, (c1,) = T.close(b, (c0,))
            c = FALSE if c1 == FALSE else mk("any", n, nb, c1)
            c = c if isany else not_(c)
        else:
            x = s.args[0]
            b = fresh_bv()
            c0 = truth(idx(x, b))
            c0 = c0 if isany else not_(c0)
            nb, (c1,) = T.close(b, (c0,))
            c = mk("any", length(x), nb, c1)
            c = c if isany else not_(c)
        parts.append(c)
    return or_(*parts) if isany else and_(*parts)


def b_any(I, args, kw):
    return quant(I.freeze(I.seq(args[0])), True)


def b_all(I, args, kw):
    return quant(I.freeze(I.seq(args[0])), False)


def b_isinstance(I, args, kw):
    v, c = args
    c = I.deref(c)
    cs = [s.args[0] for s in c.args] if c.op == "lst" else [c]
    return or_(*[isinst(I, v, x) for x in cs])


def isinst(I, v, c):
    name = c.args[0].split(".")[-1] if c.op in ("ext", "cls") else None
    if v.op == "ite":
        return ite(v.args[0], isinst(I, v.args[1], c), isinst(I, v.args[2], c))
    if v.op == "ref":
        cell = I.cell(v)
        if cell.kind == "inst":
            return T.boolc(cell.cls == name)
        if cell.kind in ("list", "dict", "set"):
            return T.boolc(cell.kind == name)
    if v.op == "obj":
        return T.boolc(v.args[0] == name)
    if v.op == "op" and name in ("CircuitInstruction", "CircuitRepeatBlock") and strval(v.args[0]) is not None:
        return T.boolc((strval(v.args[0]) == "REPEAT") == (name == "CircuitRepeatBlock"))
    if v.op == "const" and name is not None:
        return T.boolc(v.args[0] == name)
    if v.op in ("lst", "setlit", "setof", "strcat") and name and name[0].isupper():
        return FALSE
    ty = I.typeof(v)
    if ty is not None and c.op == "cls" and E.split_type(ty)[0] == name:
        return TRUE
    if ty is not None and c.op == "cls":
        h = E.split_type(ty)[0]
        if h in ("complex", "int", "float", "str", "bool") or (I.p.find_class(h) is not None and not I.p.related(h, name)):
            return FALSE
    return mk("isinst", I.freeze(v), name or I.freeze(c))


def b_map(I, args, kw):
    fn = args[0]
    ref = I.alloc("list", EMPTY)
    src = I.seq(args[1]) if len(args) == 2 else b_zip(I, args[1:], {})

    def body(v):
        r = I.apply(fn, [v] if len(args) == 2 else [idx(v, num(j)) for j in range(len(args) - 1)], {})
        I.setcell(ref, concat(I.cell(ref).data, listof(r)))
        return {"fall": (TRUE, I.st, None)}
    o = I.iterate(src, body)
    I.st = o["fall"][1]
    return I.cell(ref).data


def b_filter(I, args, kw):
    fn = args[0]
    ref = I.alloc("list", EMPTY)

    def body(v):
        c = truth(v) if fn == NONE else I.truth_of(I.apply(fn, [v], {}))
        I.setcell(ref, concat(I.cell(ref).data, mk("lst", *T.cseg(c, listof(v), EMPTY))))
        return {"fall": (TRUE, I.st, None)}
    o = I.iterate(I.seq(args[1]), body)
    I.st = o["fall"][1]
    return I.cell(ref).data


def b_reversed(I, args, kw):
    l = I.seq(args[0])
    if l.op == "lst" and all(s.op == "item" for s in l.args):
        return mk("lst", *reversed(l.args))
    return mk("call", "reversed", (l,), ())


def b_str(I, args, kw):
    return tostr(I.freeze(args[0])) if args else const("")


def b_repr(I, args, kw):
    return E.reprt(I.freeze(args[0]))


def b_next(I, args, kw):
    l = I.seq(args[0])
    if len(args) > 1:
        if l.op == "lst" and not l.args:
            return args[1]
        if l.op == "lst" and l.args[0].op == "item":
            return l.args[0].args[0]
        if l.op == "lst" and all(s.op in ("item", "cseg") for s in l.args):
            r = args[1]
            for s in reversed(l.args):
                if s.op == "item":
                    r = s.args[0]
                elif len(s.args[1].args) <= 1 and len(s.args[2].args) <= 1 and all(q.op == "item" for q in s.args[1].args + s.args[2].args):
                    a = s.args[1].args[0].args[0] if s.args[1].args else r
                    b = s.args[2].args[0].args[0] if s.args[2].args else r
                    r = ite(s.args[0], a, b)
                else:
                    return None
            return r
        # first element satisfying a filter over a symbolic range
        if l.op == "lst" and len(l.args) == 1 and l.args[0].op == "rep":
            n, bv, body = l.args[0].args
            if len(body.args) == 1 and body.args[0].op == "cseg" and body.args[0].args[2] == EMPTY and len(body.args[0].args[1].args) == 1 \
                    and body.args[0].args[1].args[0].op == "item":
                b = fresh_bv()
                c = subst(body.args[0].args[0], {bv.key: b})
                v = subst(body.args[0].args[1].args[0].args[0], {bv.key: b})
                nb, (c1,) = T.close(b, (c,))
                f = mk("first", n, nb, c1)
                return ite(mk("any", n, nb, c1), subst(v, {b.key: f}), args[1])
        return None
    return idx(l, num(0))


def b_getattr(I, args, kw):
    nm = strval(args[1])
    if nm is not None:
        return I.getattr(args[0], nm)
    x = args[1]
    if x.op == "ite":
        return I.fork(x.args[0], lambda: b_getattr(I, [args[0], x.args[1]], kw), lambda: b_getattr(I, [args[0], x.args[2]], kw))
    return mk("call", "getattr", fz(I, args), ())


def b_round(I, args, kw):
    return None


def b_divmod(I, args, kw):
    a, b = fz(I, args)
    return listof(T.floordiv(a, b), T.mod(a, b))


def b_pow(I, args, kw):
    return T.powt(*fz(I, args[:2])) if len(args) == 2 else None


def b_abs(I, args, kw):
    return simplify_call("abs", fz(I, args), ())


def b_partial(I, args, kw):
    return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))


def b_reduce(I, args, kw):
    fn = args[0]
    l = I.seq(args[1])
    if len(args) < 3:
        if l.op == "lst" and l.args and l.args[0].op == "item":
            acc = l.args[0].args[0]
            l = mk("lst", *l.args[1:])
        else:
            return None
    else:
        acc = args[2]
    fr = I.alloc("frame", {"acc": acc})

    def body(v):
        cur = I.st.heap[fr.args[0]].data["acc"]
        r = I.apply(fn, [cur, v], {})
        I.st.heap[fr.args[0]] = Cell("frame", {"acc": r})
        return {"fall": (TRUE, I.st, None)}
    o = I.iterate(l, body)
    I.st = o["fall"][1]
    return I.st.heap[fr.args[0]].data["acc"]


def b_product(I, args, kw):
    ref = I.alloc("list", EMPTY)
    seqs = [I.seq(a) for a in args]
    if "repeat" in kw and intval(kw["repeat"]):
        seqs = seqs * intval(kw["repeat"])

    def level(j, acc):
        if j == len(seqs):
            I.setcell(ref, concat(I.cell(ref).data, listof(listof(*acc))))
            return {"fall": (TRUE, I.st, None)}
        o = I.iterate(seqs[j], lambda v: level(j + 1, acc + [v]))
        I.st = o["fall"][1]
        return {"fall": (TRUE, I.st, None)}
    level(0, [])
    return I.cell(ref).data


def b_chain(I, args, kw):
    segs = []
    for a in args:
        if a.op == "argseg":
            return None
        segs.append(I.seq(a))
    return concat(*segs)


def b_chain_from(I, args, kw):
    ref = I.alloc("list", EMPTY)

    def body(v):
        I.setcell(ref, concat(I.cell(ref).data, I.seq(v)))
        return {"fall": (TRUE, I.st, None)}
    o = I.iterate(I.seq(args[0]), body)
    I.st = o["fall"][1]
    return I.cell(ref).data


def b_defaultdict(I, args, kw):
    r = I.alloc("dict", mk("dictv", ()))
    I.st.heap[r.args[0]] = Cell("dict", mk("dictv", ()), args[0] if args else None)
    if len(args) > 1:
        I.st.heap[r.args[0]] = Cell("dict", I.freeze(args[1]), mk("total", args[0]))
    return r


def b_replace(I, args, kw):
    o = args[0]
    ci = I.class_of(o) if o.op != "obj" else I.p.find_class(o.args[0])
    if ci is None or not ci.dataclass:
        return None
    k2 = {}
    for f, _, _ in ci.fields:
        cur = I.getattr(o, f)
        if f in kw:
            k2[f] = kw[f]
        elif "**" in kw:
            k2[f] = ite(in_(const(f), kw["**"]), idx(kw["**"], const(f)), cur)
        else:
            k2[f] = cur
    return I.instantiate(ci, [], k2)


def b_asdict(I, args, kw):
    o = args[0]
    ci = I.class_of(o) if o.op != "obj" else I.p.find_class(o.args[0])
    if ci is None:
        return None
    return I.alloc("dict", mk("dictv", tuple((const(f), I.own(I.getattr(o, f))) for f, _, _ in ci.fields)))


def b_astuple(I, args, kw):
    o = args[0]
    ci = I.class_of(o) if o.op != "obj" else I.p.find_class(o.args[0])
    if ci is None:
        return None
    return listof(*[I.own(I.getattr(o, f)) for f, _, _ in ci.fields])


def b_fields(I, args, kw):
    o = args[0]
    ci = I.p.find_class(o.args[0]) if o.op == "cls" else (I.class_of(o) if o.op != "obj" else I.p.find_class(o.args[0]))
    if ci is None:
        return None
    return lst([item(mk("obj", "Field", (("name", const(f)),))) for f, _, _ in ci.fields])


def b_attrgetter(I, args, kw):
    names = [strval(a) for a in args]
    if any(n is None or "." in n for n in names):
        return None
    p = T.fresh_phi("?")
    v = [mk("attr", p, n, E.EXT_ATTR.get(n, "?")) for n in names]
    return E.close_lam([p], v[0] if len(v) == 1 else listof(*v), EMPTY)


def b_circuit(I, args, kw):
    if not args:
        return I.alloc("circ", EMPTY)
    a = I.freeze(args[0])
    return I.alloc("circ", lst([spread(mk("call", "stim.Circuit", (a,), ()))]))


def b_exists(I, args, kw):
    p = fpath(I.freeze(args[0]))
    return mk("mcall", "exists", mk("call", "pathlib.Path", (p,), ()), (), ())


def joined(I, parts):
    """Path components joined (they are taken to be relative, after the first)."""
    out = []
    for k, a in enumerate(parts):
        if k:
            out.append(const("/"))
        out.append(tostr(fpath(I.freeze(a))))
    return strcat(*out)


def b_path(I, args, kw):
    p = I.freeze(args[0]) if args else const(".")
    if len(args) > 1:
        p = joined(I, args)
    return mk("call", "pathlib.Path", (fpath(p),), ())


def b_join(I, args, kw):
    return joined(I, args)


def b_vars(I, args, kw):
    return None


def b_math(fname):
    def f(I, args, kw):
        return simplify_call(fname, fz(I, args), ())
    return f


def b_super(I, args, kw):
    return None


def b_numpy_arange(I, args, kw):
    return None


def b_complex(I, args, kw):
    a = list(fz(I, args))
    for k in ("real", "imag"):
        if k in kw:
            a.append(I.freeze(kw[k]))
    if len(a) == 2:
        return add(a[0], mul(a[1], T.J))
    if len(a) == 1 and T.is_numeric(a[0]):
        return a[0]
    return None


def b_csvwriter(I, args, kw):
    lt = kw.get("lineterminator", const("\r\n"))
    return mk("csvw", I.freeze(args[0]), I.freeze(lt), fkw(I, {k: v for k, v in kw.items() if k != "lineterminator"}))


TABLE = {
    "print": b_print, "open": b_open, "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip,
    "sorted": b_sorted, "list": b_list, "tuple": b_tuple, "set": b_set, "frozenset": b_frozenset, "dict": b_dict,
    "min": b_minmax("min"), "max": b_minmax("max"), "sum": b_sum, "any": b_any, "all": b_all, "isinstance": b_isinstance,
    "map": b_map, "filter": b_filter, "reversed": b_reversed, "str": b_str, "repr": b_repr, "next": b_next,
    "iter": lambda I, a, k: I.seq(a[0]), "getattr": b_getattr, "divmod": b_divmod, "pow": b_pow, "abs": b_abs,
    "functools.partial": b_partial, "functools.reduce": b_reduce, "itertools.product": b_product, "itertools.chain": b_chain,
    "itertools.chain.from_iterable": b_chain_from, "collections.defaultdict": b_defaultdict, "dataclasses.replace": b_replace,
    "dataclasses.asdict": b_asdict, "dataclasses.astuple": b_astuple, "dataclasses.fields": b_fields,
    "operator.attrgetter": b_attrgetter, "stim.Circuit": b_circuit, "os.path.exists": b_exists, "os.path.isfile": b_exists,
    "pathlib.Path": b_path, "os.path.join": b_join, "math.floor": b_math("math.floor"), "math.ceil": b_math("math.ceil"), "math.sqrt": b_math("math.sqrt"),
    "math.pow": b_math("math.pow"), "int": b_math("int"), "float": b_math("float"), "complex": b_complex,
    "csv.writer": b_csvwriter, "collections.OrderedDict": b_dict, "collections.deque": b_list,
    "bool": lambda I, a, k: I.truth_of(a[0]) if a else FALSE,
    "typing.cast": lambda I, a, k: a[1],
    "math.prod": None, "numpy.bool8": None,
}
TABLE = {k: v for k, v in TABLE.items() if v is not None}


# ------------------------------------------------------------ containers

def container_method(I, recv, c, name, args, kw, node, stmt):
    k = c.kind
    if k == "list":
        return list_method(I, recv, c, name, args, kw, node, stmt)
    if k == "dict":
        return dict_method(I, recv, c, name, args, kw, node, stmt)
    if k == "set":
        return set_method(I, recv, c, name, args, kw, node, stmt)
    if k == "circ":
        return circ_method(I, recv, c, name, args, kw, node, stmt)
    return ext_method(I, recv, c, name, args, kw, node, stmt)


def list_method(I, recv, c, name, args, kw, node, stmt):
    d = c.data
    if name == "append":
        I.setcell(recv, concat(d, listof(args[0])))
        return NONE
    if name == "extend":
        I.setcell(recv, concat(d, I.seq(args[0])))
        return NONE
    if name == "insert":
        k = intval(args[0])
        if k == 0:
            I.setcell(recv, concat(listof(args[1]), d))
        else:
            I.setcell(recv, mk("call", "insert", (d,) + fz(I, args), ()))
        return NONE
    if name == "copy":
        return I.alloc("list", d)
    if name == "clear":
        I.setcell(recv, EMPTY)
        return NONE
    if name == "pop":
        k = intval(args[0]) if args else -1
        if k is not None and d.op == "lst":
            if k == -1 and d.args and d.args[-1].op == "item":
                I.setcell(recv, mk("lst", *d.args[:-1]))
                return d.args[-1].args[0]
            if k == 0 and d.args and d.args[0].op == "item":
                I.setcell(recv, mk("lst", *d.args[1:]))
                return d.args[0].args[0]
        kk = I.freeze(args[0]) if args else num(-1)
        I.setcell(recv, mk("call", "del", (d, kk), ()))
        return idx(d, kk)
    if name == "sort":
        key = kw.get("key")
        r = sorted_term(I.freeze(d), I.freeze(key) if key is not None and key != NONE else None)
        if "reverse" in kw and kw["reverse"] != FALSE:
            r = mk("call", "reversed", (r, kw["reverse"]), ())
        I.setcell(recv, r)
        return NONE
    if name == "reverse":
        I.setcell(recv, b_reversed(I, [d], {}))
        return NONE
    if name == "index" and d.op == "lst" and all(s.op == "item" for s in d.args):
        x = I.freeze(args[0])
        r = None
        for j, s in reversed(list(enumerate(d.args))):
            r = num(j) if r is None else ite(eq(x, s.args[0]), num(j), r)
        return r
    if name == "count" or name == "index":
        return mk("mcall", name, I.freeze(d), fz(I, args), ())
    return mk("mcall", name, I.freeze(d), fz(I, args), fkw(I, kw))


def dict_items(I, recv, d):
    ks = keys_of(d)
    if ks.op == "ite":
        return ite(ks.args[0], dict_items(I, recv, d.args[1]), dict_items(I, recv, d.args[2]))

    def val(k):
        v = idx(d, k)
        if recv is not None and I.mutable_value(v, recv):
            return mk("slot", recv, k)
        return v
    if ks.op == "lst":
        return lst([item(listof(s.args[0], val(s.args[0]))) for s in ks.args]) if all(s.op == "item" for s in ks.args) else None
    b = fresh_bv()
    k = idx(ks, b)
    return lst(T.rep(length(d), b, listof(listof(k, val(k)))))


def dict_values(I, recv, d):
    it = dict_items(I, recv, d)
    out = []
    for s in it.args:
        if s.op == "item":
            out.append(item(s.args[0].args[1].args[0]))
        else:
            n, bv, body = s.args
            b = fresh_bv()
            out.extend(T.rep(n, b, subst(listof(body.args[0].args[0].args[1].args[0]), {bv.key: b})))
    return lst(out)


def dict_method(I, recv, c, name, args, kw, node, stmt):
    d = c.data
    if name == "items":
        return dict_items(I, recv, d)
    if name == "keys":
        return keys_of(d)
    if name == "values":
        return dict_values(I, recv, d)
    if name == "get":
        k = I.freeze(args[0])
        dflt = args[1] if len(args) > 1 else kw.get("default", NONE)
        has = I.decide(in_(k, d))
        if has == FALSE:
            return dflt
        v = idx(d, k)
        if I.mutable_value(v, recv):
            v = mk("slot", recv, k)
        return ite(has, v, dflt)
    if name == "setdefault":
        k = I.freeze(args[0])
        dv = args[1] if len(args) > 1 else NONE
        if dv.op == "ref" and I.cell(dv).kind == "inst":
            I.slot_hint[recv.key] = I.cell(dv).cls
        ov = I.own(dv)
        if isinstance(c.cls, T.T) and c.cls.op == "total":
            return mk("slot", recv, k)
        has = in_(k, d)
        d2 = ite(has, d, dstore(d, k, ov))
        I.setcell(recv, d2)
        v = idx(d2, k)
        if I.mutable_value(v, recv):
            return mk("slot", recv, k)
        return v
    if name == "update":
        if args:
            I.dict_update(recv, args[0])
        for k, v in kw.items():
            I.setcell(recv, dstore(I.cell(recv).data, const(k), I.own(v)))
        return NONE
    if name == "copy":
        r = I.alloc("dict", d)
        if recv.key in I.slot_hint:
            I.slot_hint[r.key] = I.slot_hint[recv.key]
        return r
    if name == "clear":
        I.setcell(recv, mk("dictv", ()))
        return NONE
    if name == "pop":
        k = I.freeze(args[0])
        I.setcell(recv, mk("call", "del", (d, k), ()))
        v = idx(d, k)
        if len(args) > 1:
            return ite(in_(k, d), v, args[1])
        return v
    return mk("mcall", name, I.freeze(d), fz(I, args), fkw(I, kw))


def set_method(I, recv, c, name, args, kw, node, stmt):
    d = c.data
    if name == "add":
        I.setcell(recv, set_op("set|", d, mkset(listof(I.freeze(args[0])))))
        return NONE
    if name == "update":
        for a in args:
            I.setcell(recv, set_op("set|", I.cell(recv).data, I.setval(a)))
        return NONE
    if name == "clear":
        I.setcell(recv, mk("setlit"))
        return NONE
    if name in ("discard", "remove"):
        I.setcell(recv, set_op("set-", d, mkset(listof(I.freeze(args[0])))))
        return NONE
    ops = {"union": "set|", "intersection": "set&", "difference": "set-", "symmetric_difference": "set^"}
    if name in ops:
        r = d
        for a in args:
            r = set_op(ops[name], r, I.setval(a))
        return I.alloc("set", r)
    ups = {"difference_update": "set-", "intersection_update": "set&", "symmetric_difference_update": "set^"}
    if name in ups:
        for a in args:
            I.setcell(recv, set_op(ups[name], I.cell(recv).data, I.setval(a)))
        return NONE
    if name == "copy":
        return I.alloc("set", d)
    if name == "pop":
        I.setcell(recv, mk("call", "setpop", (d,), ()))
        return mk("call", "anyof", (d,), ())
    if name == "isdisjoint":
        return not_(truth(set_op("set&", d, I.setval(args[0]))))
    return mk("mcall", name, I.freeze(d), fz(I, args), fkw(I, kw))


def canon_gate(t):
    s = strval(t)
    if s is not None:
        return const(GATE_ALIAS.get(s.upper(), s.upper()))
    if t.op == "ite":
        return ite(t.args[0], canon_gate(t.args[1]), canon_gate(t.args[2]))
    return t


def as_targets(I, v):
    if v is None or v == NONE:
        return EMPTY
    k = I.kind_of(v)
    if k in ("list", "tuple", "set"):
        return I.freeze(I.seq(v))
    if v.op == "ite" and (v.args[1] == NONE or v.args[2] == NONE):
        return I.freeze(v)
    if T.sort(v) in ("int", "num", "str") or v.op == "call" and v.args[0].startswith("stim.target") and v.args[0] != "stim.target_rec_list":
        return listof(I.freeze(v))
    f = I.freeze(v)
    if f.op in ("lst",):
        return f
    if f.op == "call" and f.args[0] == "sorted":
        return lst([spread(f)])
    return lst([spread(f)])


def circ_method(I, recv, c, name, args, kw, node, stmt):
    d = c.data
    if name in ("append_operation", "append"):
        a = list(args)
        nm = a[0] if a else kw.get("name")
        tg = a[1] if len(a) > 1 else kw.get("targets", EMPTY)
        ar = a[2] if len(a) > 2 else kw.get("arg", kw.get("args", EMPTY))
        if nm.op not in ("const", "strcat", "ite", "attr", "call", "sym", "idx", "mcall", "phi"):
            nm = I.freeze(nm)
        op = mk("op", canon_gate(I.freeze(nm)), as_targets(I, tg), as_targets(I, ar))
        I.setcell(recv, concat(d, listof(op)))
        return NONE
    if name == "copy":
        return I.alloc("circ", d)
    if name == "clear":
        I.setcell(recv, EMPTY)
        return NONE
    if name in ("append_from_stim_program_text",):
        I.setcell(recv, concat(d, lst([spread(mk("call", "stim.Circuit", fz(I, args), ()))])))
        return NONE
    return mk("mcall", name, I.freeze(recv), fz(I, args), fkw(I, kw))


# gate targets: what kind they are and what they hold

TARGET = {"stim.target_x": "is_x_target", "stim.target_y": "is_y_target", "stim.target_z": "is_z_target", "stim.target_combiner": "is_combiner",
          "stim.target_rec": "is_measurement_record_target", "stim.GateTarget": "is_qubit_target"}


def op_attr(o, name):
    """Attributes of an instruction, or a gate target, that is known."""
    if o.op == "op" and strval(o.args[0]) is not None:
        rep = strval(o.args[0]) == "REPEAT"
        if name == "name":
            return o.args[0]
        if name == "repeat_count" and rep:
            return o.args[1]
    if o.op == "call" and o.args[0] in TARGET and not o.args[2] and all(a.op != "argseg" for a in o.args[1]):
        if name in TARGET.values():
            return T.boolc(TARGET[o.args[0]] == name)
        if name == "is_inverted_result_target":
            return FALSE
        if name == "value" and len(o.args[1]) == 1:
            return o.args[1][0]
    return None


def op_method(I, o, name):
    nm = strval(o.args[0])
    if nm is None:
        return None
    if nm == "REPEAT":
        return I.alloc("circ", o.args[2]) if name == "body_copy" else None
    if name in ("gate_args_copy", "args_copy"):
        return I.alloc("list", o.args[2])
    if name == "targets_copy" and all(s.op == "item" for s in o.args[1].args):
        return I.alloc("list", lst([item(mk("call", "stim.GateTarget", (s.args[0],), ()) if T.sort(s.args[0]) in ("int", "num") else s.args[0]) for s in o.args[1].args]))
    return None


def ext_method(I, recv, c, name, args, kw, node, stmt):
    d = c.data
    al = arglist(I, args)
    if name in E.EFFECT_METHODS and name not in ("copy",):
        r = I.occ("." + name, concat(listof(d), al))
        I.emit("OP", r)
        return r
    h = I.hooks.get("mext:" + name)
    if h is not None:
        r = h(I, recv, args, kw, stmt)
        if r is not None:
            return r
    if stmt:
        I.setcell(recv, mk("mut", d, name, al, fkw(I, kw)))
        return NONE
    if name == "copy":
        return I.alloc("ext", d)
    return mk("mcall", name, d, (al,) if any(a.op == "argseg" for a in args) else fz(I, args), fkw(I, kw))


# ------------------------------------------------------------ methods of plain values

STR_PURE = {"lower", "upper", "capitalize", "strip", "lstrip", "rstrip", "title", "replace", "split", "rsplit", "partition", "rpartition", "startswith", "endswith",
            "index", "find", "count", "zfill", "isdigit", "removeprefix", "removesuffix"}


def value_method(I, recv, name, args, kw, node, stmt):
    if recv.op == "ite" and recv.args[1].op != "sym":
        return I.fork(recv.args[0], lambda: value_method(I, recv.args[1], name, args, kw, node, stmt),
                      lambda: value_method(I, recv.args[2], name, args, kw, node, stmt))
    h = I.hooks.get("meth:" + name)
    if h is not None:
        r = h(I, recv, args, kw, stmt)
        if r is not None:
            return r
    if recv.op == "op":
        r = op_method(I, recv, name)
        if r is not None:
            return r
    if recv.op == "file":
        return file_method(I, recv, name, args, kw, stmt)
    if recv.op == "csvw":
        return csvw_method(I, recv, name, args, kw)
    s = strval(recv)
    k = I.kind_of(recv)
    if name == "join" and (k == "str" or s is not None):
        l = I.freeze(I.seq(args[0]))
        if l.op == "lst":
            l = map_segs(l, lambda x: x)
        return E.join_term(recv, l)
    if s is not None and name in STR_PURE:
        try:
            vals = [T.pyval(I.freeze(a)) for a in args]
            return E.strconst(getattr(s, name)(*vals)) if not kw else mk("mcall", name, recv, fz(I, args), fkw(I, kw))
        except (ValueError, TypeError):
            if name == "index" and len(args) == 1:
                # "XYZ".index(c) with symbolic c
                c = I.freeze(args[0])
                if all(len(ch) == 1 for ch in s):
                    r = num(len(s) - 1)
                    for j in range(len(s) - 2, -1, -1):
                        r = ite(eq(c, const(s[j])), num(j), r)
                    return r
    if name == "format" and s is not None:
        return format_str(I, s, args, kw)
    if k == "dict" or recv.op in ("dictv", "store"):
        if name in ("items", "keys", "values", "get"):
            if name == "items":
                return dict_items(I, None, recv)
            if name == "keys":
                return keys_of(recv)
            if name == "values":
                return dict_values(I, None, recv)
            kk = I.freeze(args[0])
            dflt = args[1] if len(args) > 1 else NONE
            return ite(in_(kk, recv), idx(recv, kk), dflt)
        if name in ("setdefault", "update", "pop", "clear"):
            I.stores.append((I.module.name, getattr(node, "lineno", 0), "dict." + name, I.freeze(recv), None))
            I.emit("MUTATE", const(name), I.freeze(recv), arglist(I, args))
            return idx(recv, I.freeze(args[0])) if args else NONE
        if name == "copy":
            return I.alloc("dict", recv)
    if k == "set" or recv.op in ("setlit", "setof"):
        ops = {"union": "set|", "intersection": "set&", "difference": "set-", "symmetric_difference": "set^"}
        if name in ops:
            r = recv
            for a in args:
                r = set_op(ops[name], r, I.setval(a))
            return r
        if name == "isdisjoint":
            return not_(truth(set_op("set&", recv, I.setval(args[0]))))
        if name in ("add", "update", "remove", "discard", "clear"):
            I.stores.append((I.module.name, getattr(node, "lineno", 0), "set." + name, I.freeze(recv), None))
            I.emit("MUTATE", const(name), I.freeze(recv), arglist(I, args))
            return NONE
    if k in ("list", "tuple"):
        if name in ("append", "extend", "insert", "sort", "reverse", "clear", "pop", "remove"):
            I.stores.append((I.module.name, getattr(node, "lineno", 0), "list." + name, I.freeze(recv), None))
            I.emit("MUTATE", const(name), I.freeze(recv), arglist(I, args))
            return NONE
        if name == "index" and recv.op == "lst":
            tmp = I.alloc("list", recv)
            return list_method(I, tmp, I.cell(tmp), name, args, kw, node, stmt)
        if name == "copy":
            return I.alloc("list", recv)
    if name == "joinpath" and is_path(recv):
        return b_path(I, [recv] + list(args), {})
    if recv.op == "call" and recv.args[0] == "pathlib.Path":
        if name == "joinpath":
            return b_path(I, [recv] + list(args), {})
        if name == "open":
            mode = args[0] if args else kw.get("mode", const("r"))
            return open_file(I, recv, mode)
        if name in ("exists", "is_file"):
            return mk("mcall", "exists", recv, (), ())
        if name == "write_text":
            f = open_file(I, recv, const("w"))
            I.emit("WRITE", f, tostr(I.freeze(args[0])))
            I.emit("CLOSE", f)
            return NONE
        if name == "read_text":
            f = open_file(I, recv, const("r"))
            r = file_method(I, f, "read", [], {}, False)
            I.emit("CLOSE", f)
            return r
    if recv.op == "ext" and recv.args[0] in ("sys.stdout", "sys.stderr"):
        if name == "write":
            I.emit("STDOUT" if recv.args[0] == "sys.stdout" else "STDERR", tostr(I.freeze(args[0])))
        return NONE
    if name in E.EFFECT_METHODS:
        r = I.occ("." + name, concat(listof(I.freeze(recv)), arglist(I, args), lst([item(listof(const(a), b)) for a, b in fkw(I, kw)])))
        I.emit("OP", r)
        return r
    fr = I.freeze(recv)
    if name in ("conjugate",) and T.is_numeric(fr):
        re, im = E.mkattr(fr, "real", "num"), E.mkattr(fr, "imag", "num")
        return sub(re, mul(im, T.J))
    if stmt:
        I.emit("CALL", mk("mcall", name, fr, (mk("argseg", arglist(I, args)),) if any(a.op == "argseg" for a in args) else fz(I, args), fkw(I, kw)))
        return NONE
    if any(a.op == "argseg" for a in args):
        return mk("mcall", name, fr, (mk("argseg", arglist(I, args)),), fkw(I, kw))
    return mk("mcall", name, fr, fz(I, args), fkw(I, kw))


def map_segs(l, f):
    return l


def format_str(I, s, args, kw):
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            parts.append(const(lit))
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            return mk("mcall", "format", const(s), fz(I, args), fkw(I, kw))
        v = I.freeze(v)
        if conv == "r":
            v = E.reprt(v)
        elif spec:
            v = mk("call", "format", (v, const(spec)), ())
        else:
            v = tostr(v)
        parts.append(v)
    return strcat(*parts)


def file_method(I, f, name, args, kw, stmt):
    if name == "write":
        I.emit("WRITE", f, tostr(I.freeze(args[0])))
        return NONE
    if name == "writelines":
        I.emit("WRITE", f, mk("call", "join", (const(""), I.freeze(I.seq(args[0]))), ()))
        return NONE
    if name == "close":
        I.emit("CLOSE", f)
        return NONE
    if name == "flush":
        I.emit("FLUSH", f)
        return NONE
    if name in ("read", "readline", "readlines"):
        r = I.occ("." + name, concat(listof(f), arglist(I, args)))
        I.emit("OP", r)
        return r
    return mk("mcall", name, f, fz(I, args), fkw(I, kw))


def csvw_method(I, w, name, args, kw):
    f, lt, opts = w.args

    def row(l):
        l = I.freeze(I.seq(l))
        if l.op == "lst" and all(s.op == "item" for s in l.args):
            l = lst([item(tostr(s.args[0])) for s in l.args])
        I.emit("WRITE", f, strcat(E.join_term(const(","), l), lt))
    if name == "writerow":
        row(args[0])
    elif name == "writerows":
        def body(v):
            row(v)
            return {"fall": (TRUE, I.st, None)}
        o = I.iterate(I.seq(args[0]), body)
        I.st = o["fall"][1]
    return NONE
