"""Canonical forms for numpy tables, detector samplers, error-model targets, networkx graphs and logs.

Bottom-up rewriting of value terms; every rule is an identity of the modelled library.
"""
from . import terms as T
from .terms import mk, num, const, not_, and_, or_, ite, eq, TRUE, FALSE, NONE, strval, numval, intval, lst, item


def rewrite(t, f):
    memo = {}

    def go(x):
        r = memo.get(x.key)
        if r is not None:
            return r
        args = T._mapargs(x.args, go)
        r = x if args == x.args else T.rebuild(x.op, args)
        if r.op != x.op and r.op in ("ite", "poly"):
            r = go(r)
        for _ in range(6):
            y = f(r)
            if y is None or y == r:
                break
            r = go(y) if y.op != r.op or y.args != r.args else y
        memo[x.key] = r
        return r
    return go(t)


def call(name, *args):
    return mk("call", name, tuple(args), ())


def is_call(t, *names):
    return t.op == "call" and t.args[0] in names


def kwargs(t):
    return dict(t.args[2])


def nd(circ):
    return mk("attr", circ, "num_detectors", "int")


def no(circ):
    return mk("attr", circ, "num_observables", "int")


def set_filter(l):
    if l.op == "lst" and len(l.args) == 1 and l.args[0].op == "spread":
        l = l.args[0].args[0]
    if l.op != "lout" or len(l.args[2]) != 1 or l.args[5] != FALSE or l.args[6] != l.args[2][0] or l.args[3][0] != lst([]):
        return None
    n, i, ph, nx = l.args[0], l.args[1], l.args[2][0], l.args[4][0]
    if nx.op != "ite" or not is_call(n, "len"):
        return None
    s = n.args[1][0]
    if s.op not in ("setof", "setlit") and not is_call(s, "set|", "set&", "set-", "set^") and not (s.op == "sym" and "Set[" in str(s.args[1])):
        return None
    e = T.idx(s, i)
    c = nx.args[0]
    if nx.args[2] == ph and nx.args[1] == lst([T.spread(ph), T.item(e)]):
        pass
    elif nx.args[1] == ph and nx.args[2] == lst([T.spread(ph), T.item(e)]):
        c = T.not_(c)
    else:
        return None
    op, x = "set&", c
    if c.op == "not":
        op, x = "set-", c.args[0]
    if x.op != "in" or x.args[0] != e or T.mentions(x.args[1], i) or T.mentions(x.args[1], ph):
        return None
    from .engine import set_op, mkset
    return set_op(op, s, mkset(x.args[1]))


def bare(x):
    """The operand of set(x)."""
    if x.op == "setof" and len(x.args[0].args) == 1 and x.args[0].args[0].op == "spread":
        return x.args[0].args[0].args[0]
    return x


def holds_set(l):
    for p, v in zip(l.args[2], l.args[3]):
        if p == l.args[6]:
            return v.op in ("setof", "setlit")
    return False


class Canon:
    def __init__(self, shapes=None, sizes=()):
        self.sizes = set(sizes)         # parameters that are not negative
        self.shapes = shapes or {}      # opaque function name -> f(term) giving its shape as a pair

    def __call__(self, t):
        return rewrite(t, self.step)

    def step(self, x):
        if x.op == "call" and isinstance(x.args[0], str) and x.args[0].startswith("rec:") and x.args[0] != "rec:*":
            return mk("call", "rec:*", x.args[1], x.args[2])
        for r in (self.samples, self.slices, self.shape, self.rows, self.pads, self.tables, self.nonzero, self.sifted, self.setops, self.kinds, self.graph, self.logs, self.files):
            y = r(x)
            if y is not None and y != x:
                return y
        return None

    # ---------------------------------------------------------------- tables

    def samples(self, x):
        """Sampler output as columns of one record table: detectors first, observables after."""
        if x.op != "occ" or x.args[0] != ".sample":
            return None
        a = x.args[1].args
        if not a or any(s.op != "item" for s in a):
            return None
        recv = a[0].args[0]
        if recv.op != "mcall" or recv.args[0] != "compile_detector_sampler":
            return None
        circ = recv.args[1]
        pos, kw = [], {}
        for s in a[1:]:
            v = s.args[0]
            if v.op == "lst" and len(v.args) == 2 and strval(v.args[0].args[0]) is not None:
                kw[strval(v.args[0].args[0])] = v.args[1].args[0]
            else:
                pos.append(v)
        if "shots" in kw:
            pos.append(kw.pop("shots"))
        if len(pos) != 1:
            return None
        kw = {k: v for k, v in kw.items() if v != FALSE}
        base = call("$record", circ, pos[0], x.args[2])
        if not kw:
            return cols(base, num(0), nd(circ))
        if set(kw) == {"append_observables"} and kw["append_observables"] == TRUE:
            return cols(base, num(0), T.add(nd(circ), no(circ)))
        if set(kw) == {"separate_observables"} and kw["separate_observables"] == TRUE:
            return lst([item(cols(base, num(0), nd(circ))), item(cols(base, nd(circ), T.add(nd(circ), no(circ))))])
        return None

    def slices(self, x):
        if x.op == "ev" and x.args[0] == "OP" and isinstance(x.args[1], T.T):
            a = x.args[1]
            if a.op == "lst" and a.args and a.args[0].op == "item":
                a = a.args[0].args[0]
            if is_call(a, "$cols"):
                return mk("ev", "OP", a.args[1][0])
        if x.op != "idx":
            return None
        t, i = x.args
        if not is_call(t, "$cols"):
            return None
        base, lo, hi = t.args[1]
        parts = [s.args[0] for s in i.args] if i.op == "lst" and all(s.op == "item" for s in i.args) else [i]
        if parts and full(parts[0]):
            if len(parts) == 1:
                return t
            s = parts[1]
            if len(parts) == 2 and s.op == "slice" or is_call(s, "slice"):
                a, b, st = slice_args(s)
                if st != NONE:
                    return None
                w = T.sub(hi, lo)
                a2 = end(a, num(0), w)
                b2 = end(b, w, w)
                if a2 is None or b2 is None:
                    return None
                return alts(a2, lambda p: alts(b2, lambda q: cols(base, T.add(lo, p), T.add(lo, q))))
        return None

    def shape_of(self, t):
        if t.op == "ite":
            a, b = self.shape_of(t.args[1]), self.shape_of(t.args[2])
            return None if a is None or b is None else (ite(t.args[0], a[0], b[0]), ite(t.args[0], a[1], b[1]))
        if is_call(t, "$cols"):
            base, lo, hi = t.args[1]
            return base.args[1][1], T.sub(hi, lo)
        if is_call(t, "$table"):
            return t.args[1][0], t.args[1][1]
        if t.op == "call" and t.args[0] in self.shapes:
            return self.shapes[t.args[0]](self, t)
        if t.op == "call" and t.args[0] in ("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full"):
            s = kwargs(t).get("shape", t.args[1][0] if t.args[1] else None)
            if s is not None and s.op == "lst" and len(s.args) == 2 and all(e.op == "item" for e in s.args):
                return s.args[0].args[0], s.args[1].args[0]
        if t.op == "call" and t.args[0] == "numpy.zeros_like" and len(t.args[1]) == 1:
            return self.shape_of(t.args[1][0])
        return None

    def shape(self, x):
        if x.op == "attr" and x.args[1] == "shape":
            s = self.shape_of(x.args[0])
            if s is not None:
                return lst([item(s[0]), item(s[1])])
        if x.op == "attr" and x.args[1] in ("num_detectors", "num_observables") and x.args[0].op == "ite":
            t = x.args[0]
            return ite(t.args[0], mk("attr", t.args[1], *x.args[1:]), mk("attr", t.args[2], *x.args[1:]))
        if is_call(x, "len") and len(x.args[1]) == 1:
            s = self.shape_of(x.args[1][0])
            if s is not None:
                return s[0]
            a = x.args[1][0]
            if a.op == "sym" and a.args[1] in ("np.ndarray", "numpy.ndarray"):
                return T.idx(mk("attr", a, "shape", "?"), num(0))
            if a.op == "idx" and T.sort(a.args[1]) in ("int", "num") and a.args[0].op == "sym" and a.args[0].args[1] in ("np.ndarray", "numpy.ndarray"):
                return T.idx(mk("attr", a.args[0], "shape", "?"), num(1))
            if a.op == "idx" and T.is_numeric(a.args[1]) and self.shape_of(a.args[0]) is not None:
                return self.shape_of(a.args[0])[1]
        if x.op == "call" and x.args[0] in ("max",):
            # sizes of arrays and counts of a circuit are not negative
            rest = [a for a in x.args[1] if numval(a) != 0]
            if len(rest) == 1 and len(x.args[1]) == 2 and (is_size(rest[0]) or rest[0].op == "sym" and rest[0].args[0] in self.sizes):
                return rest[0]
            # range(): max(-(-n // 1), 0)
        if x.op in ("sum",) and x.args[2].op == "ite" and (is_size(x.args[0]) or x.args[0].op == "sym" and x.args[0].args[0] in self.sizes):
            n, bv, (c0, p, q) = x.args[0], x.args[1], x.args[2].args
            p, q = numval(p), numval(q)
            if p is not None and q is not None:
                if c0.op == "not":
                    c0, p, q = c0.args[0], q, p
                if (p, q) != (1, 0):
                    return T.add(T.mul(num(q), n), T.mul(num(p - q), T.sumt(n, bv, ite(c0, num(1), num(0)))))
        if x.op == "fdiv" and numval(x.args[1]) == 1 and T.is_int(x.args[0]):
            return x.args[0]
        if x.op == "fdiv" and numval(x.args[1]) == 1 and is_size(T.neg(x.args[0])):
            return x.args[0]
        return None

    # ---------------------------------------------------------------- comparing rows

    def rows(self, x):
        if x.op == "call" and x.args[0] in ("numpy.all", "numpy.any", "numpy.alltrue") and x.args[1]:
            ax = kwargs(x).get("axis", x.args[1][1] if len(x.args[1]) > 1 else None)
            v = rowvec(self, x.args[1][0], ax, x.args[0] != "numpy.any")
            if v is not None:
                return v
        if x.op == "mcall" and x.args[0] in ("all", "any"):
            ax = dict(x.args[3]).get("axis", x.args[2][0] if x.args[2] else None)
            v = rowvec(self, x.args[1], ax, x.args[0] == "all")
            if v is not None:
                return v
        v = None
        if x.op == "call" and x.args[0] in ("numpy.count_nonzero", "numpy.sum", "sum") and len(x.args[1]) == 1 and not x.args[2]:
            v = x.args[1][0]
        if x.op == "mcall" and x.args[0] == "sum" and not x.args[2] and not x.args[3]:
            v = x.args[1]
        if v is not None:
            r = self.count(v)
            if r is not None:
                return r
        if is_call(x, "numpy.array_equal") and len(x.args[1]) == 2:
            return roweq(*x.args[1])
        if is_call(x, "numpy.any", "numpy.all") and len(x.args[1]) == 1 and not x.args[2]:
            q = x.args[1][0]
            neg = q.op == "not"
            e = q.args[0] if neg else q
            if e.op == "eq" and neg == (x.args[0] == "numpy.any") and all(r.op == "idx" for r in e.args):
                r = roweq(*e.args)
                return not_(r) if neg else r
        return None

    def count(self, v):
        neg = v.op == "not"
        w = v.args[0] if neg else v
        if w.op == "ite":
            a, b = self.count(w.args[1] if not neg else not_(w.args[1])), self.count(w.args[2] if not neg else not_(w.args[2]))
            return None if a is None or b is None else ite(w.args[0], a, b)
        if is_call(w, "$rowseq"):
            p, q, n = w.args[1]
            b = T.fresh_bv()
            c = roweq(T.idx(p, b), T.idx(q, b))
            return T.sumt(n, b, ite(c, num(0), num(1)) if neg else ite(c, num(1), num(0)))
        return None

    # ---------------------------------------------------------------- one extra entry at the end of a row

    def pads(self, x):
        if is_call(x, "setitem"):
            a, i, v = x.args[1]
            if numval_b(v) == 0 and is_call(a, "numpy.resize") and len(a.args[1]) == 2 and not a.args[2]:
                row, n1 = a.args[1]
                if n1.op == "lst" and len(n1.args) == 1:
                    n1 = n1.args[0].args[0]
                if numval(i) == -1 or i == T.sub(n1, num(1)):
                    return call("$pad", row, T.sub(n1, num(1)))
            if is_call(a, "numpy.zeros") and (i.op == "slice" or is_call(i, "slice")):
                n1 = kwargs(a).get("shape", a.args[1][0] if a.args[1] else None)
                lo, hi, st = slice_args(i)
                if n1 is not None and lo in (NONE, num(0)) and st == NONE and (numval(hi) == -1 or hi == T.sub(n1, num(1))):
                    return call("$pad", v, T.sub(n1, num(1)))
        if is_call(x, "numpy.append") and len(x.args[1]) == 2 and not x.args[2]:
            row, v = x.args[1]
            if zeroish(v):
                return call("$pad", row, self.row_len(row))
        if is_call(x, "numpy.concatenate", "numpy.hstack") and len(x.args[1]) == 1 and not x.args[2]:
            l = x.args[1][0]
            if l.op == "lst" and len(l.args) == 2 and all(s.op == "item" for s in l.args) and zeroish(l.args[1].args[0]):
                row = l.args[0].args[0]
                return call("$pad", row, self.row_len(row))
        return None

    def row_len(self, row):
        if row.op == "idx":
            s = self.shape_of(row.args[0])
            if s is not None:
                return s[1]
            return T.idx(mk("attr", row.args[0], "shape", "?"), num(1))
        return T.length(row)

    # ---------------------------------------------------------------- tables filled row by row or entry by entry

    def tables(self, x):
        """An array whose every row is assigned once by a counting loop is the table of these rows."""
        if x.op == "lout" and len(x.args[2]) == 1 and x.args[5] == FALSE and x.args[6] == x.args[2][0]:
            n, bv, (phi,), (init,), (nx,), _, _ = x.args
            sh = self.shape_of(init)
            if is_call(nx, "setitem") and nx.args[1][0] == phi and sh is not None and n == sh[0]:
                _, i, row = nx.args[1]
                if i.op == "lst" and len(i.args) == 2 and full(i.args[1].args[0]):
                    i = i.args[0].args[0]
                if i == bv and not T.mentions(row, phi):
                    v1 = T.fresh_bv()
                    r = T.subst(row, {bv.key: v1})
                    return mk("call", "$table", (n, sh[1], lst(T.rep(n, v1, lst([item(r)])))), ())
            # entry by entry
            if nx.op == "lout" and len(nx.args[2]) == 1 and nx.args[5] == FALSE and nx.args[6] == nx.args[2][0] and nx.args[3][0] == phi:
                m, bv2, (phi2,), _, (nx2,), _, _ = nx.args
                if is_call(nx2, "setitem") and nx2.args[1][0] == phi2 and sh is not None and n == sh[0] and m == sh[1] \
                        and nx2.args[1][1] == lst([item(bv), item(bv2)]) and not T.mentions(nx2.args[1][2], phi2) and not T.mentions(nx2.args[1][2], phi):
                    v1, v2 = T.fresh_bv(), T.fresh_bv()
                    body = T.subst(nx2.args[1][2], {bv.key: v1, bv2.key: v2})
                    row = lst(T.rep(m, v2, lst([item(body)])))
                    return mk("call", "$table", (n, m, lst(T.rep(n, v1, lst([item(row)])))), ())
        return None

    # ---------------------------------------------------------------- positions of the true entries of a row

    def sifted(self, x):
        """The members of a set that are (not) in another one, where their order does not matter."""
        if not is_call(x, "sorted", "len", "set", "sum", "min", "max") or len(x.args[1]) != 1 or x.args[2]:
            return None
        d = set_filter(x.args[1][0])
        if d is None:
            return None
        return T.length(d) if x.args[0] == "len" else call(x.args[0], d)

    def setops(self, x):
        """Set operators and the methods of the same meaning; wrapping of operands that are sets anyway."""
        ops = {"BitXor": "set^", "symmetric_difference": "set^"}
        a = None
        if is_call(x, *ops) and len(x.args[1]) == 2 and not x.args[2] and not any(T.is_numeric(y) or T.sort(y) == "bool" for y in x.args[1]):
            a = x.args[1]
        elif x.op == "mcall" and x.args[0] in ops and len(x.args[2]) == 1 and not x.args[3]:
            a = (x.args[1],) + x.args[2]
        elif is_call(x, "set^") and len(x.args[1]) == 2:
            a = x.args[1]
        if a is not None:
            a = [bare(y) for y in a]
            return mk("call", "set^", tuple(sorted(a, key=lambda y: y.key)), ())
        if x.op == "setof":
            y = bare(x)
            if y.op == "lout" and holds_set(y):
                return y
        return None

    def nonzero(self, x):
        if is_call(x, "numpy.flatnonzero") and len(x.args[1]) == 1:
            return call("$true", x.args[1][0])
        if x.op == "idx" and numval(x.args[1]) == 0 and is_call(x.args[0], "numpy.nonzero", "numpy.where") and len(x.args[0].args[1]) == 1:
            return call("$true", x.args[0].args[1][0])
        if x.op == "idx" and numval(x.args[1]) == 0 and x.args[0].op == "mcall" and x.args[0].args[0] == "nonzero":
            return call("$true", x.args[0].args[1])
        if x.op == "rep" and is_call(x.args[0], "len") and is_call(x.args[0].args[1][0], "$true"):
            nz = x.args[0].args[1][0]
            n, bv, body = x.args
            row = nz.args[1][0]
            k = T.fresh_bv()
            hit = T.idx(nz, bv)
            b2 = T.subst(body, {hit.key: k})
            if T.mentions(b2, bv):
                return None
            b2 = T.subst(b2, {call("int", k).key: k})
            r = T.rep(self.row_len(row), k, lst(T.cseg(truth_of(T.idx(row, k)), b2, T.EMPTY)))
            return r[0] if len(r) == 1 else None
        if is_call(x, "int") and len(x.args[1]) == 1 and x.args[1][0].op == "idx" and is_call(x.args[1][0].args[0], "$true"):
            return x.args[1][0]
        return None

    # ---------------------------------------------------------------- error model targets

    def kinds(self, x):
        if x.op in ("mcall", "truth"):
            y = x.args[0] if x.op == "truth" else x
            if y.op == "mcall" and y.args[0] in ("is_relative_detector_id", "is_logical_observable_id", "is_separator") and not y.args[2]:
                k = mk("attr", y.args[1], "$kind", "str")
                d, l = eq(k, const("D")), eq(k, const("L"))
                return {"is_relative_detector_id": d, "is_logical_observable_id": l, "is_separator": and_(not_(d), not_(l))}[y.args[0]]
        if x.op == "isinst" and x.args[1] in ("DemInstruction", "DemRepeatBlock"):
            # the elements of an error model are one or the other
            r = mk("isinst", x.args[0], "DemRepeatBlock")
            if x.args[1] == "DemInstruction" and not (x.args[0].op == "sym"):
                return not_(r)
        return None

    # ---------------------------------------------------------------- graphs

    def graph(self, x):
        if x.op == "mut" and x.args[1] in ("add_edge", "remove_edge") and x.args[2].op == "lst":
            e = ends(x.args[2])
            if e != x.args[2]:
                return mk("mut", x.args[0], x.args[1], e, *x.args[3:])
        if x.op == "mcall" and x.args[0] in ("has_edge", "get_edge_data") and not x.args[3]:
            e = edge_args(x.args[2])
            e = ends(e) if e is not None and e.op == "lst" else e
            if e is not None:
                g = x.args[1]
                if x.args[0] == "has_edge":
                    return eq(call("$linked", g, e), const(True)) if False else mk("truth", call("$linked", g, e))
                return call("$edge", g, e)
        if x.op == "isnone" and is_call(x.args[0], "$edge"):
            return not_(mk("truth", call("$linked", *x.args[0].args[1])))
        if x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "edges":
            i = x.args[1]
            if i.op == "lst":
                return call("$edge", x.args[0].args[0], i)
        if x.op == "mut" and x.args[1] == "add_edge" and x.args[0].op == "mut" and x.args[0].args[1] == "remove_edge" \
                and x.args[0].args[2] == x.args[2] and {k for k, _ in x.args[3]} >= {"weight", "qubit_id", "error_probability"}:
            return mk("mut", x.args[0].args[0], *x.args[1:])
        if x.op == "mut" and x.args[0].op == "ite" and x.args[1] in ("add_edge",):
            c, a, b = x.args[0].args
            return ite(c, mk("mut", a, *x.args[1:]), mk("mut", b, *x.args[1:]))
        return None

    def logs(self, x):
        if is_call(x, "math.log1p", "numpy.log1p") and len(x.args[1]) == 1:
            return call("math.log", T.add(num(1), x.args[1][0]))
        if is_call(x, "numpy.log"):
            return call("math.log", *x.args[1])
        if is_call(x, "math.log") and len(x.args[1]) == 1:
            a = x.args[1][0]
            if a.op == "ite":
                return ite(a.args[0], call("math.log", a.args[1]), call("math.log", a.args[2]))
            d = T.pdict(a)
            den = {}
            for m in d:
                for at, e in m:
                    if e < 0:
                        den[at.key] = (at, max(-e, den.get(at.key, (at, 0))[1]))
            if den:
                n = a
                r = num(0)
                for at, e in den.values():
                    base = at.args[0] if at.op == "grp" else at
                    for _ in range(e):
                        n = T.mul(n, base)
                    r = T.sub(r, T.mul(num(e), call("math.log", base)))
                return T.add(call("math.log", n), r)
        return None

    def files(self, x):
        if x.op == "file" and len(x.args) > 2 and x.args[2] != NONE:
            return mk("file", x.args[0], x.args[1], NONE)
        return None


def truth_of(t):
    return T.truth(t)


def is_size(t):
    return t.op == "attr" and t.args[1] in ("num_detectors", "num_observables", "num_qubits", "num_measurements") \
        or t.op == "idx" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" or is_call(t, "len") \
        or t.op == "poly" and all(c >= 0 and all(is_size(a) for a, e in m) for m, c in t.args[0])


def cols(base, lo, hi):
    return call("$cols", base, lo, hi)


def full(s):
    if not (s.op == "slice" or is_call(s, "slice")):
        return s == const(Ellipsis)
    return all(a == NONE for a in slice_args(s))


def slice_args(s):
    return s.args if s.op == "slice" else s.args[1]


def end(a, default, width):
    """Absolute position of a slice end (as alternatives when its sign depends on a count being zero)."""
    if a == NONE:
        return default
    if a.op == "ite":
        x, y = end(a.args[1], default, width), end(a.args[2], default, width)
        return None if x is None or y is None else ite(a.args[0], x, y)
    v = numval(a)
    if v is not None:
        return a if v >= 0 else T.add(width, a)
    if is_size(a):
        return a
    n = T.neg(a)
    if is_size(n):
        return ite(eq(n, num(0)), num(0), T.add(width, a))
    return None


def alts(t, f):
    if t.op == "ite":
        return ite(t.args[0], alts(t.args[1], f), alts(t.args[2], f))
    return f(t)


def roweq(a, b):
    return eq(call("$row", a), call("$row", b))


def rowvec(cn, e, ax, every):
    """Which rows of two tables agree entirely (every) / differ somewhere (not every)."""
    if ax is None or numval(ax) not in (1, -1):
        return None
    if e.op == "ite":
        a, b = rowvec(cn, e.args[1], ax, every), rowvec(cn, e.args[2], ax, every)
        return None if a is None or b is None else ite(e.args[0], a, b)
    neg = e.op == "not"
    q = e.args[0] if neg else e
    if q.op != "eq" or neg == every:
        return None
    n = None
    for t in q.args:
        while t.op == "ite":
            t = t.args[1]
        s = cn.shape_of(t)
        if s is not None:
            n = s[0]
    if n is None:
        return None
    v = call("$rowseq", q.args[0], q.args[1], n)
    return not_(v) if neg else v


def numval_b(v):
    if v in (FALSE, const(False)):
        return 0
    return numval(v)


def zeroish(v):
    if v.op == "lst" and len(v.args) == 1 and v.args[0].op == "item":
        v = v.args[0].args[0]
    return numval_b(v) == 0


def ends(l):
    """An edge has two ends: a list of them given as a whole is its first two elements."""
    out = []
    for s in l.args:
        if s.op == "spread" and s.args[0].op in ("phi", "sym") and len(l.args) == 1:
            out += [item(T.idx(s.args[0], num(j))) for j in range(2)]
        elif s.op == "cseg" and len(l.args) == 1:
            a, b = ends(s.args[1]), ends(s.args[2])
            if len(a.args) != 2 or len(b.args) != 2 or any(q.op != "item" for q in a.args + b.args):
                return l
            out += [item(ite(s.args[0], p.args[0], q.args[0])) for p, q in zip(a.args, b.args)]
        else:
            out.append(s)
    return lst(out)


def edge_args(args):
    """The two end points of an edge call, as a list term."""
    if len(args) == 1 and args[0].op == "lst":
        return args[0]
    if len(args) == 2:
        return lst([item(a) for a in args])
    if len(args) == 1:
        return args[0]
    return None
