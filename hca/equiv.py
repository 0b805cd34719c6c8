"""Equality of two value terms, decided by case analysis on their guards and structural matching.

`equal(a, b, facts)` returns None when the terms are proved equal in every case, and a `Mismatch`
(the case, and the two values that differ in it) otherwise.
"""
from fractions import Fraction

from . import terms as T
from .terms import TRUE, FALSE, mk, num, not_, and_, or_, ite, subst, lst
from .linear import Facts

ATOM_OPS = {"eq", "eq0", "ge0", "isnone", "truth", "in", "insub", "isinst", "lt", "fcmp", "any", "all"}
LIMIT = 200000


def opened(t):
    """The list a loop ends with, where the loop only ever appends to it: what it started with, and what the loop adds."""
    if t.op != "lout":
        return t
    from . import engine as E
    n, bv, phis, inits, nexts, exitc, expr = t.args
    j = next((q for q, x in enumerate(phis) if x == expr), None)
    if j is None or exitc != FALSE or n == T.NONE or E.appended(nexts[j], phis[j]) is None:
        return t
    if any(E.mentions(x, phis[j]) for q, x in enumerate(nexts) if q != j):
        return t
    if inits[j] == E.EMPTY:
        return T.lst([T.spread(t)])
    rest = mk("lout", n, bv, phis, tuple(E.EMPTY if q == j else x for q, x in enumerate(inits)), nexts, exitc, expr)
    return T.lst([T.spread(opened(inits[j])), T.spread(rest)])


class Mismatch:
    def __init__(self, facts, a, b, why):
        self.facts, self.a, self.b, self.why = facts, a, b, why

    def describe(self):
        s = self.why + ": " + clip(T.show(self.a)) + "  VERSUS  " + clip(T.show(self.b))
        if self.facts.lits:
            s += "  WHEN " + " and ".join(clip(T.show(l), 160) for l in self.facts.lits.values())
        return s


def clip(s, n=700):
    return s if len(s) <= n else s[:n] + "..."


class Budget(Exception):
    pass


class Prover:
    def __init__(self, budget=20000):
        self.budget = budget
        self.cases = 0
        self.memo = {}

    # ------------------------------------------------------------ atoms

    def atoms(self, t, acc, depth=0, inside=False, seen=None):
        """Guard atoms of t usable for splitting (no binder-bound variables), outermost first."""
        if seen is None:
            seen = set()
        queue = [(t, T.sort(t) == "bool", False)]
        while queue:
            nxt = []
            for x, d, ins in queue:
                if isinstance(x, tuple):
                    nxt.extend((e, d, ins) for e in x)
                    continue
                if not isinstance(x, T.T):
                    continue
                k = (x.key, ins, d)
                if k in seen:
                    continue
                seen.add(k)
                if d and x.op in ("sym", "attr", "idx", "mcall", "phi") and T.sort(x) == "bool" and (not ins or x.bh == 0):
                    # a condition that is a plain flag
                    acc.setdefault(x.key, x)
                    continue
                if x.op in ("const", "sym", "bv", "phi"):
                    continue
                if x.op in ATOM_OPS:
                    if not ins or x.bh == 0:
                        if x.key not in acc:
                            acc[x.key] = x
                        if x.op not in ("any", "all"):
                            continue
                        continue
                binder = x.op in ("rep", "sum", "lam", "lout", "lseg", "first", "exists", "forall")
                for j, a in enumerate(x.args):
                    b = ins or (binder and not (x.op in ("rep", "sum") and j == 0))
                    nxt.append((a, x.op in ("and", "or", "not") and d or x.op in ("ite", "cseg") and j == 0, b))
            queue = nxt
        return acc

    # ------------------------------------------------------------ main

    def equal(self, a, b, facts=None, depth=0):
        facts = facts or Facts()
        return self._equal(a, b, facts, depth)

    def _equal(self, a, b, facts, depth):
        if a == b or facts.bad:
            return None
        key = (a.key, b.key, facts.key())
        if key in self.memo:
            return self.memo[key]
        self.cases += 1
        if self.cases > self.budget:
            raise Budget()
        if depth > 120:
            return Mismatch(facts, a, b, "too deep")
        r = self._equal2(a, b, facts, depth)
        self.memo[key] = r
        return r

    def _equal2(self, a, b, facts, depth):
        a, b = facts.reduce(a), facts.reduce(b)
        if a == b:
            return None
        if {a.op, b.op} == {"lst", "lout"}:
            a, b = opened(a), opened(b)
            if a == b:
                return None
        # lists: strip common ends first
        if a.op == "lst" and b.op == "lst":
            x, y = list(a.args), list(b.args)
            while x and y and x[0] == y[0]:
                x.pop(0)
                y.pop(0)
            while x and y and x[-1] == y[-1]:
                x.pop()
                y.pop()
            a, b = mk("lst", *x), mk("lst", *y)
        first = self.struct(a, b, facts, depth)
        if first is None:
            return None
        acc = {}
        self.atoms(a, acc)
        self.atoms(b, acc)
        # unify atoms which are structurally equal under the assumptions
        names = list(acc.values())
        ka, kb = {}, {}
        self.atoms(a, ka)
        self.atoms(b, kb)
        ren = {}
        for x in kb.values():
            if x.key in ka:
                continue
            for y in ka.values():
                if y.key not in kb and y.op == x.op and self.atom_same(x, y, facts, depth):
                    ren[x.key] = y
                    break
        if ren:
            b2 = subst(b, ren)
            if b2 != b:
                return self._equal(a, b2, facts, depth + 1)
        if any(T.occurs(at, lambda x: x.op == "ite") for at in names):
            # conditions inside a condition are decided first
            inner = {}
            for at in names:
                if T.occurs(at, lambda x: x.op == "ite"):
                    for arg in at.args:
                        if isinstance(arg, T.T):
                            self.atoms(arg, inner)
            names = [x for k, x in inner.items() if not T.occurs(x, lambda y: y.op == "ite")] + names
        for at in names:
            d = facts.decide(at)
            if d is not None:
                continue
            pos = facts.assume(at)
            neg = facts.assume(not_(at))
            a1, b1 = pos.reduce(a), pos.reduce(b)
            a2, b2 = neg.reduce(a), neg.reduce(b)
            if (a1, b1) == (a, b) and (a2, b2) == (a, b):
                continue
            if not consistent(pos):
                r = None
            else:
                r = self._equal(a1, b1, pos, depth + 1)
            if r is not None:
                return r
            if not consistent(neg):
                return None
            return self._equal(a2, b2, neg, depth + 1)
        return first

    def atom_same(self, x, y, facts, depth):
        if x.op == "ge0" or x.op == "eq0":
            return self.poly(x.args[0], y.args[0], facts, depth) is None
        if len(x.args) != len(y.args):
            return False
        return self.struct(x, y, facts, depth + 1) is None

    def struct(self, a, b, facts, depth):
        if a == b:
            return None
        if a.op in ("ite",) or b.op in ("ite",):
            if a.op == b.op == "ite" and a.args[0] == b.args[0]:
                c = a.args[0]
                r = self._equal(a.args[1], b.args[1], facts.assume(c), depth + 1)
                if r is None:
                    r = self._equal(a.args[2], b.args[2], facts.assume(not_(c)), depth + 1)
                return r
            return Mismatch(facts, a, b, "values differ")
        if a.op in ("attr", "idx", "sym", "call", "poly", "mcall") and b.op in ("attr", "idx", "sym", "call", "poly", "mcall", "const") and facts.lits:
            for e in (T.eq(a, b), T.eq0(T.sub(a, b))):
                if e.key in facts.lits:
                    return None
        if T.is_numeric(a) and T.is_numeric(b) or a.op == "poly" or b.op == "poly":
            if a.op == "poly" or b.op == "poly":
                return self.poly(a, b, facts, depth)
        if a.op != b.op:
            if {a.op, b.op} <= {"and", "or", "not"} | ATOM_OPS | {"const"}:
                return Mismatch(facts, a, b, "conditions differ")
            return Mismatch(facts, a, b, "values differ")
        op = a.op
        if op in ("const", "sym", "bv", "phi"):
            return Mismatch(facts, a, b, "values differ")
        if op == "lst":
            return self.lists(a, b, facts, depth)
        if op in ("rep", "sum"):
            r = self._equal(a.args[0], b.args[0], facts, depth + 1)
            if r is not None:
                return r
            v = T.fresh_bv()
            f = facts.assume(T.ge0(T.sub(T.sub(a.args[0], v), num(1)))) if T.is_int(a.args[0]) else facts
            return self._equal(subst(a.args[2], {a.args[1].key: v}), subst(b.args[2], {b.args[1].key: v}), f, depth + 1)
        if op == "lam":
            if len(a.args[0]) != len(b.args[0]):
                return Mismatch(facts, a, b, "functions of different arity")
            ma, mb = {}, {}
            for p, q in zip(a.args[0], b.args[0]):
                s = T.sort(p)
                s2 = T.sort(q)
                v = T.fresh_phi(s if s != "?" else s2)
                ma[p.key] = v
                mb[q.key] = v
            ea, eb = subst(a.args[2], ma), subst(b.args[2], mb)
            ca, cb = FALSE, FALSE
            if ea.op == "lst" and eb.op == "lst":
                # where the function raises, what it would have done otherwise does not matter
                ca, wa = split_raise(ea)
                cb, wb = split_raise(eb)
            if cb != FALSE or ca != FALSE:
                r = self._equal(ca, cb, facts, depth + 1)
                if r is not None:
                    return r
                ea, eb = wa, wb
                facts = facts.assume(not_(cb))
                if facts.bad or not consistent(facts):
                    return None
            r = self._equal(subst(a.args[1], ma), subst(b.args[1], mb), facts, depth + 1)
            if r is None:
                r = self._equal(ea, eb, facts, depth + 1)
            return r
        if op in ("lout", "lseg"):
            return self.loops(a, b, facts, depth)
        if op in ("any", "all", "first", "exists", "forall") and len(a.args) == len(b.args) and any(isinstance(x, T.T) and x.op == "bv" for x in a.args):
            ma, mb = {}, {}
            rest = []
            for x, y in zip(a.args, b.args):
                if isinstance(x, T.T) and x.op == "bv" and isinstance(y, T.T) and y.op == "bv":
                    v = T.fresh_bv()
                    ma[x.key] = v
                    mb[y.key] = v
                else:
                    rest.append((x, y))
            for x, y in rest:
                if isinstance(x, T.T) and isinstance(y, T.T):
                    r = self._equal(subst(x, ma), subst(y, mb), facts, depth + 1)
                    if r is not None:
                        return r
                elif x != y:
                    return Mismatch(facts, a, b, "values differ")
            return None
        if op in ("and", "or"):
            return Mismatch(facts, a, b, "conditions differ")
        if op == "setlit":
            return self.sets(a, b, facts, depth)
        if op == "dictv":
            return self.dicts(a, b, facts, depth)
        if op == "obj":
            if a.args[0] != b.args[0]:
                return Mismatch(facts, a, b, "objects of different classes")
            fa, fb = dict(a.args[1]), dict(b.args[1])
            if set(fa) != set(fb):
                return Mismatch(facts, a, b, "objects with different fields")
            for k in sorted(fa):
                r = self._equal(fa[k], fb[k], facts, depth + 1)
                if r is not None:
                    r.why = f"field {k}: " + r.why if not r.why.startswith("field") else r.why
                    return r
            return None
        r = self.argsame(a.args, b.args, a, b, facts, depth)
        if r is not None and op == "call" and a.args[0] == b.args[0] and a.args[0] in ("BitXor", "BitOr", "BitAnd", "set&", "set^") and len(a.args[1]) == len(b.args[1]) == 2:
            if self.argsame(a.args[1], tuple(reversed(b.args[1])), a, b, facts, depth) is None:
                return None
        return r

    def argsame(self, xs, ys, a, b, facts, depth):
        if len(xs) != len(ys):
            return Mismatch(facts, a, b, "values differ")
        for x, y in zip(xs, ys):
            if isinstance(x, T.T) and isinstance(y, T.T):
                r = self._equal(x, y, facts, depth + 1)
                if r is not None:
                    return r
            elif isinstance(x, tuple) and isinstance(y, tuple):
                r = self.argsame(x, y, a, b, facts, depth)
                if r is not None:
                    return r
            elif x != y:
                return Mismatch(facts, a, b, "values differ")
        return None

    def sets(self, a, b, facts, depth):
        ys = list(b.args)
        for x in a.args:
            for j, y in enumerate(ys):
                if self._equal(x, y, facts, depth + 1) is None:
                    del ys[j]
                    break
            else:
                return Mismatch(facts, a, b, "sets differ")
        return None if not ys else Mismatch(facts, a, b, "sets differ")

    def dicts(self, a, b, facts, depth):
        ys = list(b.args[0])
        for k, v in a.args[0]:
            for j, (k2, v2) in enumerate(ys):
                if self._equal(k, k2, facts, depth + 1) is None:
                    r = self._equal(v, v2, facts, depth + 1)
                    if r is not None:
                        return r
                    del ys[j]
                    break
            else:
                return Mismatch(facts, a, b, f"key {T.show(k)} only on one side")
        return None if not ys else Mismatch(facts, a, b, f"key {T.show(ys[0][0])} only on one side")

    def lists(self, a, b, facts, depth):
        xs, ys = list(a.args), list(b.args)
        if any(s.op == "spread" for s in xs + ys):
            xs, ys = unspread(xs, facts), unspread(ys, facts)
        while xs and ys and xs[0] == ys[0]:
            xs.pop(0)
            ys.pop(0)
        while xs and ys and xs[-1] == ys[-1]:
            xs.pop()
            ys.pop()
        while xs and ys:
            x, y = xs[0], ys[0]
            if x == y:
                pass
            elif x.op == y.op and x.op in ("item", "spread"):
                r = self._equal(x.args[0], y.args[0], facts, depth + 1)
                if r is not None:
                    return r
            elif x.op == y.op and x.op in ("rep", "lseg"):
                r = self.struct(x, y, facts, depth + 1)
                if r is not None:
                    return r
            elif x.op == y.op == "cseg" and x.args[0] == y.args[0]:
                c = x.args[0]
                r = self._equal(x.args[1], y.args[1], facts.assume(c), depth + 1)
                if r is None:
                    r = self._equal(x.args[2], y.args[2], facts.assume(not_(c)), depth + 1)
                if r is not None:
                    return r
            else:
                return Mismatch(facts, mk("lst", *xs), mk("lst", *ys), "sequences differ")
            xs.pop(0)
            ys.pop(0)
        if xs or ys:
            # leftovers that are empty in this case
            for s in xs + ys:
                if not (s.op == "rep" and facts.decide(T.ge0(T.neg(s.args[0]))) is True):
                    return Mismatch(facts, mk("lst", *xs), mk("lst", *ys), "sequences differ")
        return None

    def loops(self, a, b, facts, depth):
        if len(a.args[2]) != len(b.args[2]):
            return Mismatch(facts, a, b, "loops over different state")
        r = self._equal(a.args[0], b.args[0], facts, depth + 1)
        if r is not None:
            return r
        n = len(a.args[2])
        perms = pairings(a, b)
        firstr = None
        inits = False
        for perm in perms:
            v = T.fresh_bv()
            ma, mb = {a.args[1].key: v}, {b.args[1].key: v}
            if a.args[1].args[1] == 0:
                ma = {}
            if b.args[1].args[1] == 0:
                mb = {}
            ok = True
            for j in range(n):
                p, q = a.args[2][j], b.args[2][perm[j]]
                if T.sort(p) != T.sort(q) and "?" not in (T.sort(p), T.sort(q)):
                    ok = False
                    break
                f = T.fresh_phi(T.sort(p) if T.sort(p) != "?" else T.sort(q))
                ma[p.key] = f
                mb[q.key] = f
            if not ok:
                continue
            r = None
            for j in range(n):
                r = self._equal(a.args[3][j], b.args[3][perm[j]], facts, depth + 1)
                if r is not None:
                    break
            if r is None:
                inner = inside(facts, a.args[0], v)
                if inner.bad:
                    return None
                # what is assigned only matters when the loop goes on
                on = inner.assume(not_(subst(a.args[5], ma)))
                pairs = [(a.args[5], b.args[5], inner), (a.args[6], b.args[6], inner)] + [(a.args[4][j], b.args[4][perm[j]], on) for j in range(n)]
                for x, y, f in pairs:
                    r = None if f.bad else self._equal(subst(x, ma), subst(y, mb), f, depth + 1)
                    if r is not None:
                        break
                if r is not None and not inits:
                    # the most telling difference: between states that start alike
                    firstr, inits = r, True
            if r is None:
                return None
            firstr = firstr or r
        return firstr or Mismatch(facts, a, b, "loops differ")

    def poly(self, a, b, facts, depth):
        d = T.sub(a, b)
        if T.numval(d) == 0:
            return None
        # clear denominators
        d = clear(d)
        if T.numval(d) == 0:
            return None
        p, q = T.pdict(a), T.pdict(b)
        # atoms present on one side only: try to unify them pairwise
        aa = {x.key: x for m in p for x, _ in m}
        bb = {x.key: x for m in q for x, _ in m}
        onlya = [x for k, x in aa.items() if k not in bb]
        onlyb = [x for k, x in bb.items() if k not in aa]
        ren = {}
        for y in onlyb:
            for x in onlya:
                if x.op == y.op and x.op not in ("sym", "bv", "phi") and self.struct(x, y, facts, depth + 1) is None:
                    ren[y.key] = x
                    break
        if ren:
            b2 = subst(b, ren)
            if b2 != b:
                return self._equal(a, b2, facts, depth + 1)
        if facts.lits and T.numval(d) is None:
            if facts.decide(T.eq0(T.sub(a, b))) is True:
                return None
        return Mismatch(facts, a, b, "numbers differ")


def clear(d):
    """Multiply out denominators (assumed non-zero)."""
    for _ in range(6):
        p = T.pdict(d)
        worst = None
        for m in p:
            for x, e in m:
                if e < 0:
                    if worst is None or e < worst[1]:
                        worst = (x, e)
        if worst is None:
            return d
        x, e = worst
        f = x.args[0] if x.op == "grp" else x
        nd = num(0)
        for m, c in p.items():
            rest = dict(m)
            k = rest.pop(x, 0) - e
            t = T.from_pdict({tuple(sorted(rest.items(), key=lambda ae: ae[0].key)): c})
            for _ in range(k):
                t = T.mul(t, f)
            nd = T.add(nd, t)
        d = nd
    return d


def consistent(f):
    if f.bad:
        return False
    if f.cons and f.infeasible([f.cons[-1]]):
        return False
    # or-literals all of whose members are refuted
    for l in f.lits.values():
        if l.op == "or" and all(f.decide(x) is False for x in l.args):
            return False
        # values that differ yet have to be equal
        if l.op == "not" and l.args[0].op == "eq0" and f._decide(l.args[0]) is True:
            return False
    return True


def equal(a, b, facts=None, budget=20000):
    p = Prover(budget)
    try:
        return p.equal(a, b, facts), p
    except Budget:
        return Mismatch(facts or Facts(), a, b, "case budget exhausted"), p


def known_length(t, facts, limit=6):
    """The exact length of a sequence, when the facts fix it to a small number."""
    n = T.length(t)
    k = 0
    while k < limit and facts.decide(T.eq(n, num(k))) is False:
        k += 1
    if facts.decide(T.eq(n, num(k))) is True or facts.decide(T.ge0(T.sub(num(k), n))) is True:
        return k
    return None


def features(l, j):
    """What state j of a loop looks like: how it starts and what goes into it, whatever the names."""
    acc = {}
    for x in T.subterms(l.args[4][j]):
        if x.op in ("const", "op", "ev", "item", "cseg", "setof", "rep", "spread", "store") or x.op in ("attr", "call", "mcall") and isinstance(x.args[0], str):
            k = (x.op, str(x.args[0]) if x.op in ("const", "call", "mcall") else "", str(x.args[1]) if x.op in ("const", "attr") else "")
            acc[k] = acc.get(k, 0) + 1
    for q in l.args[2]:
        if T.mentions(l.args[4][j], q):
            k = ("phi", "self" if q == l.args[2][j] else T.sort(q), "")
            acc[k] = acc.get(k, 0) + 3
    return acc


def pairings(a, b, limit=48):
    """Ways to pair the states of two loops, the most alike first."""
    import itertools
    n = len(a.args[2])
    if n == 1:
        return [(0,)]
    if n > 4:
        limit = 3
    fa, fb = [features(a, j) for j in range(n)], [features(b, j) for j in range(n)]

    def like(x, y, j, k):
        if T.sort(a.args[2][j]) != T.sort(b.args[2][k]) and "?" not in (T.sort(a.args[2][j]), T.sort(b.args[2][k])):
            return -100
        s = sum(min(v, y.get(q, 0)) for q, v in x.items()) / max(1, sum(x.values()) + sum(y.values()))
        return s + (0.5 if a.args[3][j] == b.args[3][k] else 0)
    sc = [[like(fa[j], fb[k], j, k) for k in range(n)] for j in range(n)]
    beam = [(0, ())]
    for j in range(n):
        beam = [(s + sc[j][k], p + (k,)) for s, p in beam for k in range(n) if k not in p]
        beam = sorted(beam, key=lambda e: (-e[0], e[1]))[:max(limit, 720 if n <= 6 else limit)]
    return [p for _, p in beam[:limit]]


def inside(facts, n, v):
    """What is known about iteration v of n: its range, and everything that no iteration does."""
    f = facts
    if T.is_int(n):
        f = f.assume(T.ge0(v)).assume(T.ge0(T.sub(T.sub(n, v), num(1))))
    for l in facts.lits.values():
        x = l.args[0] if l.op == "not" else None
        if x is not None and x.op == "any" and x.args[0] == n:
            f = f.assume(not_(subst(x.args[2], {x.args[1].key: v})))
    return f


def unspread(segs, facts):
    out = []
    for s in segs:
        k = known_length(s.args[0], facts) if s.op == "spread" and s.args[0].op in ("phi", "sym", "attr", "mcall", "idx") else None
        if k is None:
            out.append(s)
        else:
            out.extend(T.item(T.idx(s.args[0], num(j))) for j in range(k))
    return out


def strip_raise(t):
    """Forget which exception is raised and its message (the property only says that one is)."""
    def f(x):
        if x.op == "ev" and x.args[0] == "RAISE":
            return mk("ev", "RAISE")
        return None
    return T.transform(t, f)


def split_raise(world):
    """(condition under which the function raises, the log without the raises)."""
    conds = []
    out = []
    for s in world.args:
        c, segs = _sr(s)
        conds.append(c)
        out.extend(segs)
    return or_(*conds), lst(out)


def _sr(s):
    if s.op == "item":
        e = s.args[0]
        if e.op == "ev" and e.args[0] == "RAISE":
            return TRUE, []
        return FALSE, [s]
    if s.op == "cseg":
        a, x = split_raise(s.args[1])
        b, y = split_raise(s.args[2])
        c = s.args[0]
        return or_(and_(c, a), and_(not_(c), b)), T.cseg(c, x, y)
    if s.op == "rep":
        n, bv, body = s.args
        v = T.fresh_bv()
        c, b = split_raise(subst(body, {bv.key: v}))
        if c == FALSE:
            return FALSE, [s]
        bb, (cc,) = T.close(v, (c,))
        return mk("any", n, bb, cc), T.rep(n, v, b)
    if s.op == "lseg":
        body = s.args[6]
        if body.op == "lst":
            c, b = split_raise(body)
            if c == FALSE:
                return FALSE, [s]
            return mk("truth", mk("lseg", *s.args[:6], c)), [mk("lseg", *s.args[:6], b)] if b.args else []
        return FALSE, [s]
    if s.op == "spread":
        x = s.args[0]
        if x.op == "lst":
            c, b = split_raise(x)
            return c, list(b.args)
        if x.op == "ite" and x.args[1].op == "lst" and x.args[2].op == "lst":
            return _sr(mk("cseg", *x.args))
        if x.op == "lout" and x.args[6].op == "lst":
            c, b = split_raise(x.args[6])
            if c == FALSE:
                return FALSE, [s]
            return mk("truth", mk("lout", *x.args[:6], c)), [T.spread(mk("lout", *x.args[:6], b))] if b.args else []
    return FALSE, [s]
