"""Assumption contexts: literals, equalities with constants, and linear arithmetic over opaque atoms.

`Facts` is an immutable conjunction of literals.  It decides other literals by lookup, by
constant-equality reasoning and by Fourier-Motzkin elimination over monomials taken as variables.
"""
from fractions import Fraction

from . import terms as T
from .terms import TRUE, FALSE, mk, num, not_, and_, or_

MAXCONS = 160


def lin(p):
    """(coeffs by monomial, const) of a polynomial term."""
    d = T.pdict(p)
    c = d.pop((), Fraction(0))
    return d, c


def _is_int_lin(d):
    return T._all_int(d)


class Facts:
    def __init__(self, lits=(), bounds=None, parent=None):
        self.lits = {}
        self.cons = []          # (dict monomial->coef, const, strict): sum + const >= 0 (or > 0)
        self.eqc = {}           # term key -> constant term
        self.neq = {}           # term key -> set of constant keys
        self.none = {}          # term key -> bool
        self.bounds = dict(bounds or {})    # term key -> (lo, hi)
        self.cache = {}
        self.bad = False
        if parent is not None:
            self.lits.update(parent.lits)
            self.cons = list(parent.cons)
            self.eqc = dict(parent.eqc)
            self.neq = {k: set(v) for k, v in parent.neq.items()}
            self.none = dict(parent.none)
            self.bounds.update(parent.bounds)
            self.bad = parent.bad
        for l in lits:
            self._add(l)

    # ---------------------------------------------------------------- building

    def assume(self, c):
        f = Facts(parent=self)
        c = f.simplify(c)
        f._add(c)
        return f

    def key(self):
        return tuple(sorted(k for k in self.lits))

    def _add(self, c):
        if c == TRUE:
            return
        if c == FALSE:
            self.bad = True
            return
        if c.op == "and":
            for a in c.args:
                self._add(a)
            return
        self.cache = {}
        self.lits[c.key] = c
        pos = c.op != "not"
        a = c if pos else c.args[0]
        if a.op == "ge0":
            d, k = lin(a.args[0])
            if pos:
                self.cons.append((d, k, False))
            else:
                nd = {m: -v for m, v in d.items()}
                if _is_int_lin(d) and k.denominator == 1:
                    self.cons.append((nd, -k - 1, False))
                else:
                    self.cons.append((nd, -k, True))
        elif a.op == "eq0":
            d, k = lin(a.args[0])
            if pos:
                self.cons.append((d, k, False))
                self.cons.append(({m: -v for m, v in d.items()}, -k, False))
            if len(d) == 1:
                (m, v), = d.items()
                if len(m) == 1 and m[0][1] == 1:
                    t = m[0][0]
                    val = num(-k / v)
                    if pos:
                        self.eqc[t.key] = val
                    else:
                        self.neq.setdefault(t.key, set()).add(val.key)
        elif a.op == "eq":
            x, y = a.args
            if T.is_const(x):
                x, y = y, x
            if T.is_const(y):
                if pos:
                    self.eqc[x.key] = y
                    self.none[x.key] = False
                else:
                    self.neq.setdefault(x.key, set()).add(y.key)
        elif a.op == "isnone":
            self.none[a.args[0].key] = pos
        elif a.op == "truth" and pos:
            self.none[a.args[0].key] = False
        elif a.op == "or" and pos:
            pass

    # ---------------------------------------------------------------- deciding

    def decide(self, c):
        """True / False / None for a literal."""
        if c == TRUE:
            return True
        if c == FALSE:
            return False
        if c.key in self.lits:
            return True
        if c.op == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        n = not_(c)
        if n.key in self.lits:
            return False
        r = self.cache.get(c.key, 0)
        if r != 0:
            return r
        r = self._decide(c)
        self.cache[c.key] = r
        return r

    def _decide(self, c):
        op = c.op
        if op == "eq":
            x, y = c.args
            if T.is_const(x):
                x, y = y, x
            if T.is_const(y):
                k = self.eqc.get(x.key)
                if k is not None:
                    return k == y
                if y.key in self.neq.get(x.key, ()):
                    return False
                if self.none.get(x.key):
                    return False
            return None
        if op == "isinst":
            # an instruction is not a block
            other = SIBLING.get(c.args[1]) if isinstance(c.args[1], str) else None
            if other is not None and T.mk("isinst", c.args[0], other).key in self.lits:
                return False
            return None
        if op == "isnone":
            x = c.args[0]
            r = self.none.get(x.key)
            if r is not None:
                return r
            if x.key in self.eqc:
                return False
            return None
        if op == "truth":
            x = c.args[0]
            if self.none.get(x.key):
                return False
            k = self.eqc.get(x.key)
            if k is not None:
                t = T.truth(k)
                return True if t == TRUE else False if t == FALSE else None
            return None
        if op == "eq0":
            d, k = lin(c.args[0])
            if len(d) == 1:
                (m, v), = d.items()
                if len(m) == 1 and m[0][1] == 1:
                    t = m[0][0]
                    val = num(-k / v)
                    kk = self.eqc.get(t.key)
                    if kk is not None:
                        return kk == val
                    if val.key in self.neq.get(t.key, ()):
                        return False
            up = self.entails_ge(d, k, False)
            if up:
                dn = self.entails_ge({m: -v for m, v in d.items()}, -k, False)
                if dn:
                    return True
                if self.entails_ge(d, k, True):
                    return False
                return None
            if self.entails_ge({m: -v for m, v in d.items()}, -k, True):
                return False
            return None
        if op == "ge0":
            d, k = lin(c.args[0])
            if self.entails_ge(d, k, False):
                return True
            if self.entails_ge({m: -v for m, v in d.items()}, -k, True):
                return False
            return None
        if op == "and":
            rs = [self.decide(a) for a in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if op == "or":
            rs = [self.decide(a) for a in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        return None

    # sum + k >= 0 (or > 0) follows from the constraints
    def entails_ge(self, d, k, strict):
        if _is_int_lin(d) and k.denominator == 1:
            if strict:
                k = k - 1
                strict = False
            nk = -k - 1
            nstrict = False
        else:
            nk = -k
            nstrict = not strict
        return self.infeasible([({m: -v for m, v in d.items()}, nk, nstrict)])

    def implied(self, m):
        """Background constraints about a monomial."""
        out = []
        one = {m: Fraction(1)}
        neg = {m: Fraction(-1)}
        if len(m) == 1 and m[0][1] == 1:
            t = m[0][0]
            lo, hi = self.bounds.get(t.key, (None, None))
            if lo is not None:
                out.append((one, Fraction(-lo), False))
            if hi is not None:
                out.append((neg, Fraction(hi), False))
            if t.op == "mod":
                n = T.intval(t.args[1])
                if n:
                    out.append((one, Fraction(0), False))
                    out.append((neg, Fraction(n - 1) if T.is_int(t.args[0]) else Fraction(n), not T.is_int(t.args[0])))
            elif t.op == "fdiv":
                n = T.intval(t.args[1])
                if n:
                    # n*q <= a < n*q + n
                    d, k = lin(t.args[0])
                    e = dict(d)
                    e[m] = e.get(m, 0) - n
                    out.append((e, k, False))
                    e2 = {x: -v for x, v in e.items()}
                    out.append((e2, -k + n - (1 if T.is_int(t.args[0]) else 0), not T.is_int(t.args[0])))
            elif t.op == "call" and t.args[0] in ("min", "max"):
                for a in t.args[1]:
                    d, k = lin(a)
                    s = 1 if t.args[0] == "min" else -1
                    e = {x: v * s for x, v in d.items()}
                    e[m] = e.get(m, 0) - s
                    out.append((e, k * s, False))
            elif _nonneg(t):
                out.append((one, Fraction(0), False))
        elif all(_nonneg(t) or e % 2 == 0 for t, e in m):
            out.append((one, Fraction(0), False))
        return out

    def infeasible(self, extra):
        cons = [(dict(d), k, s) for d, k, s in extra]
        # relevance closure
        seen = set()
        todo = set()
        for d, _, _ in cons:
            todo |= set(d)
        pool = [(d, k, s) for d, k, s in self.cons]
        used = [False] * len(pool)
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            for c in self.implied(m):
                cons.append((dict(c[0]), c[1], c[2]))
                todo |= set(c[0]) - seen
            for j, c in enumerate(pool):
                if not used[j] and m in c[0]:
                    used[j] = True
                    cons.append((dict(c[0]), c[1], c[2]))
                    todo |= set(c[0]) - seen
        return fm(cons)

    def simplify(self, c):
        """Condition with decided literals replaced."""
        if c in (TRUE, FALSE):
            return c
        r = self.decide(c)
        if r is not None:
            return TRUE if r else FALSE
        if c.op in ("and", "or", "not"):
            args = [self.simplify(a) for a in c.args]
            return {"and": and_, "or": or_, "not": not_}[c.op](*args)
        return c

    def simplify_num(self, t):
        return t

    def reduce(self, t):
        """Term with every decided boolean atom (and known-constant term) replaced."""
        if not self.lits and not self.bounds:
            return t

        def f(x):
            if x.op in ("sym", "attr", "idx", "mcall", "phi") and T.sort(x) == "bool":
                r = self.decide(x)
                return None if r is None else TRUE if r else FALSE
            if x.op in ("const", "poly", "sym", "bv", "lst", "item", "rep"):
                k = self.eqc.get(x.key)
                return k
            k = self.eqc.get(x.key)
            if k is not None:
                return k
            if x.op in ATOMS:
                r = self.decide(x)
                if r is not None:
                    return TRUE if r else FALSE
            if x.op == "ite":
                c = self.simplify(x.args[0])
                if c == TRUE:
                    return T.transform(x.args[1], f, memo)
                if c == FALSE:
                    return T.transform(x.args[2], f, memo)
            return None
        memo = {}
        return T.transform(t, f, memo)


SIBLING = {"CircuitInstruction": "CircuitRepeatBlock", "CircuitRepeatBlock": "CircuitInstruction", "DemInstruction": "DemRepeatBlock", "DemRepeatBlock": "DemInstruction"}
ATOMS = {"eq", "eq0", "ge0", "isnone", "truth", "in", "insub", "isinst", "lt", "fcmp", "any", "all", "not", "and", "or"}


def _nonneg(t):
    from .engine import nonneg
    return nonneg(t)


def fm(cons):
    """True if the conjunction of linear constraints is certainly infeasible over the rationals."""
    cons = [c for c in cons]
    for _ in range(60):
        vars_ = {}
        out = []
        seen = set()
        for d, k, s in cons:
            d = {m: v for m, v in d.items() if v != 0}
            if not d:
                if k < 0 or (s and k == 0):
                    return True
                continue
            f = abs(next(iter(sorted(d.items(), key=lambda mv: T._mono_key(mv[0]))))[1])
            d = {m: v / f for m, v in d.items()}
            k = k / f
            sig = (frozenset(d.items()), k, s)
            if sig in seen:
                continue
            seen.add(sig)
            out.append((d, k, s))
            for m, v in d.items():
                p = vars_.setdefault(m, [0, 0])
                p[0 if v > 0 else 1] += 1
        if not vars_:
            return False
        m = min(vars_, key=lambda m: (vars_[m][0] * vars_[m][1] - vars_[m][0] - vars_[m][1], T._mono_key(m)))
        pos = [c for c in out if c[0].get(m, 0) > 0]
        neg = [c for c in out if c[0].get(m, 0) < 0]
        rest = [c for c in out if m not in c[0]]
        for d1, k1, s1 in pos:
            a = d1[m]
            for d2, k2, s2 in neg:
                b = -d2[m]
                d = {}
                for x, v in d1.items():
                    d[x] = d.get(x, 0) + v * b
                for x, v in d2.items():
                    d[x] = d.get(x, 0) + v * a
                d.pop(m, None)
                rest.append((d, k1 * b + k2 * a, s1 or s2))
        if len(rest) > MAXCONS:
            rest.sort(key=lambda c: len(c[0]))
            rest = rest[:MAXCONS]      # dropping constraints only loses precision
        cons = rest
    return False
