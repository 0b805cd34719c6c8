"""Hash-consed value-graph terms with canonicalising constructors.

A term stands for the value an expression has, as a function of opaque inputs.  Constructors bring
terms into a normal form (polynomials over opaque atoms, flattened concatenations, structured
sequences, gated joins), so that differently written code denoting the same value yields the same
term.  Nothing in here executes analysed code.
"""
import hashlib
from fractions import Fraction
from math import gcd

_INTERN = {}


class T:
    __slots__ = ("op", "args", "key", "bh", "fb")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, other):
        return self is other or (isinstance(other, T) and self.key == other.key)


def _argkey(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return "(" + ",".join(_argkey(e) for e in a) + ")"
    return type(a).__name__ + ":" + repr(a)


def _scan(a, acc):
    if isinstance(a, T):
        if a.bh > acc[0]:
            acc[0] = a.bh
        if a.fb:
            acc[1] |= a.fb
    elif isinstance(a, tuple):
        for e in a:
            _scan(e, acc)


def mk(op, *args):
    raw = op + "|" + "|".join(_argkey(a) for a in args)
    key = hashlib.sha1(raw.encode()).hexdigest()[:24]
    t = _INTERN.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.key = key
    acc = [0, frozenset()]
    for a in args:
        _scan(a, acc)
    if op == "bv" or op == "phi":
        if args[0] == "h":
            acc[0] = max(acc[0], args[1])
        else:
            acc[1] = acc[1] | {key}
    t.bh, t.fb = acc
    _INTERN[key] = t
    return t


# ----------------------------------------------------------------- constants and symbols

def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk("const", type(v).__name__, v)
    if isinstance(v, int):
        return num(v)
    if isinstance(v, Fraction):
        return num(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("const", "float", v)
        return num(Fraction(repr(v)))
    if isinstance(v, complex):
        return add(const(v.real), mul(const(v.imag), J))
    if v is Ellipsis:
        return mk("const", "ellipsis", "...")
    if isinstance(v, (tuple, list)):
        return lst([item(const(e)) for e in v])
    if isinstance(v, (set, frozenset)):
        return setlit([const(e) for e in v])
    raise TypeError(v)


def num(c):
    c = Fraction(c)
    return mk("poly", () if c == 0 else (((), c),))


TRUE = mk("const", "bool", True)
FALSE = mk("const", "bool", False)
NONE = mk("const", "NoneType", None)
J = mk("J")
UNDEF = mk("undef")


def sym(name, typ="?"):
    return mk("sym", name, typ)


_fresh = [0]


def fresh_bv():
    _fresh[0] += 1
    return mk("bv", "f", _fresh[0])


def fresh_phi(srt="?"):
    _fresh[0] += 1
    return mk("phi", "f", _fresh[0], srt)


def is_const(t):
    return t.op == "const" or (t.op == "poly" and all(m == () or m == ((J, 1),) for m, _ in t.args[0]))


def numval(t):
    """Fraction if t is a real numeric constant, else None."""
    if t.op == "poly":
        p = t.args[0]
        if p == ():
            return Fraction(0)
        if len(p) == 1 and p[0][0] == ():
            return p[0][1]
    return None


def intval(t):
    v = numval(t)
    if v is not None and v.denominator == 1:
        return int(v)
    return None


def strval(t):
    return t.args[1] if t.op == "const" and t.args[0] == "str" else None


def pyval(t):
    """Python value of a constant term (raises ValueError when not constant)."""
    if t.op == "const":
        return t.args[1]
    v = numval(t)
    if v is not None:
        return int(v) if v.denominator == 1 else v
    if t.op == "lst":
        return tuple(pyval(s.args[0]) if s.op == "item" else _novalue() for s in t.args)
    if t.op == "setlit":
        return frozenset(pyval(e) for e in t.args)
    raise ValueError(t)


def _novalue():
    raise ValueError


# ----------------------------------------------------------------- polynomials

def pdict(t):
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "const" and t.args[0] == "bool":
        return {(): Fraction(int(t.args[1]))} if t.args[1] else {}
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return tuple((a.key, e) for a, e in m)


def from_pdict(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    items.sort(key=lambda mc: _mono_key(mc[0]))
    return mk("poly", tuple(items))


def add(*ts):
    d = {}
    for t in ts:
        if t.op == "const" and t.args[0] == "float":
            # an infinity absorbs everything finite; opposite infinities give no number
            vs = {u.args[1] for u in ts if u.op == "const" and u.args[0] == "float"}
            return t if len(vs) == 1 else mk("const", "float", float("nan"))
        for m, c in pdict(t).items():
            d[m] = d.get(m, 0) + c
    return from_pdict(d)


def neg(t):
    if t.op == "const" and t.args[0] == "float":
        return mk("const", "float", -t.args[1])
    return from_pdict({m: -c for m, c in pdict(t).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    sign = 1
    if J in d:
        e = d.pop(J) % 4
        if e >= 2:
            sign = -1
            e -= 2
        if e:
            d[J] = e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].key)), sign


def mul(a, b):
    d = {}
    for m1, c1 in pdict(a).items():
        for m2, c2 in pdict(b).items():
            m, s = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2 * s
    # (grp p)^-1 * grp p cancels through the exponent arithmetic above
    return from_pdict(d)


def inv(b):
    v = numval(b)
    if v is not None:
        if v == 0:
            return mk("call", "1/0", (), ())
        return num(1 / v)
    p = pdict(b)
    if len(p) == 1:
        (m, c), = p.items()
        return from_pdict({tuple((a, -e) for a, e in m): 1 / c})
    lead = min(p, key=_mono_key)
    c = p[lead]
    g = mk("grp", from_pdict({m: k / c for m, k in p.items()}))
    return from_pdict({((g, -1),): 1 / c})


def div(a, b):
    if a == b and numval(b) is None:
        pass
    d = pdict(a)
    p = pdict(b)
    if len(p) > 1:
        # a / b with a a multiple of b
        lead = min(p, key=_mono_key)
        if lead in d:
            k = d[lead] / p[lead]
            if {m: c * k for m, c in p.items()} == d:
                return num(k)
    return mul(a, inv(b))


def powt(a, b):
    n = intval(b)
    if n is not None and (-6 <= n <= 8 or (numval(a) is not None and -64 <= n <= 64 and numval(a) != 0)):
        r = num(1)
        for _ in range(abs(n)):
            r = mul(r, a)
        return inv(r) if n < 0 else r
    return mk("pow", a, b)


def is_int(t):
    return sort(t) == "int"


def _all_int(d):
    return all(c.denominator == 1 and all(e > 0 and is_int(a) for a, e in m) for m, c in d.items())


def mod(a, b):
    n = intval(b)
    if n and n > 0:
        d = pdict(a)
        v = numval(a)
        if v is not None:
            return num(v - (v // n) * n)
        if _all_int(d):
            # x - n*floor terms and mods by the same modulus collapse
            d2 = {}
            changed = False
            for m, c in d.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod" and intval(m[0][0].args[1]) is not None \
                        and intval(m[0][0].args[1]) % n == 0 and is_int(m[0][0].args[0]):
                    for m2, c2 in pdict(m[0][0].args[0]).items():
                        d2[m2] = d2.get(m2, 0) + c * c2
                    changed = True
                else:
                    d2[m] = d2.get(m, 0) + c
            d2 = {m: c % n for m, c in d2.items() if c % n}
            if changed or d2 != d:
                return mod(from_pdict(d2), b)
            if set(d2) <= {()}:
                return num(d2.get((), 0))
    if b.op == "lst" or a.op == "const":
        return mk("call", "%", (a, b), ())
    return mk("mod", a, b)


def floordiv(a, b):
    n = intval(b)
    if n and n > 0:
        v = numval(a)
        if v is not None:
            return num(v // n)
        d = pdict(a)
        if _all_int(d):
            whole = {m: Fraction(int(c) // n) for m, c in d.items()}
            rest = {m: Fraction(int(c) % n) for m, c in d.items()}
            w = from_pdict(whole)
            r = from_pdict(rest)
            rv = numval(r)
            if rv is not None:
                return add(w, num(rv // n))
            return add(w, mk("fdiv", r, b)) if numval(w) != 0 else mk("fdiv", r, b)
    return mk("fdiv", a, b)


# ----------------------------------------------------------------- sorts

INT_CALLS = {"len", "int", "math.ceil", "math.floor", "numpy.count_nonzero", "round", "ord"}
STR_CALLS = {"str", "repr", "strrep"}


def sort(t):
    op = t.op
    if op == "poly":
        return "int" if _all_int(dict(t.args[0])) else "num"
    if op == "const":
        return {"bool": "bool", "str": "str", "NoneType": "none", "float": "num"}.get(t.args[0], "?")
    if op == "sym":
        return {"int": "int", "float": "num", "str": "str", "bool": "bool", "complex": "num"}.get(t.args[1], "?")
    if op == "bv":
        return "int"
    if op in ("mod", "fdiv"):
        return "int" if is_int(t.args[0]) and is_int(t.args[1]) else "num"
    if op == "attr":
        return {"int": "int", "float": "num", "str": "str", "bool": "bool", "complex": "num", "num": "num"}.get(t.args[2], "?") if len(t.args) > 2 else "?"
    if op == "call":
        if t.args[0] in INT_CALLS:
            return "int"
        if t.args[0] in STR_CALLS:
            return "str"
        if t.args[0] in ("min", "max", "abs"):
            return "int" if all(is_int(a) for a in t.args[1]) else "num"
        return "?"
    if op == "typed":
        return {"int": "int", "float": "num", "str": "str", "bool": "bool", "complex": "num"}.get(t.args[1], "?")
    if op in ("strcat", "fmt"):
        return "str"
    if op == "sum":
        return sort(t.args[2])
    if op == "ite":
        a, b = sort(t.args[1]), sort(t.args[2])
        if a == b:
            return a
        if {a, b} == {"int", "num"}:
            return "num"
        return "?"
    if op in ("eq", "eq0", "ge0", "not", "and", "or", "in", "isnone", "isinst", "truth", "any", "all"):
        return "bool"
    if op == "phi":
        return t.args[2]
    if op in ("loopv", "lastv"):
        return "?"
    if op in ("J", "pow", "grp"):
        return "num"
    if op in ("idx", "app", "mcall", "occ") and SORT_HOOK is not None:
        return SORT_HOOK(t)
    return "?"


SORT_HOOK = None


def is_numeric(t):
    return t.op == "poly" or sort(t) in ("int", "num")


# ----------------------------------------------------------------- booleans

def boolc(b):
    return TRUE if b else FALSE


def not_(c):
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return or_(*[not_(a) for a in c.args])
    if c.op == "or":
        return and_(*[not_(a) for a in c.args])
    if c.op == "ite" :
        return ite(c.args[0], not_(c.args[1]), not_(c.args[2]))
    return mk("not", c)


def and_(*cs):
    out = {}
    for c in cs:
        for a in (c.args if c.op == "and" else (c,)):
            if a == FALSE:
                return FALSE
            if a != TRUE:
                out[a.key] = a
    for a in out.values():
        if not_(a).key in out:
            return FALSE
    if not out:
        return TRUE
    for a in list(out.values()):
        if a.op == "ge0":
            b = ge0(neg(a.args[0]))
            if b != a and b.op == "ge0" and b.key in out:
                return and_(eq0(a.args[0]), *[v for v in out.values() if v != a and v != b])
    # absorption: a and (a or b) = a; a and (not a or b) = a and b
    vals = list(out.values())
    for o in vals:
        if o.op == "or":
            keys = {e.key for e in o.args}
            if any(k in out for k in keys):
                return and_(*[v for v in vals if v != o])
            keep = [e for e in o.args if not_(e).key not in out]
            if len(keep) < len(o.args):
                return and_(*[v for v in vals if v != o], or_(*keep))
    vals.sort(key=lambda a: a.key)
    return vals[0] if len(vals) == 1 else mk("and", *vals)


def or_(*cs):
    out = {}
    for c in cs:
        for a in (c.args if c.op == "or" else (c,)):
            if a == TRUE:
                return TRUE
            if a != FALSE:
                out[a.key] = a
    for a in out.values():
        if not_(a).key in out:
            return TRUE
    if not out:
        return FALSE
    for a in list(out.values()):
        if a.op == "not" and a.args[0].op == "ge0":
            b = not_(ge0(neg(a.args[0].args[0])))
            if b != a and b.op == "not" and b.args[0].op == "ge0" and b.key in out:
                return or_(not_(eq0(a.args[0].args[0])), *[v for v in out.values() if v != a and v != b])
    vals = list(out.values())
    for o in vals:
        if o.op == "and":
            keys = {e.key for e in o.args}
            if any(k in out for k in keys):
                return or_(*[v for v in vals if v != o])
            keep = [e for e in o.args if not_(e).key not in out]
            if len(keep) < len(o.args):
                return or_(*[v for v in vals if v != o], and_(*keep))
    vals.sort(key=lambda a: a.key)
    return vals[0] if len(vals) == 1 else mk("or", *vals)


def _primitive(d):
    """Scale to coprime integer coefficients (positive factor)."""
    den = 1
    for c in d.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in d.values():
        g = gcd(g, abs(int(c * den)))
    f = Fraction(den, g or 1)
    return {m: c * f for m, c in d.items()}


def ge0(p):
    v = numval(p)
    if v is not None:
        return boolc(v >= 0)
    d = {m: c for m, c in pdict(p).items()}
    if any(a.op == "ite" for m in d for a, _ in m):
        pass
    c0 = d.pop((), Fraction(0))
    if not d:
        return boolc(c0 >= 0)
    sc = _primitive(d)
    some = next(iter(d))
    f = sc[some] / d[some]
    c0 = c0 * f
    integral = _all_int(sc)
    if integral:
        c0 = Fraction(c0.numerator // c0.denominator)
    lead = min(sc, key=_mono_key)
    if integral and sc[lead] < 0:
        # p >= 0  <=>  not (-p - 1 >= 0)
        sc = {m: -c for m, c in sc.items()}
        sc[()] = -c0 - 1
        return not_(mk("ge0", from_pdict(sc)))
    sc[()] = c0
    return mk("ge0", from_pdict(sc))


def gt0(p):
    v = numval(p)
    if v is not None:
        return boolc(v > 0)
    if is_int(p):
        return ge0(sub(p, num(1)))
    return not_(ge0(neg(p)))


def eq0(p):
    v = numval(p)
    if v is not None:
        return boolc(v == 0)
    if is_const(p):
        return FALSE
    d = _primitive(pdict(p))
    lead = min((m for m in d if m != ()), key=_mono_key)
    if d[lead] < 0:
        d = {m: -c for m, c in d.items()}
    if _all_int({m: c for m, c in d.items() if m != ()}) and len(d) == 2 and () in d:
        m, = [m for m in d if m != ()]
        if d[()].denominator != 1:
            return FALSE
    return mk("eq0", from_pdict(d))


def lift2(f, a, b):
    """Distribute a binary predicate over gated operands (kept small)."""
    if a.op == "ite" and (is_const(a.args[1]) or is_const(a.args[2]) or a.args[1].op == "ite" or a.args[2].op == "ite"):
        return ite(a.args[0], lift2(f, a.args[1], b), lift2(f, a.args[2], b))
    if b.op == "ite" and (is_const(b.args[1]) or is_const(b.args[2]) or b.args[1].op == "ite" or b.args[2].op == "ite"):
        return ite(b.args[0], lift2(f, a, b.args[1]), lift2(f, a, b.args[2]))
    return f(a, b)


_NONNULL = {"poly", "strcat", "lst", "obj", "ref", "setlit", "clo", "lam", "func", "cls", "bv", "fmt", "circ", "dictv"}


def isnone(t):
    if t == NONE:
        return TRUE
    if t.op in _NONNULL or (t.op == "const") or sort(t) in ("int", "num", "str", "bool"):
        return FALSE
    if t.op == "ite":
        return ite(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    if t.op in ("call", "mcall") and t.args[0] in NEVER_NONE:
        return FALSE
    return mk("isnone", t)


NEVER_NONE = set()


def eq(a, b):
    if a == b:
        return TRUE
    if a == NONE:
        return isnone(b)
    if b == NONE:
        return isnone(a)
    if a.op == "ite" or b.op == "ite":
        r = lift2(_eq, a, b)
        return r
    return _eq(a, b)


def _eq(a, b):
    if a == b:
        return TRUE
    if a == NONE:
        return isnone(b)
    if b == NONE:
        return isnone(a)
    for x, y in ((a, b), (b, a)):
        if x in (TRUE, FALSE) and sort(y) == "bool":
            return y if x == TRUE else not_(y)
    if is_const(a) and is_const(b):
        if a.op == "poly" and b.op == "poly":
            return FALSE
        if a.op == "const" and b.op == "const" and a.args[0] == b.args[0]:
            return FALSE
        if (a.op == "poly") != (b.op == "poly") and "str" in (a.args[0] if a.op == "const" else "", b.args[0] if b.op == "const" else ""):
            return FALSE
    if a.op == "lst" and b.op == "lst":
        if all(s.op == "item" for s in a.args + b.args):
            if len(a.args) != len(b.args):
                return FALSE
            return and_(*[eq(x.args[0], y.args[0]) for x, y in zip(a.args, b.args)])
    for x, y in ((a, b), (b, a)):
        # a target object of the circuit library is no plain value
        if x.op == "call" and isinstance(x.args[0], str) and x.args[0].startswith("stim.target_") and (is_const(y) or y.op in ("lst", "setlit", "strcat")):
            return FALSE
    if a.op == "setlit" and b.op == "setlit" and all(is_const(e) for e in a.args + b.args):
        return boolc(set(a.args) == set(b.args))
    if (is_numeric(a) or is_numeric(b)) and sort(a) != "str" and sort(b) != "str" and "lst" not in (a.op, b.op):
        return eq0(sub(a, b))
    x, y = sorted((a, b), key=lambda e: e.key)
    return mk("eq", x, y)


def cmp(op, a, b):
    if op == "Eq":
        return eq(a, b)
    if op == "NotEq":
        return not_(eq(a, b))
    if a.op == "ite" or b.op == "ite":
        return lift2(lambda x, y: _cmp(op, x, y), a, b)
    return _cmp(op, a, b)


def _cmp(op, a, b):
    if (a.op == "lst" or b.op == "lst" or sort(a) == "str" or sort(b) == "str"):
        if op in ("Gt", "GtE"):
            a, b = b, a
            op = {"Gt": "Lt", "GtE": "LtE"}[op]
        if strval(a) is not None and strval(b) is not None:
            return boolc(strval(a) < strval(b) if op == "Lt" else strval(a) <= strval(b))
        if op == "LtE":
            return not_(mk("lt", b, a))
        return mk("lt", a, b)
    if a.op == "const" or b.op == "const":
        if {"float"} & {a.args[0] if a.op == "const" else "", b.args[0] if b.op == "const" else ""}:
            va = a.args[1] if a.op == "const" else numval(a)
            vb = b.args[1] if b.op == "const" else numval(b)
            if va is not None and vb is not None:
                return boolc({"Lt": va < vb, "LtE": va <= vb, "Gt": va > vb, "GtE": va >= vb}[op])
            return mk("fcmp", op, a, b)
    if op == "GtE":
        return ge0(sub(a, b))
    if op == "LtE":
        return ge0(sub(b, a))
    if op == "Gt":
        return gt0(sub(a, b))
    if op == "Lt":
        return gt0(sub(b, a))
    raise KeyError(op)


def truth(t):
    """Python truthiness of t."""
    s = sort(t)
    if s == "bool":
        return t
    if t.op == "const":
        return boolc(bool(t.args[1]))
    if t == NONE:
        return FALSE
    if t.op == "ite":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if s in ("int", "num"):
        return not_(eq0(t))
    if t.op == "lst":
        return not_(eq0(length(t)))
    if t.op == "setlit":
        return boolc(bool(t.args))
    if t.op == "call" and t.args[0] == "sorted" or s.startswith(("set", "Set[", "List[", "Tuple[")) or s in ("list", "tuple", "dict") or s.startswith("Dict["):
        return not_(eq0(length(t)))
    if t.op in ("obj", "func", "clo", "lam", "cls", "ref"):
        return TRUE
    if t.op == "strcat":
        if any(strval(p) for p in t.args):
            return TRUE
    if s == "str":
        return not_(eq(t, const("")))
    return mk("truth", t)


def in_(x, c):
    if c.op == "ite":
        return ite(c.args[0], in_(x, c.args[1]), in_(x, c.args[2]))
    if x.op == "ite" and (is_const(x.args[1]) or is_const(x.args[2])):
        return ite(x.args[0], in_(x.args[1], c), in_(x.args[2], c))
    if c.op == "lst" and all(s.op == "item" for s in c.args):
        return or_(*[eq(x, s.args[0]) for s in c.args])
    if c.op == "setlit":
        return or_(*[eq(x, e) for e in c.args])
    if c.op == "dictv":
        return or_(*[eq(x, k) for k, _ in c.args[0]])
    if strval(c) is not None:
        if strval(x) is not None:
            return boolc(strval(x) in strval(c))
        return mk("insub", x, c)
    if c.op == "store":
        return or_(eq(x, c.args[1]), in_(x, c.args[0]))
    if c.op == "keys":
        return in_(x, c.args[0])
    if c.op == "setof":
        return in_(x, c.args[0])
    if c.op == "call" and c.args[0] == "sorted":
        return in_(x, c.args[1][0])
    return mk("in", x, c)


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if a == UNDEF:
        return b
    if b == UNDEF:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "ite":
        pass
    if a.op == "ite" and a.args[0] == c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] == c:
        return ite(c, a, b.args[2])
    sa, sb = sort(a), sort(b)
    if c.op == "eq0" and sa in ("int", "num") and sb in ("int", "num"):
        # where the test holds, the tested count has a known value
        d = pdict(c.args[0])
        ms = [m for m in d if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            at = ms[0][0][0]
            val = num(-d.get((), Fraction(0)) / d[ms[0]])
            a = subst(a, {at.key: val})
            if a == b or a == subst(b, {at.key: val}) and not is_const(b):
                return b
    if sa == "bool" and sb == "bool":
        if a == TRUE:
            return or_(c, b)
        if a == FALSE:
            return and_(not_(c), b)
        if b == TRUE:
            return or_(not_(c), a)
        if b == FALSE:
            return and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == "lst" and b.op == "lst":
        return joinlst(c, a, b)
    if a.op == "obj" and b.op == "obj" and a.args[0] == b.args[0]:
        fa, fb = dict(a.args[1]), dict(b.args[1])
        if set(fa) == set(fb):
            return mk("obj", a.args[0], tuple((k, ite(c, fa[k], fb[k])) for k in sorted(fa)))
    # if c is "x == const", the equal branch may mention the constant in place of x
    return mk("ite", c, a, b)


# ----------------------------------------------------------------- sequences

def item(x):
    return mk("item", x)


def spread(x):
    return mk("spread", x)


EMPTY = mk("lst")


def lst(segs):
    out = []
    for s in segs:
        if s.op == "spread":
            x = s.args[0]
            if x.op == "lst":
                out.extend(x.args)
                continue
            if x.op == "ite" and (x.args[1].op == "lst" or x.args[2].op == "lst"):
                out.extend(cseg(x.args[0], lst([spread(x.args[1])]), lst([spread(x.args[2])])))
                continue
            if strval(x) is not None:
                out.extend(item(const(ch)) for ch in strval(x))
                continue
        elif s.op == "cseg":
            out.extend(cseg(s.args[0], s.args[1], s.args[2]))
            continue
        elif s.op == "rep":
            out.extend(rep(s.args[0], s.args[1], s.args[2]))
            continue
        out.append(s)
    return mk("lst", *out)


def cseg(c, a, b):
    """Segments for: a if c else b (a, b list terms)."""
    if c == TRUE:
        return list(a.args)
    if c == FALSE:
        return list(b.args)
    if a == b:
        return list(a.args)
    if c.op == "not":
        c, a, b = c.args[0], b, a
    return [mk("cseg", c, a, b)]


def joinlst(c, a, b):
    """List term for (a if c else b), factoring out the common prefix and suffix."""
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    x, y = list(a.args), list(b.args)
    pre = []
    while x and y and x[0] == y[0]:
        pre.append(x.pop(0))
        y.pop(0)
    suf = []
    while x and y and x[-1] == y[-1]:
        suf.insert(0, x.pop())
        y.pop()
    mid = [] if not x and not y else cseg(c, mk("lst", *x), mk("lst", *y))
    return mk("lst", *(pre + mid + suf))


MAX_UNROLL = 64


def rep(n, bv, body):
    """Segments for: body(bv) for bv in range(n), concatenated."""
    if body.op == "lst" and not body.args:
        return []
    k = intval(n)
    if k is not None:
        if k <= 0:
            return []
        if not mentions(body, bv):
            if k == 1:
                return list(body.args)
        elif k <= MAX_UNROLL:
            out = []
            for i in range(k):
                out.extend(subst(body, {bv.key: num(i)}).args)
            return out
    if FUSE_HOOK is not None and n.op == "call":
        r = FUSE_HOOK(n, bv, body)
        if r is not None:
            return r
    if not (bv.op == "bv" and bv.args[0] == "h"):
        bv, (body,) = close(bv, (body,))
    elif not mentions(body, bv):
        bv = mk("bv", "h", 0)
    # for i in range(len(L)): yield L[i]   ==  L
    if len(body.args) == 1 and body.args[0].op == "item":
        x = body.args[0].args[0]
        if x.op == "idx" and x.args[1] == bv and n == length(x.args[0]) and not mentions(x.args[0], bv):
            return list(lst([spread(x.args[0])]).args)
    return [mk("rep", n, bv, body)]


def close(bv, bodies):
    """Replace the fresh binder bv by its canonical (height-indexed) form."""
    if not any(mentions(b, bv) for b in bodies):
        return mk("bv", "h", 0), bodies
    h = 1 + max([0] + [b.bh for b in bodies])
    nb = mk("bv", "h", h)
    return nb, tuple(subst(b, {bv.key: nb}) for b in bodies)


def mentions(t, x):
    if isinstance(x, T) and x.op in ("bv", "phi") and x.args[0] == "f":
        return x.key in t.fb
    return any(s == x for s in subterms(t))


def concat(*ls):
    segs = []
    for l in ls:
        if l.op == "lst":
            segs.extend(l.args)
        else:
            segs.append(spread(l))
    return lst(segs)


def listof(*xs):
    return lst([item(x) for x in xs])


def length(t):
    if t.op == "lst":
        tot = num(0)
        for s in t.args:
            if s.op == "item":
                tot = add(tot, num(1))
            elif s.op == "cseg":
                tot = add(tot, ite(s.args[0], length(s.args[1]), length(s.args[2])))
            elif s.op == "rep":
                tot = add(tot, sumt(s.args[0], s.args[1], length(s.args[2])))
            elif s.op == "spread":
                tot = add(tot, length(s.args[0]))
        return tot
    if strval(t) is not None:
        return num(len(strval(t)))
    if t.op == "setlit" and all(is_const(e) for e in t.args):
        return num(len(set(t.args)))
    if t.op in ("keys", "values", "items"):
        return length(t.args[0])
    if t.op == "call" and t.args[0] in ("sorted", "numpy.array", "numpy.asarray"):
        return length(t.args[1][0])
    if t.op == "dictv":
        return num(len(t.args[0]))
    if t.op == "ite":
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if t.op == "lout" and LEN_HOOK is not None:
        r = LEN_HOOK(t)
        if r is not None:
            return r
    return mk("call", "len", (t,), ())


LEN_HOOK = None
FUSE_HOOK = None


def sumt(n, bv, body):
    if not mentions(body, bv):
        return mul(n, body)
    if bv.args[0] == "f":
        bv, (body,) = close(bv, (body,))
    return mk("sum", n, bv, body)


def idx(c, i):
    if c.op == "setlit" and len(c.args) == 1 and intval(i) == 0:
        return c.args[0]
    if c.op == "ite":
        return ite(c.args[0], idx(c.args[1], i), idx(c.args[2], i))
    k = intval(i)
    if c.op == "lst":
        segs = c.args
        if k is not None:
            if k >= 0:
                if k < len(segs) and all(s.op == "item" for s in segs[:k + 1]):
                    return segs[k].args[0]
            else:
                if -k <= len(segs) and all(s.op == "item" for s in segs[k:]):
                    return segs[k].args[0]
        if len(segs) == 1 and segs[0].op == "rep" and len(segs[0].args[2].args) == 1 and segs[0].args[2].args[0].op == "item":
            n, bv, body = segs[0].args
            j = add(n, i) if (k is not None and k < 0) else i
            return subst(body.args[0].args[0], {bv.key: j})
        if segs and all(s.op == "item" for s in segs) and (i.op in ("mod",) or sort(i) == "int") and k is None:
            m = intval(i.args[1]) if i.op == "mod" else None
            if m == len(segs) and m <= 12:
                r = segs[-1].args[0]
                for v in range(m - 2, -1, -1):
                    r = ite(eq(i, num(v)), segs[v].args[0], r)
                return r
        if len(segs) == 1 and segs[0].op == "spread":
            return idx(segs[0].args[0], i)
    s = strval(c)
    if s is not None:
        if k is not None and -len(s) <= k < len(s):
            return const(s[k])
        m = intval(i.args[1]) if i.op == "mod" else None
        if m is not None and m == len(s) and m <= 12:
            r = const(s[-1])
            for v in range(m - 2, -1, -1):
                r = ite(eq(i, num(v)), const(s[v]), r)
            return r
    if c.op == "dictv":
        ent = c.args[0]
        for kk, v in ent:
            if kk == i:
                return v
        if ent and not is_const(i):
            r = ent[-1][1]
            # out-of-table keys raise KeyError at run time, so the last entry may serve as default
            for kk, v in reversed(ent[:-1]):
                r = ite(eq(i, kk), v, r)
            return r
    if i.op == "ite":
        return ite(i.args[0], idx(c, i.args[1]), idx(c, i.args[2]))
    if c.op == "store":
        return ite(eq(i, c.args[1]), c.args[2], idx(c.args[0], i))
    if IDX_HOOK is not None:
        r = IDX_HOOK(c, i)
        if r is not None:
            return r
    return mk("idx", c, i)


IDX_HOOK = None


def dstore(d, k, v):
    """The mapping d with k bound to v (insertion order of a new key: last)."""
    if d.op == "ite":
        a, b = dstore(d.args[1], k, v), dstore(d.args[2], k, v)
        return ite(d.args[0], a, b)
    if d.op == "dictv":
        ent = list(d.args[0])
        for j, (kk, _) in enumerate(ent):
            if kk == k:
                ent[j] = (k, v)
                return mk("dictv", tuple(ent))
        if is_const(k) and all(is_const(kk) for kk, _ in ent) or not ent:
            return mk("dictv", tuple(ent + [(k, v)]))
    if d.op == "store" and d.args[1] == k:
        return mk("store", d.args[0], k, v)
    return mk("store", d, k, v)


def setlit(xs):
    d = {x.key: x for x in xs}
    return mk("setlit", *sorted(d.values(), key=lambda e: e.key))


# ----------------------------------------------------------------- strings

def strcat(*parts):
    out = []
    for p in parts:
        sub_ = p.args if p.op == "strcat" else (p,)
        for q in sub_:
            s = strval(q)
            if s == "":
                continue
            if s is not None and out and strval(out[-1]) is not None:
                out[-1] = const(strval(out[-1]) + s)
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and sort(out[0]) == "str":
        return out[0]
    return mk("strcat", *out)


def tostr(x):
    if x.op == "call" and x.args[0] == "pathlib.Path" and len(x.args[1]) == 1 and x.args[1][0].op == "strcat":
        return x.args[1][0]
    if x.op == "const":
        return const(str(x.args[1]))
    v = intval(x)
    if v is not None:
        return const(str(v))
    if sort(x) == "str":
        return x
    if x.op == "ite":
        return ite(x.args[0], tostr(x.args[1]), tostr(x.args[2]))
    return mk("call", "str", (x,), ())


# ----------------------------------------------------------------- generic traversal

def rebuild(op, args):
    if op == "poly":
        tot = {}
        for m, c in args[0]:
            f = {(): c}
            t = num(c)
            for a, e in m:
                if e > 0:
                    for _ in range(e):
                        t = mul(t, a)
                else:
                    for _ in range(-e):
                        t = mul(t, inv(a if a.op != "grp" else a.args[0]))
            for mm, cc in pdict(t).items():
                tot[mm] = tot.get(mm, 0) + cc
        return from_pdict(tot)
    if op == "ite":
        return ite(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(*args)
    if op == "ge0":
        return ge0(*args)
    if op == "eq0":
        return eq0(*args)
    if op == "eq":
        return eq(*args)
    if op == "isnone":
        return isnone(*args)
    if op == "in":
        return in_(*args)
    if op == "insub":
        return in_(*args)
    if op == "truth":
        return truth(*args)
    if op == "mod":
        return mod(*args)
    if op == "fdiv":
        return floordiv(*args)
    if op == "pow":
        return powt(*args)
    if op == "grp":
        return args[0]
    if op == "lst":
        return lst(args)
    if op == "sum":
        return sumt(*args)
    if op == "idx":
        return idx(*args)
    if op == "strcat":
        return strcat(*args)
    if op == "call":
        if args[0] == "len":
            return length(args[1][0])
        if args[0] == "str" and not args[2]:
            return tostr(args[1][0])
        if REBUILD_CALL is not None:
            return REBUILD_CALL(*args)
    if op == "attr":
        if REBUILD_ATTR is not None:
            return REBUILD_ATTR(*args)
    if op == "setlit":
        return setlit(args)
    if op == "store":
        return dstore(*args)
    if op == "obj":
        return mk(op, *args)
    if REBUILD_HOOK is not None:
        r = REBUILD_HOOK(op, args)
        if r is not None:
            return r
    return mk(op, *args)


REBUILD_HOOK = None
REBUILD_CALL = None
REBUILD_ATTR = None


def _mapargs(args, f):
    out = []
    for a in args:
        if isinstance(a, T):
            out.append(f(a))
        elif isinstance(a, tuple):
            out.append(_mapargs(a, f))
        else:
            out.append(a)
    return tuple(out)


def transform(t, f, memo=None):
    """Bottom-up rebuild; f(term) returns a replacement or None (checked before descending)."""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x.key)
        if r is not None:
            return r
        r = f(x)
        if r is None:
            args = _mapargs(x.args, go)
            r = x if args == x.args else rebuild(x.op, args)
        memo[x.key] = r
        return r

    return go(t)


def subst(t, mapping):
    if not mapping:
        return t
    return transform(t, lambda x: mapping.get(x.key))


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x.key in seen:
            continue
        seen.add(x.key)
        yield x
        stack.extend(x.args)


def occurs(t, pred):
    return any(pred(s) for s in subterms(t))


# ----------------------------------------------------------------- printing

def _fr(c):
    return str(c.numerator) if c.denominator == 1 else (str(float(c)) if (10 ** 12 * c).denominator == 1 else f"{c.numerator}/{c.denominator}")


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(e) for e in t) + ")"
        return repr(t)
    if depth > 14:
        return "..."
    s = lambda x: show(x, depth + 1)
    op, a = t.op, t.args
    if op == "const":
        return repr(a[1])
    if op == "poly":
        if not a[0]:
            return "0"
        parts = []
        for m, c in a[0]:
            fs = [(s(x) if e == 1 else f"{s(x)}^{e}") for x, e in m]
            if c != 1 or not fs:
                fs.insert(0, _fr(c))
            parts.append("*".join(fs))
        return "(" + " + ".join(parts) + ")" if len(parts) > 1 else parts[0]
    if op == "J":
        return "1j"
    if op == "sym":
        return a[0]
    if op == "bv":
        return f"i{a[1]}" if a[0] == "h" else f"i'{a[1]}"
    if op == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op == "not":
        return f"not {s(a[0])}"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(s(x) for x in a) + ")"
    if op == "ge0":
        return f"[{s(a[0])} >= 0]"
    if op == "eq0":
        return f"[{s(a[0])} == 0]"
    if op == "eq":
        return f"[{s(a[0])} == {s(a[1])}]"
    if op == "in":
        return f"[{s(a[0])} in {s(a[1])}]"
    if op == "isnone":
        return f"[{s(a[0])} is None]"
    if op == "mod":
        return f"({s(a[0])} % {s(a[1])})"
    if op == "fdiv":
        return f"({s(a[0])} // {s(a[1])})"
    if op == "pow":
        return f"({s(a[0])} ** {s(a[1])})"
    if op == "lst":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if op == "item":
        return s(a[0])
    if op == "spread":
        return "*" + s(a[0])
    if op == "cseg":
        return f"<{s(a[1])} if {s(a[0])} else {s(a[2])}>"
    if op == "rep":
        return f"<{s(a[2])} for {s(a[1])} < {s(a[0])}>"
    if op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if op == "idx":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "typed":
        return s(a[0])
    if op == "call":
        return f"{a[0]}(" + ", ".join([s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]) + ")"
    if op == "mcall":
        return f"{s(a[1])}.{a[0]}(" + ", ".join([s(x) for x in a[2]] + [f"{k}={s(v)}" for k, v in a[3]]) + ")"
    if op == "obj":
        return f"{a[0]}(" + ", ".join(f"{k}={s(v)}" for k, v in a[1]) + ")"
    if op == "ev":
        return f"!{a[0]}(" + ", ".join(s(x) for x in a[1:]) + ")"
    return f"{op}(" + ", ".join(show(x, depth + 1) if isinstance(x, T) else (show(x, depth + 1) if isinstance(x, tuple) else repr(x)) for x in a) + ")"
