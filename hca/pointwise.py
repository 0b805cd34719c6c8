"""Element-wise reading of numpy code: an array stands for its value at one arbitrary position."""
from . import terms as T
from .terms import mk, num, const, not_, and_, ite, TRUE, FALSE
from .engine import numeric, simplify_call
from .linear import Facts

FLOATS = ("numpy.float32", "numpy.float64", "float", "numpy.double", "numpy.single", "numpy.longdouble")


class Pointwise:
    def __init__(self):
        self.logs = []      # [argument, mask under which it is evaluated, result]
        self.bad = []

    # x[mask] is x, remembered as known only where the mask holds
    def get(self, I, o, k):
        v = I.freeze(I.deref(o)) if o.op != "ref" else I.freeze(o)
        return mk("call", "$where", (v, k), ())

    def set(self, I, o, k, v):
        cur = I.freeze(o)
        v, m = strip(v)
        if m != TRUE and Facts().simplify(m) != k and m != k:
            self.bad.append(f"values selected by {T.show(m)} are stored where {T.show(k)}")
        I.setcell(o, ite(k, v, cur))

    def log(self, x, plus=0):
        x, m = strip(x)
        a = T.add(x, num(plus))
        r = mk("call", "math.log", (a,), ())
        self.logs.append([a, m, r])
        return r if m == TRUE else mk("call", "$where", (r, m), ())

    def hooks(self):
        def one(f):
            def h(I, args, kw, stmt):
                if kw or any(a.op == "argseg" for a in args):
                    return mk("call", "numpy.?", tuple(I.freeze(a) for a in args), ())
                return f(*[I.freeze(a) for a in args])
            return h

        def zeros(v):
            def h(I, args, kw, stmt):
                dt = kw.get("dtype", args[1] if len(args) > 1 else None)
                if dt is not None and not (dt.op == "ext" and dt.args[0] in FLOATS):
                    return mk("call", "numpy.zeros", tuple(I.freeze(a) for a in args), ())
                if v is None:
                    return I.alloc("ext", I.freeze(args[1]))
                return I.alloc("ext", num(v))
            return h

        def where(c, a, b):
            c = T.truth(c)
            for sub, cc in ((a, c), (b, not_(c))):
                for t in T.subterms(sub):
                    for l in self.logs:
                        if l[2] == t:
                            l[1] = and_(l[1], cc)
            return ite(c, a, b)

        def array(I, args, kw, stmt):
            return I.alloc("ext", I.freeze(args[0]))
        mn = lambda a, b: simplify_call("min", (a, b), ())
        mx = lambda a, b: simplify_call("max", (a, b), ())
        return {
            "ext:numpy.log": one(self.log), "ext:numpy.log1p": one(lambda x: self.log(x, 1)), "ext:math.log": one(self.log), "ext:math.log1p": one(lambda x: self.log(x, 1)),
            "ext:numpy.clip": one(lambda p, a, b: mn(mx(p, a), b)), "meth:clip": None,
            "ext:numpy.minimum": one(mn), "ext:numpy.maximum": one(mx),
            "ext:numpy.zeros": zeros(0), "ext:numpy.zeros_like": zeros(0), "ext:numpy.full": zeros(None), "ext:numpy.where": one(where),
            "ext:numpy.array": array, "ext:numpy.asarray": one(lambda x: x), "ext:numpy.copy": array,
        }


def strip(t):
    """(t with its selections removed, the conjunction of their masks)"""
    ms = []

    def f(x):
        if x.op == "call" and x.args[0] == "$where":
            ms.append(x.args[1][1])
            return T.transform(x.args[1][0], f)
        return None
    r = T.transform(t, f)
    m = and_(*ms) if ms else TRUE
    if m != TRUE:
        m2 = T.transform(m, lambda x: x.args[1][0] if x.op == "call" and x.args[0] == "$where" else None)
        m = m2
    return r, m
