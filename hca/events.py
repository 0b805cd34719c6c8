"""Walking the effect log of a summary."""
from . import terms as T
from .terms import mk, num, not_, and_, TRUE, FALSE, subst, lst
from .linear import Facts


class Loop:
    """One enclosing loop of an event: kind, trip count, index variable (fresh), recurrence pieces."""

    def __init__(self, kind, n, i, phis=(), inits=(), nexts=(), exitc=FALSE, last=False, src=None):
        self.kind, self.n, self.i = kind, n, i
        self.phis, self.inits, self.nexts, self.exitc, self.last = phis, inits, nexts, exitc, last
        self.src = src


class Node:
    """Tree of the log: seq of ('ev', term) | ('if', cond, Node, Node) | ('loop', Loop, Node) | ('opaque', term)."""

    def __init__(self, items):
        self.items = items


def opened(t, mapping):
    return subst(t, mapping)


_cache = {}


def tree(world):
    return Node([x for s in world.args for x in _seg(s)])


def _seg(s):
    if s.op == "item":
        return [("ev", s.args[0])]
    if s.op == "cseg":
        return [("if", s.args[0], tree(s.args[1]), tree(s.args[2]))]
    if s.op == "rep":
        n, bv, body = s.args
        v = T.fresh_bv()
        return [("loop", Loop("for", n, v, src=s), tree(subst(body, {bv.key: v})))]
    if s.op == "lseg":
        return [open_loop(s, s, False)]
    if s.op == "spread":
        x = s.args[0]
        if x.op == "lout" and x.args[6].op == "lst":
            return [open_loop(x, s, True)]
        if x.op == "ite":
            return [("if", x.args[0], tree(as_lst(x.args[1])), tree(as_lst(x.args[2])))]
        return [("opaque", x)]
    return [("opaque", s)]


def as_lst(x):
    return x if x.op == "lst" else mk("lst", mk("spread", x))


def open_loop(x, s, last):
    n, bv, phis, inits, nexts, exitc, expr = x.args
    v = T.fresh_bv()
    m = {bv.key: v} if bv.args[1] != 0 else {}
    ps = []
    for p in phis:
        q = T.fresh_phi(T.sort(p))
        m[p.key] = q
        ps.append(q)
    L = Loop("while", n, v, tuple(ps), inits, tuple(subst(e, m) for e in nexts), subst(exitc, m), last, src=s)
    return ("loop", L, tree(as_lst(subst(expr, m))))


def walk(node, loops=(), guards=()):
    """Yield (loops, guards, kind, payload) in order."""
    for it in node.items:
        if it[0] == "ev":
            yield loops, guards, "ev", it[1]
        elif it[0] == "opaque":
            yield loops, guards, "opaque", it[1]
        elif it[0] == "if":
            yield from walk(it[2], loops, guards + (it[1],))
            yield from walk(it[3], loops, guards + (not_(it[1]),))
        else:
            yield from walk(it[2], loops + (it[1],), guards)


def traces(node, facts=None, limit=4096):
    """Alternatives of a node: list of (facts, flat list of ('ev'|'loop'|'opaque', ...)), splitting on guards."""
    facts = facts or Facts()
    states = [(facts, [])]
    for it in node.items:
        nxt = []
        for f, tr in states:
            if it[0] == "if":
                c = f.simplify(it[1])
                for cond, sub in ((c, it[2]), (not_(c), it[3])):
                    if cond == FALSE:
                        continue
                    f2 = f if cond == TRUE else f.assume(cond)
                    from .equiv import consistent
                    if f2 is not f and not consistent(f2):
                        continue
                    for f3, tr3 in traces(sub, f2, limit):
                        nxt.append((f3, tr + tr3))
            else:
                nxt.append((f, tr + [it]))
        states = nxt
        if len(states) > limit:
            raise OverflowError("too many alternatives")
    # stop each trace at its first raise
    out = []
    for f, tr in states:
        cut = []
        for it in tr:
            cut.append(it)
            if it[0] == "ev" and it[1].op == "ev" and it[1].args[0] == "RAISE":
                break
        out.append((f, cut))
    return out


def ev_kind(e):
    return e.args[0] if e.op == "ev" else None


def project(world, f):
    """The log with each event e replaced by f(e) (dropped when f gives None)."""
    out = []
    for s in world.args:
        out.extend(_pseg(s, f))
    return lst(out)


def _pseg(s, f):
    if s.op == "item":
        r = f(s.args[0])
        return [] if r is None else r if isinstance(r, list) else [T.item(r)]
    if s.op == "cseg":
        return T.cseg(s.args[0], project(s.args[1], f), project(s.args[2], f))
    if s.op == "rep":
        return T.rep(s.args[0], s.args[1], project(s.args[2], f))
    if s.op == "lseg":
        b = project(as_lst(s.args[6]), f)
        return [] if not b.args else [mk("lseg", *s.args[:6], b)]
    if s.op == "spread":
        x = s.args[0]
        if x.op == "ite":
            return T.cseg(x.args[0], project(as_lst(x.args[1]), f), project(as_lst(x.args[2]), f))
        if x.op == "lout" and x.args[6].op == "lst":
            b = project(x.args[6], f)
            return [] if not b.args else [T.spread(mk("lout", *x.args[:6], b))]
    return [s]
