"""The generated circuits: schedule, order of measurements and annotations (shared by C17, C18, C19).

`generate_honeycomb_circuit` is evaluated abstractly from the top, with the measurement tracker replaced by a log of the calls
made to it and the layout by one with arbitrary edges, hexagons and qubits.  What comes out is the sequence of operations and
the sequence of tracker calls, both as terms over the arbitrary lists; everything below is decided on those terms.
"""
import os
from concurrent.futures import ProcessPoolExecutor

from hca import terms as T
from hca import events as E
from hca.arrays import Canon
from hca.engine import AnalysisBroken
from hca.equiv import equal
from hca.linear import Facts
from hca.terms import strval, numval, intval, num, mk, const, NONE, TRUE, FALSE

STYLES = ("SD6", "PC3", "EM3", "EM3_v2", "SI1000")
DIRECT = ("EM3", "EM3_v2")
OPAQUE = {f"spec_{x}" for x in "trk_measure trk_dummy trk_group trk_lookup edges hexes all_edges data ancillas used q2i first second "
          "six 1st 2nd obs_edges obs_qubits obs_index noisy".split()}
EFFECTFUL = {f"spec_trk_{x}" for x in "measure dummy group lookup".split()}
BASES = {"V": "ZYYXXZ", "H": "XXZZYY"}
P = "XYZ"

# images of X, Y, Z (signs do not matter here) under each single-qubit Clifford
CLIFFORD = {
    "I": "XYZ", "X": "XYZ", "Y": "XYZ", "Z": "XYZ", "H": "ZYX", "H_XZ": "ZYX", "H_XY": "YXZ", "H_YZ": "XZY", "S": "YXZ", "S_DAG": "YXZ",
    "SQRT_Z": "YXZ", "SQRT_Z_DAG": "YXZ", "SQRT_X": "XZY", "SQRT_X_DAG": "XZY", "SQRT_Y": "ZYX", "SQRT_Y_DAG": "ZYX",
    "C_XYZ": "YZX", "C_ZYX": "ZXY",
}
PAIRS = {"CX": "ZX", "CNOT": "ZX", "ZCX": "ZX", "CY": "ZY", "ZCY": "ZY", "CZ": "ZZ", "ZCZ": "ZZ",
         **{a + "C" + b: a + b for a in P for b in P}}
RESETS = {"R": "Z", "RZ": "Z", "RX": "X", "RY": "Y"}
MEASURES = {"M": "Z", "MZ": "Z", "MX": "X", "MY": "Y"}
NOTES = {"DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "QUBIT_COORDS"}


class Odd(Exception):
    """The generated circuit has a construct outside the recognised vocabulary."""


class Undet(Exception):
    pass


def prepare(c):
    c.p.patch("HoneycombLayout", "ModelLayout")
    c.p.patch("MeasurementTracker", "ModelTracker")
    return c


def evaluate(c, style, obs, n, facts=None):
    return c.summary("spec_circuit", "drive", args=dict(style=const(style), obs=const(obs), n=n), opaque=OPAQUE,
                     effectful=EFFECTFUL, serial=True, facts=facts)


def raising(s):
    """Whether every path ends in an exception (after no result)."""
    return s.ret.op == "sym" and s.ret.args[0] == "<raises>"


class Run:
    """One evaluated configuration.  `n` is a number or 6 q + r with q >= qmin."""

    def __init__(self, c, style, obs, n, rep=None):
        self.c, self.style, self.obs, self.n = c, style, obs, n
        self.nv = intval(n) if rep is None else rep       # a concrete count the bookkeeping of relative positions uses
        self.out = []
        self.label = f"style {style}, observable {obs}, " + (f"{self.nv} sub-rounds" if rep is None else f"6q+{rep % 6} sub-rounds (q any, at least {QMIN})")
        self.cands = candidates(c, style)
        self.facts = Facts().assume(T.cmp("GtE", Q, num(QMIN))) if rep is not None else Facts()
        self.s = evaluate(c, style, obs, n, self.facts if rep is not None else None)
        self.raises = raising(self.s)
        if self.raises:
            return
        try:
            self.ops = self.circuit(self.s.ret)
            self.events = self.log(self.s.world)
            self.lookups, self.measured, _ = self.simulate(self.events)
            self.byserial = {}
            for l in self.lookups:
                self.byserial[intval(l[0].args[-1])] = l
            self.flat = self.flatten(self.ops)
        except (Odd, Undet) as e:
            self.fail("C17", "the generated circuit is built from recognised operations", str(e))
            self.fail("C18", "the generated circuit is built from recognised operations", str(e))
            self.fail("C19", "the generated circuit is built from recognised operations", str(e))
            self.ops = None

    def fail(self, prop, rule, detail):
        self.out.append((prop, rule, False, f"{self.label}: {detail}"))

    def ok(self, prop, rule, cond, detail=""):
        self.out.append((prop, rule, bool(cond), "" if cond else f"{self.label}: {detail}"))
        return cond

    # ------------------------------------------------------------ parsing

    def circuit(self, t):
        if t.op == "call" and t.args[0] == "spec_noisy":
            t = t.args[1][2]
        if t.op == "call" and t.args[0].split(".")[-1] in ("noisy_circuit",):
            t = t.args[1][-1]
        if t.op != "circv":
            raise Odd(f"the result is not one circuit built from operations: {T.show(t)[:300]}")
        return self.nodes(t.args[0], ())

    def nodes(self, content, loops):
        out = []
        for s in content.args:
            if s.op == "item":
                o = s.args[0]
                if o.op != "op":
                    raise Odd(f"unrecognised piece of circuit {T.show(o)[:200]}")
                name = strval(o.args[0])
                if name is None:
                    raise Odd(f"operation with undetermined name {T.show(o.args[0])[:200]}")
                if name == "REPEAT":
                    out.append(("repeat", self.number(o.args[1]), self.nodes(o.args[2] if o.args[2].op != "circv" else o.args[2].args[0], loops)))
                else:
                    out.append(("op", name, o.args[1], o.args[2], loops))
            elif s.op == "rep":
                src = self.source(s.args[0])
                v = T.fresh_bv()
                out += self.nodes(T.subst(s.args[2], {s.args[1].key: v}), loops + ((src, v),))
            elif s.op == "cseg":
                out.append(("if", s.args[0], self.nodes(s.args[1], loops), self.nodes(s.args[2], loops)))
            elif s.op == "spread" and s.args[0].op == "circv":
                out += self.nodes(s.args[0].args[0], loops)
            elif s.op == "spread" and filled(s.args[0]) is not None:
                n, i, init, body = filled(s.args[0])
                out += self.nodes(init, loops)
                v = T.fresh_bv()
                out += self.nodes(T.subst(body, {i.key: v}), loops + ((self.source(n), v),))
            else:
                raise Odd(f"unrecognised piece of circuit {T.show(s)[:300]}")
        return out

    def number(self, n):
        """A repetition count as a polynomial, with maxima decided where the range of q decides them."""
        def f(x):
            if x.op == "call" and x.args[0] in ("max", "min") and len(x.args[1]) == 2:
                a, b = x.args[1]
                g = self.facts.simplify(T.cmp("GtE", a, b))
                if g in (TRUE, FALSE):
                    return a if (g == TRUE) == (x.args[0] == "max") else b
            return x
        return T.transform(self.facts.simplify(n), f)

    def source(self, n):
        if n.op == "call" and n.args[0] == "len":
            return n.args[1][0]
        raise Odd(f"loop over something that is not one of the layout's lists: {T.show(n)[:200]}")

    def log(self, w):
        from hca.equiv import strip_raise
        out = []

        def go(l, loops, guard):
            for s in l.args:
                if s.op == "item":
                    e = s.args[0]
                    if e.op == "ev" and e.args[0] == "OP" and e.args[1].op == "occ" and e.args[1].args[0] in EFFECTFUL:
                        o = e.args[1]
                        kw = {strval(p.args[0].args[0].args[0]): p.args[0].args[1].args[0] for p in o.args[1].args}
                        out.append((o.args[0][9:], kw, loops, o))
                    elif e.op == "ev" and e.args[0] == "RAISE":
                        if guard is None:
                            raise Odd(f"the generator fails with {T.show(e.args[1])[:100]}")
                    else:
                        raise Odd(f"unexpected effect {T.show(e)[:200]}")
                elif s.op == "rep":
                    v = T.fresh_bv()
                    go(T.subst(s.args[2], {s.args[1].key: v}), loops + ((self.source(s.args[0]), v),), guard)
                elif s.op == "cseg":
                    a, b = s.args[1], s.args[2]
                    for side in (a, b):
                        if all(x.op == "item" and x.args[0].op == "ev" and x.args[0].args[0] == "RAISE" for x in side.args):
                            continue
                        raise Odd(f"tracker calls that depend on {T.show(s.args[0])[:200]}")
                else:
                    raise Odd(f"unrecognised effects {T.show(s)[:200]}")
        go(w, (), None)
        return out

    # ------------------------------------------------------------ classes of lists, elements and keys

    def cls(self, s):
        """The layout list a term denotes."""
        r = _cls.get((self.obs, s.key))
        if r is None:
            r = _cls[(self.obs, s.key)] = self._classify(s)
        return r

    def _classify(self, s):
        if s.op == "call" and s.args[0] in ("sorted", "reversed", "list", "tuple"):
            return self.cls(s.args[1][0])
        if s.op == "call" and s.args[0].startswith("spec_"):
            q, a = s.args[0], s.args[1]
            if q == "spec_edges" and intval(a[0]) is not None:
                return ("e", intval(a[0]))
            if q == "spec_hexes" and intval(a[0]) is not None:
                return ("h", intval(a[0]))
            if q == "spec_data":
                return ("d",)
            if q == "spec_used":
                return ("u",)
            if q == "spec_ancillas":
                return ("a",)
            if q == "spec_obs_qubits" and strval(a[0]) == self.obs and intval(a[1]) is not None:
                return ("oq", intval(a[1]))
            if q in ("spec_first", "spec_second", "spec_six"):
                return (q[5:], a[0])
        if s.op == "lst" and len(s.args) == 1 and s.args[0].op == "spread":
            return self.cls(s.args[0].args[0])
        for col in range(3):
            for t in obs_sets(self.c, self.obs, col):
                if t.key == s.key or T.lst([T.spread(t)]).key == s.key or same(t, s):
                    return ("oe", col)
        raise Odd(f"unrecognised list {T.show(s)[:300]}")

    def elem(self, t, env):
        """(class, source) when t is the current element of an enclosing loop."""
        if t.op == "idx":
            for src, v in env:
                if t.args[1] == v and (t.args[0].key == src.key):
                    return self.cls(src)
        return None

    def key(self, t, env, depth=1):
        """('own', kind, class, depth) of a single tracker key."""
        if t.op == "obj" and t.args[0] == "Prev":
            f = dict(t.args[1])
            k = intval(f["offset"])
            if k is None:
                raise Odd(f"previous key at an undetermined distance {T.show(t)[:200]}")
            return self.key(f["v"], env, depth + k)
        e = self.elem(t, env)
        if e is not None:
            return ("full", e, depth)
        if t.op == "lst" and len(t.args) == 2 and all(s.op == "item" for s in t.args) and strval(t.args[0].args[0]) is not None:
            e = self.elem(t.args[1].args[0], env)
            if e is not None:
                return (strval(t.args[0].args[0]), e, depth)
        if t.op == "attr" and t.args[1] in ("left", "right", "center"):
            e = self.elem(t.args[0], env)
            if e is not None and e[0] == "e":
                return ("end:" + t.args[1], e, depth)
        raise Odd(f"unrecognised tracker key {T.show(t)[:300]}")

    def keys(self, t, env):
        """[(env of the key, key term) | ('all', class term)] of a keys argument."""
        out = []
        if t.op != "lst":
            t = T.lst([T.spread(t)])
        for s in t.args:
            if s.op == "item":
                out.append(("one", s.args[0], env))
            elif s.op == "rep":
                v = T.fresh_bv()
                src = self.source(s.args[0])
                body = T.subst(s.args[2], {s.args[1].key: v})
                for x in self.keys(body, env + ((src, v),)):
                    out.append(("each", src, v, x))
            elif s.op == "spread":
                x = s.args[0]
                r = x
                while r.op == "call" and r.args[0] in ("sorted", "list", "tuple"):
                    r = r.args[1][0]
                if r.op == "lst":
                    out += self.keys(r, env)
                else:
                    v = T.fresh_bv()
                    out.append(("each", x, v, ("one", mk("idx", x, v), env + ((x, v),))))
            else:
                raise Odd(f"unrecognised tracker keys {T.show(s)[:300]}")
        return out

    # ------------------------------------------------------------ the tracker's history, per class of keys

    def simulate(self, events):
        """Run tracker calls; returns [(occ term, K, measured so far, value or None, loops)] of the lookups and the measured classes."""
        hist = {}
        measured = []
        data_done = [False]
        lookups = []
        def entry(kind, cls, depth):
            h = hist.get((kind, cls))
            if h is None or depth > len(h):
                raise Undet(f"no entry {depth} back for {kind} {cls}")
            return h[-depth]

        def one(t, env, own):
            kind, cls, depth = self.key(t, env)
            if kind.startswith("end:"):
                if kind == "end:center":
                    raise Odd(f"tracker key of an edge centre {T.show(t)[:100]}")
                if not data_done[0]:
                    raise Undet("data qubit looked up before the data is measured")
                if depth != 1:
                    raise Undet("earlier measurement of a data qubit")
                return frozenset([("data", kind[4:])])
            if cls[0] in ("first", "second"):
                if depth != 1:
                    raise Odd("earlier values of edges around a hexagon")
                h = self.elem(cls[1], env)
                if h is None or h[0] != "h":
                    raise Odd(f"edges around {T.show(cls[1])[:100]}")
                col = (h[1] + (1 if cls[0] == "first" else 2)) % 3
                v = entry(kind, ("e", col), 1)
                return None if v is None else frozenset((cls[0], k) for w, k in v if w == "m")
            if cls[0] == "six":
                h = self.elem(cls[1], env)
                if h is None or h[0] != "h" or kind != "full":
                    raise Odd(f"qubits around {T.show(cls[1])[:100]}")
                if not data_done[0] or depth != 1:
                    raise Undet("data qubit looked up before the data is measured")
                return frozenset([("six", 0)])
            if cls[0] == "oq":
                if not data_done[0] or depth != 1 or kind != "full":
                    raise Undet("data qubit looked up before the data is measured")
                return frozenset([("oq", cls[1])])
            if cls[0] == "oe":
                v = entry(kind, ("e", cls[1]), depth)
                return None if v is None else frozenset(("obs", k) for w, k in v)
            if cls[0] in ("e", "h"):
                if not own:
                    raise Odd("all elements of a class in one value")
                return entry(kind, cls, depth)
            raise Odd(f"tracker key over {cls}")

        def value(t, env):
            v = frozenset()
            for x in self.keys(t, env):
                if x[0] == "each":
                    y = x[3]
                    if y[0] != "one" or not y[2]:
                        raise Odd("nested lists of tracker keys")
                    w = one(y[1], y[2], False)
                else:
                    w = one(x[1], x[2], True)
                v = None if v is None or w is None else v ^ w
            return v

        def targets(t, env):
            """Classes of keys written: every element of a class, once."""
            out = []
            for x in self.keys(t, env):
                if x[0] == "each":
                    y = x[3]
                    if y[0] != "one" or env:
                        raise Odd("nested lists of tracker keys")
                    k = self.key(y[1], y[2])
                else:
                    if len(env) != 1:
                        raise Odd(f"tracker key written outside a loop over its class: {T.show(x[1])[:100]}")
                    k = self.key(x[1], x[2])
                if k[2] != 1 or k[1][0] not in ("e", "h", "d"):
                    raise Odd(f"written tracker key {k}")
                out.append(k[:2])
            return out
        def in_order(t, env):
            """Measurements have to be recorded in the order of the layout's own list."""
            for src in [s for s, _ in env] + [x[1] for x in self.keys(t, env) if x[0] == "each"]:
                while src.op == "call" and src.args[0] in ("list", "tuple") or src.op == "lst" and len(src.args) == 1 and src.args[0].op == "spread":
                    src = src.args[1][0] if src.op == "call" else src.args[0].args[0]
                if not (src.op == "call" and src.args[0].startswith("spec_")):
                    raise Odd(f"measurements recorded in the order of {T.show(src)[:200]}")

        for kind, kw, loops, occ in events:
            if kind == "measure":
                in_order(kw["keys"], loops)
                for k in targets(kw["keys"], loops):
                    if k == ("full", ("d",)):
                        data_done[0] = True
                        measured.append(("data",))
                        continue
                    if k[1][0] != "e":
                        raise Odd(f"measurement of {k}")
                    n = len([m for m in measured if m[0] == "edge"])
                    measured.append(("edge", k[1][1]))
                    hist.setdefault(k, []).append(frozenset([("m", n)]))
            elif kind == "dummy":
                o = kw["obstacle"]
                if o not in (TRUE, FALSE):
                    raise Odd(f"undetermined obstacle {T.show(o)[:100]}")
                for k in targets(kw["keys"], loops):
                    hist.setdefault(k, []).append(None if o == TRUE else frozenset())
            elif kind == "group":
                v = value(kw["keys"], loops)
                if len(loops) != 1:
                    raise Odd("a group recorded outside a loop over its class")
                k = self.key(kw["group_key"], loops)
                if k[2] != 1 or k[1][0] not in ("e", "h"):
                    raise Odd(f"group key {k}")
                hist.setdefault(k[:2], []).append(v)
            else:
                if kw["after"] != NONE:
                    raise Odd("lookup relative to another measurement")
                v = value(kw["keys"], loops)
                n = len([m for m in measured if m[0] == "edge"])
                lookups.append((occ, n, len(measured), v, loops))
        return lookups, measured, hist

    # ------------------------------------------------------------ the flat operation stream

    def flatten(self, nodes, inside=False):
        out = []
        for x in nodes:
            if x[0] == "repeat":
                if inside:
                    raise Odd("nested repeat blocks")
                out.append(("repeat", x[1], self.flatten(x[2], True)))
            elif x[0] == "if":
                out += self.flatten(x[2] if self.holds(x[1]) else x[3], inside)
            else:
                out.append(x)
        return out

    def holds(self, cond):
        if cond in (TRUE, FALSE):
            return cond == TRUE
        if cond.op == "not":
            return not self.holds(cond.args[0])
        if cond.op == "and":
            return all(self.holds(x) for x in cond.args)
        if cond.op == "or":
            return any(self.holds(x) for x in cond.args)
        t = cond.args[0] if cond.op in ("isnone", "truth") else None
        if t is not None and t.op == "occ":
            l = self.byserial.get(intval(t.args[-1]))
            if l is not None:
                return l[3] is None if cond.op == "isnone" else bool(l[3])
        raise Odd(f"operations that depend on {T.show(cond)[:200]}")

    def used(self, t):
        """Serial numbers of the lookups whose result a target list consists of, with their occurrence terms."""
        out = []
        for s in t.args if t.op == "lst" else (T.spread(t),):
            x = s.args[0]
            if s.op != "spread" or x.op != "occ" or x.args[0] != "spec_trk_lookup":
                raise Odd(f"record targets that do not come from the measurement tracker: {T.show(s)[:200]}")
            out.append((intval(x.args[-1]), x))
        return out

    def records(self, op):
        """Measurements an operation makes, in order."""
        name = op[1]
        if name in MEASURES or name in ("MR", "MRZ", "MRX", "MRY"):
            return [("data",) if g == "data" else ("edge", g[1]) if isinstance(g, tuple) and g[0] == "anc" else ("other", g) for g in self.groups(op[2])]
        if name == "MPP":
            return [("edge", k) for _, _, k in self.mpp(op[2])]
        return []

    # ------------------------------------------------------------ operations

    def group(self, t):
        """The role of one target list."""
        r = self.cands.get(t.key)
        if r is None:
            for k, (term, role) in self.cands.items():
                if isinstance(k, str) and k.startswith("~"):
                    continue
                if same(term, t):
                    r = (term, role)
                    break
            else:
                raise Odd(f"unrecognised targets {T.show(t)[:300]}")
            self.cands[t.key] = r
        return r[1]

    def groups(self, t):
        if t.op != "lst":
            t = T.lst([T.spread(t)])
        return [self.group(T.lst([s])) for s in t.args]

    def mpp(self, t):
        """[(left basis, right basis, colour)]"""
        out = []
        for s in t.args:
            if s.op != "rep":
                raise Odd(f"unrecognised targets {T.show(s)[:300]}")
            src = self.source(s.args[0])
            k = self.cls(src)
            xs = [x.args[0] if x.op == "item" else None for x in s.args[2].args]
            if k[0] != "e" or len(xs) != 3 or None in xs or not (xs[1].op == "call" and xs[1].args[0] == "stim.target_combiner"):
                raise Odd(f"unrecognised parity measurement {T.show(s)[:300]}")
            ends = {}
            for x in (xs[0], xs[2]):
                if not (x.op == "call" and x.args[0] in ("stim.target_x", "stim.target_y", "stim.target_z") and len(x.args[1]) == 1 and not x.args[2]):
                    raise Odd(f"unrecognised parity measurement {T.show(s)[:300]}")
                q = x.args[1][0]
                a = q.args[1] if q.op == "idx" and q.args[0] == mk("call", "spec_q2i", (), ()) else None
                if a is None or a.op != "attr" or a.args[1] not in ("left", "right") or a.args[0] != T.idx(src, s.args[1]):
                    raise Odd(f"unrecognised parity measurement {T.show(s)[:300]}")
                ends[a.args[1]] = x.args[0][-1].upper()
            if set(ends) != {"left", "right"}:
                raise Odd(f"parity measurement of one end twice {T.show(s)[:300]}")
            out.append((ends["left"], ends["right"], k[1]))
        return out

    # ------------------------------------------------------------ C17

    def order(self):
        R1 = "exactly the requested number of edge-measurement sub-rounds, cycling through X, Y and Z"
        R2 = "the tracker is told of the measurements in exactly the order in which the circuit makes them"
        R3 = "every annotation is placed where the tracker's measurement count is the circuit's"
        R4 = "a repeated body is a whole number of cycles starting on the right colour"
        R5 = "a repeated body is recorded only once all comparisons have settled"
        total = num(0)
        pos = 0
        seq = []
        bodies = []
        bad = []

        def walk(ops, rep):
            nonlocal pos, total
            for x in ops:
                if x[0] == "repeat":
                    a, t0 = len(seq), total
                    bodies.append([a, None, x[1]])
                    walk(x[2], x[1])
                    bodies[-1][1] = len(seq)
                    total = T.add(t0, T.mul(x[1], num(len(seq) - a)))
                    continue
                if x[4] and x[1] not in NOTES:
                    raise Odd(f"{x[1]} once per element of a list")
                for m in self.records(x):
                    seq.append(m)
                    if m[0] == "edge":
                        if rep is None:
                            total = T.add(total, num(1))
                if x[1] in ("DETECTOR", "OBSERVABLE_INCLUDE"):
                    for ser, occ in self.used(x[2]):
                        l = self.byserial[ser]
                        if l[2] != len(seq):
                            bad.append(f"{x[1]} for {what(l)} is looked up after {l[2]} measurement layers but placed after {len(seq)}")
                        want = l[0]
                        if len(l[4]) != len(x[4]):
                            raise Odd(f"{x[1]} does not follow its lookup's loop")
                        for (s1, v1), (s2, v2) in zip(l[4], x[4]):
                            if self.cls(s1) != self.cls(s2):
                                bad.append(f"{x[1]} for {what(l)} is emitted over {self.cls(s2)}")
                            want = T.subst(want, {v1.key: v2})
                        if want.key != occ.key:
                            bad.append(f"{x[1]} for {what(l)} uses another element's records")
        walk(self.flat, None)
        edges = [m[1] for m in seq if m[0] == "edge"]
        other = [m for m in seq if m[0] == "other"]
        self.ok("C17", R1, not other, f"measurement of {other[:2]}")
        d = T.sub(total, self.n)
        self.ok("C17", R1, numval(d) == 0, f"performs {T.show(total)} sub-rounds instead of {T.show(self.n)}")
        for j, k in enumerate(edges):
            if k != j % 3:
                self.fail("C17", R1, f"measured layer {j} has colour {P[k]} instead of {P[j % 3]}")
                break
        else:
            self.ok("C17", R1, True)
        self.ok("C17", R1, [m for m in seq if m[0] == "data"] == [("data",)] and seq[-1:] == [("data",)],
                "the data is not measured exactly once, after all sub-rounds")
        self.ok("C17", R2, seq == self.measured, f"circuit measures {seq[:40]}, tracker was told {self.measured[:40]}")
        self.ok("C17", R3, not bad, "; ".join(bad[:4]))
        for a, b, n in bodies:
            self.ok("C17", R4, (b - a) % 3 == 0 and b > a, f"the body performs {b - a} sub-rounds")
        if bodies and seq == self.measured:
            bad = None
            base = {l[0].args[-1]: relative(l) for l in self.lookups}
            for k in (2, 3, 4):
                for l in self.simulate(self.expanded(bodies, k))[0]:
                    if relative(l) != base[l[0].args[-1]]:
                        bad = bad or f"lookup of {what(l)} refers to {show(base[l[0].args[-1]])} when recorded, to {show(relative(l))} once the body has run {k} times"
            snaps = []
            for k in (2, 3):
                _, m, hist = self.simulate(self.expanded(bodies, k, False))
                n = len(m)
                snaps.append({q: [None if v is None else frozenset((w, n - j if w != "data" else j) for w, j in v) for v in h[-2:]] for q, h in hist.items()})
            if snaps[0] != snaps[1]:
                q = [q for q in snaps[0] if snaps[0][q] != snaps[1][q]][0]
                bad = bad or f"the records of {q} still change from one repetition to the next"
            self.ok("C17", R5, bad is None, bad)
        return bodies

    def expanded(self, bodies, k, suffix=True):
        """The tracker's calls had the first repeated body been recorded k times."""
        a, b, _ = bodies[0]
        chunks = [[0, []]]          # [index of the first measurement, calls]
        m = 0
        for e in self.events:
            if e[0] == "measure":
                chunks.append([m, []])
                m += 1 if e[2] else len(self.keys(e[1]["keys"], e[2]))
            chunks[-1][1].append(e)
        if a not in [s for s, _ in chunks[1:]] or b < m and b not in [s for s, _ in chunks[1:]]:
            raise Odd("a tracker call covers measurements inside and outside a repeated body")
        pre = [e for j, (s, evs) in enumerate(chunks) if j == 0 or s < a for e in evs]
        body = [e for j, (s, evs) in enumerate(chunks) if j and a <= s < b for e in evs]
        post = [e for j, (s, evs) in enumerate(chunks) if j and s >= b for e in evs]
        return pre + body * k + (post if suffix else [])

    # ------------------------------------------------------------ C18

    def schedule(self):
        """Symbolic run of the operations on the two data classes and three ancilla classes."""
        R1 = "no qubit takes part in two operations of one time step"
        R2 = "ancillae are reset before use, or carry exactly their previous outcome"
        R3 = "every measurement is the parity of both ends of its edge, once each, in the Pauli basis of its sub-round"
        R4 = "rotations are undone before the data is read out in the observable's basis"
        R5 = "the data starts in the observable's basis"
        R6 = "a repeated body leaves the schedule as it found it"
        bases = BASES[self.obs]
        direct = self.style in DIRECT
        st = {"prep": {1: None, 2: None}, "frame": {1: None, 2: None}, "anc": {k: None for k in range(3)}, "busy": {}}
        self.carry = []
        seen = {R1: None, R2: None, R3: None, R4: None, R5: None, R6: None}
        k = [0]

        def bad(r, text):
            seen[r] = seen[r] or text

        def busy(x, name):
            if x in st["busy"]:
                bad(R1, f"{name} and {st['busy'][x]} both act on {pretty(x)} around sub-round {k[0]}")
            st["busy"][x] = name

        def roles(g):
            """Qubit classes of a one-qubit target role."""
            if g == "data":
                return ["D1", "D2"]
            if g == "d1":
                return ["D1"]
            if g == "d2":
                return ["D2"]
            if g == "used":
                return ["D1", "D2"] + ([] if direct else ["A0", "A1", "A2"])
            if g == "anc":
                return ["A0", "A1", "A2"]
            if g[0] == "anc":
                return [f"A{g[1]}"]
            raise Odd(f"one-qubit operation on {g}")

        def start(d):
            if st["frame"][d] is None and st["prep"][d] == bases[0]:
                st["frame"][d] = P

        def clifford(x, img):
            if x[0] == "D":
                d = int(x[1])
                if st["frame"][d] is not None:
                    st["frame"][d] = "".join(st["frame"][d][img.index(p)] for p in P)
                elif st["prep"][d] is not None:
                    st["prep"][d] = img[P.index(st["prep"][d])]
                    start(d)
            else:
                a = st["anc"][int(x[1])]
                if a is not None:
                    a["basis"] = img[P.index(a["basis"])]

        def logical(d, basis):
            if st["frame"][d] is None:
                bad(R5, f"data qubits of class {d} are used at sub-round {k[0]} in state {st['prep'][d]} instead of {bases[0]}")
                st["frame"][d] = P
            return st["frame"][d][P.index(basis)]

        def interact(g, pair, name):
            side, col = g
            a, b = pair
            if side.startswith("r") and side != "right":
                side, a, b = side[1:], b, a
            d = 1 if side == "left" else 2
            busy(f"D{d}", name)
            busy(f"A{col}", name)
            anc = st["anc"][col]
            if anc is None:
                bad(R2, f"ancillae of colour {P[col]} are used at sub-round {k[0]} without ever being reset")
                return
            if anc["basis"] == b:
                bad(R3, f"{name} does not transfer the data's parity: ancillae of colour {P[col]} hold their value in {b}")
                return
            anc[side].append(logical(d, a))

        def measure(col, basis):
            anc = st["anc"][col]
            want = P[k[0] % 3]
            if anc is None:
                bad(R2, f"ancillae of colour {P[col]} are measured at sub-round {k[0]} without ever being reset")
            else:
                if anc["basis"] != basis:
                    bad(R3, f"ancillae of colour {P[col]} hold their value in {anc['basis']} when measured in {basis} at sub-round {k[0]}")
                if anc["left"] != [want] or anc["right"] != [want]:
                    bad(R3, f"sub-round {k[0]} measures {anc['left']} of left and {anc['right']} of right ends instead of {want} once each")
                self.carry.append(anc["prev"])
            st["anc"][col] = {"basis": basis, "left": [], "right": [], "prev": True}
            k[0] += 1

        def run(ops):
            for x in ops:
                if x[0] == "repeat":
                    n = intval(x[1])
                    snaps = []
                    for it in range(min(n, 4) if n is not None else 4):
                        run(x[2])
                        snaps.append((repr(sorted(st["frame"].items())), repr(st["anc"]), sorted(st["busy"].items())))
                    if len(snaps) > 1 and snaps[0] != snaps[1]:
                        bad(R6, f"state after one repetition {snaps[0]}, after two {snaps[1]}")
                    continue
                _, name, tg, args, loops = x
                if name in NOTES:
                    continue
                if name == "TICK":
                    st["busy"] = {}
                    continue
                if loops:
                    raise Odd(f"{name} once per element of a list")
                if name == "MPP":
                    for l, r, col in self.mpp(tg):
                        busy("D1", name)
                        busy("D2", name)
                        want = P[k[0] % 3]
                        got = logical(1, l), logical(2, r)
                        if got != (want, want):
                            bad(R3, f"sub-round {k[0]} measures {got} instead of {want} on both ends")
                        self.carry.append(False)
                        k[0] += 1
                    continue
                for g in self.groups(tg):
                    if name in PAIRS:
                        if not isinstance(g, tuple) or g[0] == "anc":
                            raise Odd(f"{name} on {g}")
                        interact(g, PAIRS[name], name)
                    elif name in RESETS:
                        for r in roles(g):
                            busy(r, name)
                            if r[0] == "D":
                                if st["frame"][int(r[1])] is not None or st["prep"][int(r[1])] is not None:
                                    bad(R5, f"data is reset again around sub-round {k[0]}")
                                st["prep"][int(r[1])] = RESETS[name]
                                start(int(r[1]))
                            else:
                                a = st["anc"][int(r[1])]
                                if a is not None and (a["left"] or a["right"]):
                                    bad(R3, f"ancillae {r} are reset around sub-round {k[0]} with a parity half collected")
                                st["anc"][int(r[1])] = {"basis": RESETS[name], "left": [], "right": [], "prev": False}
                    elif name in MEASURES:
                        if g in ("data", "d1", "d2"):
                            for r in roles(g):
                                busy(r, name)
                                want = bases[self.nv % 6]
                                got = logical(int(r[1]), MEASURES[name])
                                if got != want:
                                    bad(R4, f"the final readout of data class {r[1]} is of {got} instead of {want}")
                        elif isinstance(g, tuple) and g[0] == "anc":
                            busy(f"A{g[1]}", name)
                            measure(g[1], MEASURES[name])
                        else:
                            raise Odd(f"{name} on {g}")
                    elif name in CLIFFORD:
                        for r in roles(g):
                            busy(r, name)
                            clifford(r, CLIFFORD[name])
                    else:
                        raise Odd(f"unrecognised operation {name}")
        run(self.flat)
        for r, text in seen.items():
            self.ok("C18", r, text is None, text)
        late = self.carry[3:]
        self.ok("C18", R2, not any(self.carry[:3]) and len(set(late)) <= 1, f"only some measurements carry the previous outcome: {self.carry[:12]}")
        unreset = bool(late) and late[0]
        if late:
            self.ok("C18", R2, unreset == (self.style == "PC3"), f"style {self.style} {'never resets' if unreset else 'resets'} its ancillae between sub-rounds")
        return unreset

    # ------------------------------------------------------------ C19

    def annotations(self, unreset):
        R1 = "every hexagon completed by a sub-round gets exactly its detector, as soon as it can be compared"
        R2 = "the final readout is compared with the last edge values or half-finished hexagons and with all hexagons of its basis"
        R3 = "detectors carry the coordinates of their hexagon or edge and their sub-round"
        R4 = "the observable is the product of every edge measurement on its path and its final data qubits"
        R5 = "observable contributions are filed under the chosen observable's index"
        R6 = "the first sub-round's edges get detectors exactly when the data starts in the X basis"
        seen = {r: None for r in (R1, R2, R3, R4, R5, R6)}

        def bad(r, text):
            seen[r] = seen[r] or text
        index = mk("call", "spec_obs_index", (const(self.obs),), ())
        counts = set()
        for x in self.flat:
            if x[0] == "repeat":
                v = intval(x[1])
                counts |= {v} if v is not None else {2, 3, 4}
        for cnt in sorted(counts) or [1]:
            ref = Reference(self.obs, unreset)
            k = shifts = 0
            data = False
            found = {}
            contributions = {}

            def run(ops, depth):
                nonlocal k, shifts, data
                for x in ops:
                    if x[0] == "repeat":
                        v = intval(x[1])
                        for it in range(v if v is not None else cnt):
                            run(x[2], depth + 1)
                        continue
                    _, name, tg, args, loops = x
                    for m in self.records(x):
                        if m == ("data",):
                            data = True
                        else:
                            k += 1
                    if name == "SHIFT_COORDS":
                        v = [intval(s.args[0]) if s.op == "item" else None for s in args.args]
                        if v != [0, 0, 1]:
                            bad(R3, f"coordinates are shifted by {v}")
                        shifts += 1
                    elif name in ("DETECTOR", "OBSERVABLE_INCLUDE"):
                        val = frozenset()
                        for ser, _ in self.used(tg):
                            r = relative(self.byserial[ser])
                            val = None if r is None or val is None else val ^ r
                        if name == "OBSERVABLE_INCLUDE":
                            ix = args.args[0].args[0] if len(args.args) == 1 and args.args[0].op in ("spread", "item") else None
                            if ix is None or ix.key != index.key:
                                bad(R5, f"contribution after sub-round {k - 1} is filed under {T.show(args)[:100]}")
                            if val is None:
                                bad(R4, f"the contribution after sub-round {k - 1} has no value")
                                continue
                            for w, j in val:
                                a = (w, k - j) if w in ("m", "first", "second", "obs") else (w, j)
                                contributions[a] = contributions.get(a, 0) ^ 1
                            continue
                        if val is None:
                            continue
                        if len(loops) != 1:
                            raise Odd("a detector outside a loop over hexagons or edges")
                        cl = self.cls(loops[0][0])
                        if not coordinates(args, cl, loops[0]):
                            bad(R3, f"detector of {pretty(cl)} after sub-round {k - 1} has coordinates {T.show(args)[:200]}")
                        if shifts != (k if data else k - 1):
                            bad(R3, f"detector of {pretty(cl)} of sub-round {k if data else k - 1} is emitted after {shifts} time shifts")
                        found.setdefault("data" if data else k - 1, []).append((cl, val))
            run(self.flat, 0)
            n = k
            for j in range(n):
                want = ref.sub_round(j)
                got = found.pop(j, [])
                for rule, sel in ((R6, lambda d: d[0][0] == "e"), (R1, lambda d: d[0][0] != "e")):
                    w, g = sorted(map(repr_det, filter(sel, want))), sorted(map(repr_det, filter(sel, got)))
                    if w != g:
                        bad(rule, f"sub-round {j} of {n}: detectors {g} instead of {w}")
            want, got = sorted(map(repr_det, ref.final(n, self.nv % 6))), sorted(map(repr_det, found.pop("data", [])))
            if want != got:
                bad(R2, f"after {n} sub-rounds: detectors {got} instead of {want}")
            if found:
                bad(R1, f"detectors at {sorted(map(str, found))}")
            have = {a for a, v in contributions.items() if v}
            need = {("oq", self.nv % 6)}
            for j in range(n):
                for (w, q) in ref.edge(j):
                    need ^= {("obs", j - q)}
            if have != need:
                bad(R4, f"after {n} sub-rounds: the observable misses {sorted(need - have)[:6]} and has extra {sorted(have - need)[:6]}")
        for r, text in seen.items():
            self.ok("C19", r, text is None, text)


class Reference:
    """Which comparisons exist, from the stabilizers the code measures (sub-rounds counted from 0).

    A hexagon of colour c is the product of its sides, three of colour c+1 and three of colour c+2; it is of Pauli type c.
    Values are sets of (kind, distance back from the number of sub-rounds made so far).
    """

    def __init__(self, obs, unreset):
        self.bases = BASES[obs]
        self.b = P.index(self.bases[0])
        self.unreset = unreset

    def edge(self, k):
        """Records making up the parity of an edge measured at k, as ('m', k - record)."""
        return {("m", 0)} | ({("m", 3)} if self.unreset and k >= 3 else set())

    def sides(self, kind, k):
        return frozenset((kind, k - q) for _, q in self.edge(k))

    def hexagon(self, k):
        """Records of the hexagons completed at k (absolute), or None while only half is known."""
        c = (k - 2) % 3
        if k >= 1:
            return self.sides("first", k - 1) ^ self.sides("second", k)
        return self.sides("second", k) if (c + 1) % 3 == self.b else None

    def before(self, c, k):
        """Latest value of hexagons of colour c known before sub-round k."""
        for j in range(k - 1, -1, -1):
            if (j - 2) % 3 == c and self.hexagon(j) is not None:
                return self.hexagon(j)
        return frozenset() if c == self.b else None

    @staticmethod
    def back(v, made):
        return frozenset((w, made - j) if w in ("first", "second", "m") else (w, j) for w, j in v)

    def sub_round(self, k):
        out = []
        c = (k - 2) % 3
        cur, prev = self.hexagon(k), self.before(c, k)
        if cur is not None and prev is not None:
            out.append((("h", c), self.back(cur ^ prev, k + 1)))
        if k == 0 and self.b == 0:
            out.append((("e", 0), frozenset([("m", 1)])))
        return out

    def final(self, n, case):
        out = []
        f, last = P.index(self.bases[case]), (n - 1) % 3
        if f == last:
            v = frozenset([("data", "left"), ("data", "right")]) | frozenset(("m", n - 1 - q) for _, q in self.edge(n - 1))
            out.append((("e", f), self.back(v, n)))
        else:
            c = 3 - f - last
            prev = self.before(c, n)
            if prev is not None:
                out.append((("h", c), self.back(frozenset([("six", 0)]) | self.sides("first", n - 1) ^ prev, n)))
        prev = self.before(f, n)
        if prev is not None:
            out.append((("h", f), self.back(frozenset([("six", 0)]) ^ prev, n)))
        return out


def repr_det(d):
    cl, val = d
    return f"{pretty(cl)}: " + " ".join(f"{w}@{j}" for w, j in sorted(val, key=repr))


def pretty(cl):
    if isinstance(cl, str):
        return {"D": "data class ", "A": "ancillae of colour "}[cl[0]] + (cl[1] if cl[0] == "D" else P[int(cl[1])])
    return {"e": "edges ", "h": "hexagons "}.get(cl[0], cl[0]) + (P[cl[1]] if len(cl) > 1 and isinstance(cl[1], int) else "")


def coordinates(args, cl, loop):
    src, v = loop
    if not all(s.op == "item" for s in args.args) or len(args.args) != 3:
        return False
    a, b, z = (s.args[0] for s in args.args)
    el = T.idx(src, v)
    if a.op != "attr" or b.op != "attr" or a.args[1] != "real" or b.args[1] != "imag" or intval(z) != 0:
        return False
    for x in (a.args[0], b.args[0]):
        if cl[0] == "h":
            if x != el:
                return False
        elif cl[0] == "e":
            if x.op != "attr" or x.args[1] != "center" or x.args[0] != el:
                return False
        else:
            return False
    return True


def show(v):
    return "nothing" if v is None else " ".join(f"{w}@{j}" for w, j in sorted(v, key=repr))


def relative(l):
    """A lookup's value with sub-rounds counted back from the lookup."""
    if l[3] is None:
        return None
    return frozenset((w, l[1] - k) if w in ("m", "first", "second", "obs") else (w, k) for w, k in l[3])


def what(l):
    return f"{T.show(l[0].args[1])[:120]} at sub-round {l[1] - 1}"


def appended(t, ph):
    """What is appended to the list `ph` when `t` is that list with something appended."""
    if t == ph:
        return T.lst([])
    if t.op == "lst" and t.args and t.args[0] == T.spread(ph):
        return mk("lst", *t.args[1:])
    if t.op == "ite":
        a, b = appended(t.args[1], ph), appended(t.args[2], ph)
        if a is not None and b is not None:
            return mk("lst", *T.cseg(t.args[0], a, b))
    return None


def filled(t):
    """(count, index, initial list, what an iteration appends) of a list a loop appends to conditionally."""
    if t.op != "lout" or t.args[5] != FALSE or t.args[6] not in t.args[2]:
        return None
    n, i, phis, inits, nexts = t.args[:5]
    j = phis.index(t.args[6])
    body = appended(nexts[j], phis[j])
    if body is None or inits[j].op != "lst" or any(T.mentions(body, p) for p in phis):
        return None
    return n, i, inits[j], body


_cls = {}
_cand = {}
_obs = {}
_canon = Canon()
QMIN = 4
Q = T.sym("q", "int")


def same(a, b):
    a, b = _canon(a), _canon(b)
    if a.key == b.key:
        return True
    try:
        m, _ = equal(a, b, None, 2000)
    except Exception:
        return False
    return m is None


def spec(chk, fn, **kw):
    return chk.summary("spec_circuit", fn, args={k: (num(v) if isinstance(v, int) else const(v)) for k, v in kw.items()}, opaque=OPAQUE, effectful=EFFECTFUL).ret


def candidates(c, style):
    if style not in _cand:
        out = {}

        def put(t, role):
            out[t.key] = (t, role)
        put(spec(c, "cand_used", style=style), "used")
        put(spec(c, "cand_data"), "data")
        put(spec(c, "cand_1st"), "d1")
        put(spec(c, "cand_2nd"), "d2")
        put(spec(c, "cand_ancillas"), "anc")
        for k in range(3):
            put(spec(c, "cand_ancilla", c=k), ("anc", k))
            put(spec(c, "cand_left", c=k), ("left", k))
            put(spec(c, "cand_right", c=k), ("right", k))
            put(spec(c, "cand_rleft", c=k), ("rleft", k))
            put(spec(c, "cand_rright", c=k), ("rright", k))
        _cand[style] = out
    return _cand[style]


def obs_sets(c, obs, col):
    if (obs, col) not in _obs:
        _obs[(obs, col)] = [spec(c, "cand_obs_edges" + x, obs=obs, c=col) for x in ("", "_2", "_3", "_4", "_5")]
    return _obs[(obs, col)]


# ---------------------------------------------------------------- configurations

def configurations(tier):
    top = QMIN * 6
    out = []
    for style in STYLES:
        for obs in "VH":
            for n in range(1, top if tier != "thorough" else 2 * top):
                out.append((style, obs, n, None))
            for r in range(6):
                out.append((style, obs, None, r))
    return out


def one(c, style, obs, n, r):
    if n is not None:
        run = Run(c, style, obs, num(n))
    else:
        run = Run(c, style, obs, T.add(T.mul(num(6), Q), num(r)), 6 * QMIN + r)
    R0 = "the generator builds a circuit for every supported number of sub-rounds"
    unsupported = style == "SI1000" and run.nv % 3
    if run.raises:
        for p in ("C17", "C18", "C19"):
            run.ok(p, R0, unsupported, "the generator fails")
        return run
    if run.ops is None:
        return run
    for step, p in ((run.order, "C17"), (lambda: run.annotations(run.schedule()), "C19")):
        try:
            step()
        except (Odd, Undet) as e:
            for q in ("C17", "C18", "C19") if p == "C17" else ("C18", "C19"):
                run.fail(q, "the generated circuit is built from recognised operations", str(e))
    return run


_c = None


def job(cfg):
    r = one(_c, *cfg)
    return r.out, sorted(_c.functions)


def check(c, prop):
    global _c
    _c = prepare(c)
    cfgs = configurations(c.tier)
    site = c.where("honeycomb_circuit", "generate_honeycomb_circuit")
    import multiprocessing
    with ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork")) as ex:
        for cfg, (out, fns) in zip(cfgs, ex.map(job, cfgs, chunksize=2)):
            c.functions |= set(fns)
            c.count("configurations analysed")
            for p, rule, ok, detail in out:
                if p == prop:
                    c.ob(rule, site + " style " + cfg[0], ok, detail)
