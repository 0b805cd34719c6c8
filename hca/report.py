"""Obligations, evidence and verdict lines of one property check."""
import json
import os
import sys
import time

from .engine import Program, Interp, AnalysisBroken
from . import terms as T
from .equiv import equal, strip_raise, split_raise, clip
from .linear import Facts


def spread_any(t):
    """Some element is bad in one way or another: some element is bad in one way, or some in another."""
    def f(x):
        if x.op == "any" and len(x.args) == 3 and x.args[2].op == "or":
            v, out = T.fresh_bv(), []
            for y in x.args[2].args:
                b, (c,) = T.close(v, (T.subst(y, {x.args[1].key: v}),))
                out.append(T.mk("any", x.args[0], b, c))
            return T.or_(*out)
        return None
    return T.transform(t, f)


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HC_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SPEC = os.path.join(VERIF, "spec")


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obs = []           # (rule, site, ok, detail)
        self.functions = set()
        self.counts = {}
        self.rules = []
        self.notes = []
        self.p = Program(SRC, spec=SPEC)

    # ------------------------------------------------------------ sites

    def where(self, mod, qual):
        try:
            n = self.p.find_func(mod, qual)
        except AnalysisBroken:
            return f"src/{mod}.py:{qual}"
        m = self.p.find_class(qual.split(".")[0]).module if "." in qual else self.p.module(mod)
        return f"{os.path.relpath(m.path, REPO)}:{n.lineno} {qual}"

    # ------------------------------------------------------------ obligations

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ob(self, rule, site, ok, detail=""):
        self.obs.append((rule, site, bool(ok), detail if not ok else ""))
        return bool(ok)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def interp(self, **kw):
        eff = kw.pop("effectful", ())
        serial = kw.pop("serial", False)
        rec, pw = kw.pop("rec_inline", None), kw.pop("pointwise", None)
        I = Interp(self.p, **kw)
        if rec:
            I.rec_inline = rec
        if pw is not None:
            I.pointwise = pw
            I.hooks.update(pw.hooks())
        I.effectful = set(eff)
        if serial:
            I.serial = 0
        return I

    def summary(self, mod, qual, args=None, self_term=None, **kw):
        I = self.interp(**kw)
        s = I.analyse(mod, qual, args=args, self_term=self_term)
        self.functions |= I.visited
        for n in I.notes:
            if n not in self.notes:
                self.notes.append(n)
        self.count("functions evaluated", len(I.visited))
        return s

    def spec_args(self, mod, qual, specmod, specfn, args=None):
        """The reference definition gets the very same symbols as the code, whatever its own annotations say."""
        from .engine import param_type
        out = {}
        n = self.p.find_func(mod, qual).args
        have = {p.arg for p in n.posonlyargs + n.args + n.kwonlyargs}
        s = self.p.find_func(specmod, specfn).args
        for p in n.posonlyargs + n.args + n.kwonlyargs:
            if p.arg != "self" and any(q.arg == p.arg for q in s.posonlyargs + s.args + s.kwonlyargs):
                out[p.arg] = T.sym(p.arg, param_type(p, n))
        out.update(args or {})
        return out or None

    def compare(self, a, b, facts=None, world=True, post=None, budget=20000, ret=True, raises=None, keep=None):
        """First difference between two summaries, or None: [(what, mismatch)]."""
        wa, wb = strip_raise(a.world), strip_raise(b.world)
        ra, rb = a.ret, b.ret
        if post:
            wa, wb, ra, rb = post(wa), post(wb), post(ra), post(rb)
        if keep is not None:
            wa, wb = keep(wa), keep(wb)
        out = []

        def cmp(what, x, y, f):
            m, pr = equal(x, y, f, budget)
            self.count("cases compared", max(1, pr.cases))
            out.append((what, m))
        if raises == "set":
            # the conditions under which the function raises must agree; everything else only where it does not raise
            ca, wa = split_raise(wa)
            cb, wb = split_raise(wb)
            cmp("rejected inputs", ca, cb, facts)
            if out[-1][1] is not None and (spread_any(ca), spread_any(cb)) != (ca, cb):
                m = out.pop()
                cmp("rejected inputs", spread_any(ca), spread_any(cb), facts)
                if out[-1][1] is not None:
                    out[-1] = m
            facts = (facts or Facts()).assume(T.not_(cb))
            if facts.bad:
                return out
        if ret:
            cmp("result", ra, rb, facts)
        if world:
            cmp("effects", wa, wb, facts)
        return out

    def agrees(self, mod, qual, specmod, specfn, args=None, rule=None, also=(), known=None, **kw):
        """The function's result (and effects) equal the reference definition's in every case.

        `also`: equivalent reference definitions, any of which will do.  `known`: (reference, tag) of a recorded defect.
        """
        opts = {k: kw.pop(k) for k in ("facts", "world", "post", "budget", "ret", "raises", "keep") if k in kw}
        site = kw.pop("site", None) or self.where(mod, qual)
        a = self.summary(mod, qual, args=args, **kw)
        rule = rule or f"{qual} computes the value required by its definition, for every input"
        first = None
        for fn in (specfn,) + tuple(also) + ((known[0],) if known else ()):
            b = self.summary(specmod, fn, args=self.spec_args(mod, qual, specmod, fn, args), **kw)
            res = self.compare(a, b, **opts)
            if all(m is None for _, m in res):
                if known and fn == known[0]:
                    what, m = [(w, m) for w, m in first if m is not None][0]
                    return self.ob(rule, site, False, known[1] + ": " + m.describe())
                for what, _ in res:
                    self.ob(f"{rule} ({what})", site, True)
                return True
            first = first or res
        ok = True
        for what, m in first:
            ok &= self.ob(f"{rule} ({what})", site, m is None, m.describe() if m is not None else "")
        return ok

    # ------------------------------------------------------------ verdict

    def finish(self, level, technique, known=()):
        """Evidence, KNOWN-FINDING / VIOLATION lines; returns the exit status."""
        bad = [o for o in self.obs if not o[2]]
        kn = load_known().get(self.pid, [])
        new, old = [], []
        for o in bad:
            for k in kn:
                if k["rule"] == o[0] and k["site"] in o[1] and all(x in o[3] for x in k.get("contains", [])):
                    old.append((o, k))
                    break
            else:
                new.append(o)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rep = os.path.join(VERIF, "evidence", f"{self.pid}.report.txt")
        with open(rep, "w") as f:
            f.write(f"{self.pid}: {len(self.obs)} obligations, {len(bad)} not discharged\n")
            for r, s, ok, d in self.obs:
                f.write(f"[{'ok' if ok else 'FAILS'}] {s} -- {r}\n")
                if not ok:
                    f.write(f"        {d}\n")
            for n in self.notes:
                f.write(f"note: {n}\n")
        ev = evidence(self, level, technique, bad, new, old)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        seen = set()
        for o, k in old:
            if k["what"] not in seen:
                seen.add(k["what"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        for r, s, ok, d in new[:20]:
            print(f"{s}: {r}\n    {clip(d, 1500)}")
        if new:
            print(f"VIOLATION property={self.pid} replay={rep}")
            return 1
        print(f"ok {self.pid}: {len(self.obs)} obligations over {len(self.functions)} functions, {time.time() - self.t0:.1f} s")
        return 0


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(path):
        for k in json.load(open(path)).get("known", []):
            out.setdefault(k["property"], []).append(k)
    return out


def evidence(c, level, technique, bad, new, old):
    cov = {
        "explanation": technique + ". Source parsed from the working tree on this run; nothing in it was executed.",
        "obligations": len(c.obs),
        "discharged": len(c.obs) - len(bad),
        "functions_analysed": sorted(c.functions),
        "rules": sorted({o[0] for o in c.obs}),
        "sites": sorted({o[1] for o in c.obs}),
        "samples": [{"rule": o[0], "site": o[1], "ok": o[2], "detail": clip(o[3], 600)} for o in (bad + c.obs)[:12]],
        "imprecision_notes": c.notes[:20],
    }
    for k, v in c.counts.items():
        cov[k.replace(" ", "_")] = v
    return {
        "property": c.pid,
        "tier": c.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": cov,
        "assumptions": ["library models in hca/models.py (builtins, csv, pathlib, numpy, stim, networkx) state what those calls do",
                        "exact arithmetic is used for numbers: rounding of floating point is not modelled",
                        "type annotations of parameters and dataclass fields are trusted"],
        "wall_s": round(time.time() - c.t0, 2),
        "violations": len(new),
        "known_findings": len(old),
    }
