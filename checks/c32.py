from hca import terms as T
from hca import events as E
from hca.equiv import equal, split_raise
from hca.linear import Facts
from hca.terms import mk
from .figures import drawn, calls, call_of, method_calls, runs_main

TECHNIQUE = "abstract evaluation of the figure scripts over arbitrary recorded data, their drawing calls compared panel by panel with the defining ones"
LF, TF, DF = "paper.main_render_lambda_figure", "paper.main_render_threshold_figure", "paper.main_render_detection_fraction_figure"
G = "LambdaGroup."
OPAQUE = {G + n for n in ("groups_from_data", "projected_lambda_range", "linear_fit_d_to_log_err", "appears_to_be_suppressing_errors", "has_low_confidence_extrapolation",
                          "projected_required_qubit_count", "projected_qubit_count_range", "combo_data", "projected_distance")} | {"ProblemShotData.grouped_by"}


def grid(t):
    """The array of axes is known by its numbers of rows and columns."""
    def f(x):
        if x.op == "mcall" and x.args[0] == "subplots":
            r = x.args[1]
            kw = dict(r.args[3]) if r.op == "mcall" and r.args[0] == "add_gridspec" else dict(x.args[3])
            pos = r.args[2] if r.op == "mcall" and r.args[0] == "add_gridspec" else x.args[2]
            rows = kw.get("nrows", pos[0] if pos else T.num(1))
            cols = kw.get("ncols", pos[1] if len(pos) > 1 else T.num(1))
            return mk("call", "$axes", (T.transform(rows, f), T.transform(cols, f)), ())
        return None
    return T.transform(t, f)


def panel(e):
    """plot_data calls: data, title, axes and options."""
    if E.ev_kind(e) != "OP" or e.args[1].op != "occ" or e.args[1].args[0] != "plot_data":
        return None
    return mk("ev", "CALL", mk("call", "plot_data", (e.args[1].args[1],), ()))


def marks(c, site, wa, wb):
    """The points marked in each panel, whether or not drawing no points at all is skipped."""
    rule = "low confidence projections are marked"

    def points(world):
        out = {}
        for name, recv, pos, kw, loops, guards in method_calls(world):
            if name == "scatter":
                d = drawn({"scatter"}, look=(), text=())(mk("ev", "CALL", mk("mcall", name, recv, pos, tuple(kw.items()))))
                out.setdefault(recv.key, []).append((recv, d.args[1].args[2], loops, guards))
        return out
    pa, pb = points(wa), points(wb)
    c.ob(rule, site, set(pa) == set(pb), f"points are marked in {[T.show(x[0][0]) for x in pa.values()]}, not {[T.show(x[0][0]) for x in pb.values()]}")
    for k in sorted(set(pa) & set(pb)):
        if not c.ob(rule, site, len(pa[k]) == 1 and not pa[k][0][2] and len(pa[k][0][1]) == 2, f"{T.show(pa[k][0][0])}: the marks are not drawn by one call"):
            continue
        recv, (xs, ys), _, guards = pa[k][0]
        for g in map(counted, guards):
            some = [counted(T.truth(xs)), counted(T.truth(ys))]
            ok = any(parts(t) <= parts(g) for t in some) or any(Facts().assume(t).simplify(g) == T.TRUE for t in some)
            c.ob(rule, site, ok, f"{T.show(recv)}: points are only marked when {T.show(g)[:400]}")
        for x, y in zip((xs, ys), pb[k][0][1]):
            m, pr = equal(x, y, Facts())
            c.count("cases compared", pr.cases)
            c.ob(rule, site, m is None, f"{T.show(recv)}: {m.describe()}" if m else "")


def counted(g):
    """A collection is true when it is not empty."""
    return T.transform(g, lambda x: T.ge0(T.sub(T.length(x.args[0]), T.num(1))) if x.op == "truth" and x.args[0].op in ("lout", "lst") else None)


def parts(g):
    return {x.key for x in (g.args if g.op == "or" else (g,))}


def texts(method):
    def check(c, site, wa, wb, rule, label):
        ta, tb = final_texts(c, site, wa, method, label), final_texts(c, site, wb, method, label)
        if ta is None:
            return
        # inner panels may leave out what the first panel of their row or column says
        for k, t in sorted(tb.items()):
            got = ta.get(k)
            if got in (None, ""):
                line = [ta.get(q) for q in tb if q != k and tb[q] == t and len(k) == 2 and (q[1] == k[1] and q[0] < k[0] if method == "set_title" else q[0] == k[0] and q[1] < k[1])]
                c.ob(rule, site, t in line, f"{label}: axes {k} and those it shares its text with say {got!r} instead of {t!r}")
            else:
                c.ob(rule, site, got == t, f"{label}: axes {k} say {got!r} instead of {t!r}")
        extra = {k: t for k, t in ta.items() if t and k not in tb}
        c.ob(rule, site, not extra, f"{label}: unexpected {method} {extra}")
    return check


def final_texts(c, site, world, method, label):
    """The text each axes carry in the end, when that is determined: {(row, col): text}."""
    out = {}
    for name, recv, pos, loops, guards in text_calls(world, method):
        k = place(recv)
        t = T.strval(pos[0]) if pos else None
        if not c.ob(f"which axes {method} applies to, and with what text, is determined", site, k is not None and t is not None and not loops and not guards,
                    f"{label}: {T.show(recv)} {[T.show(p) for p in pos]} {len(loops)} loops {[T.show(g)[:200] for g in guards]}"):
            return None
        out[k] = t
    return out


def text_calls(world, method):
    """What sets the text, in order; plot_data titles its axes."""
    for loops, guards, kind, e in E.walk(E.tree(world)):
        if kind != "ev":
            continue
        x = call_of(e)
        if x is not None and x[0] == method:
            yield x[0], x[1], x[2], loops, guards
        elif method == "set_title" and panel(e) is not None:
            t = panel(e).args[1]
            title = given(t, "title")
            yield method, given(t, "ax"), () if title is None else (title,), loops, guards


def place(recv):
    k = []
    while recv.op == "idx":
        i = recv.args[1]
        k = [T.intval(x.args[0]) for x in i.args] + k if i.op == "lst" else [T.intval(i)] + k
        recv = recv.args[0]
    if recv.op != "call" or recv.args[0] != "$axes" or None in k:
        return None
    shape = [T.intval(a) for a in recv.args[1]]
    shape = [n for n in shape if n != 1]
    if None in shape or len(k) != len(shape):
        return None
    return tuple(x % n for x, n in zip(k, shape))


PLOT, SCATTER, BAND = drawn({"plot"}, look=(), text=("label",)), drawn({"scatter"}), drawn({"fill_between"}, look=(), text=())
FIGURES = (
    (TF, "plot_thresholds", "thresholds", "focused", ((panel, "each panel draws the group of its noise model, code, observable and decoder, titled with the noise model"),
                                                      (texts("set_title"), "each column is titled with its noise model"),
                                                      (texts("set_ylabel"), "each row is labelled with its code, observable and decoder"))),
    (DF, "plot_detection_fraction", "detection_fraction", None, ((drawn({"plot"}), "each panel draws, for each noise value of its style, every record's rate against its distance"),
                                                                 (texts("set_title"), "each panel is titled with its style"))),
    (LF, "plot_lambda_line_fits_combo", "line_fits", "focus", ((SCATTER, "each panel shows the distance data of every noise value of its group"),
                                                               (drawn({"plot"}, look=("color",), text=()), "the fitted line is drawn through projected distances, in its data's colour, when errors are suppressed"),
                                                               (texts("set_title"), "each column is titled with its noise model"), (texts("set_ylabel"), "each row is labelled with its code and decoder"))),
    (LF, "plot_lambda_combo", "lambdas", None, ((PLOT, "each case draws its projected lambda against noise where errors are suppressed"), (BAND, "each case shades its range of lambda"),
                                                (marks, None), (texts("set_title"), "each panel is titled with its noise model"))),
    (LF, "plot_teraquop_combo", "teraquops", None, ((PLOT, "each case draws its projected qubit count against noise where errors are suppressed"), (BAND, "each case shades its range of qubit counts"),
                                                    (marks, None), (texts("set_title"), "each panel is titled with its noise model"))),
)


def axes(e):
    """The axes a projected drawing call draws in."""
    t = e.args[1]
    return t.args[1] if t.op == "mcall" else panel_ax(t)


def panel_ax(t):
    return given(t, "ax") or T.NONE


def given(t, name):
    for a in t.args[1]:
        for pair in a.args if a.op == "lst" else ():
            v = pair.args[0]
            if v.op == "lst" and T.strval(v.args[0].args[0]) == name:
                return v.args[1].args[0]
    return None


def axes_of(world, f):
    return {axes(e).key: axes(e) for _, _, kind, e in E.walk(E.tree(E.project(world, f))) if kind == "ev"}


def only(f, key):
    def g(e):
        x = f(e)
        return x if x is not None and axes(x).key == key else None
    return g


def figure(c, mod, fn, spec, fixed, rules, label):
    site = c.where(mod, fn)
    eff = {"plot_data"} if spec == "thresholds" else set()
    a = c.summary(mod, fn, opaque=OPAQUE | eff, effectful=eff, args=fixed)
    b = c.summary("spec_figures", spec, opaque=OPAQUE | eff, effectful=eff, args=c.spec_args(mod, fn, "spec_figures", spec, fixed))
    ca, wa = split_raise(grid(a.world))
    cb, wb = split_raise(grid(b.world))
    for f, rule in rules:
        if f is marks:
            marks(c, site, wa, wb)
            continue
        if f.__name__ == "check":
            f(c, site, wa, wb, rule, label)
            continue
        # panels are independent of each other: compare them one by one
        pa, pb = axes_of(wa, f), axes_of(wb, f)
        c.ob(rule, site, set(pa) == set(pb), f"{label}: drawn in {sorted(map(T.show, pa.values()))}, not {sorted(map(T.show, pb.values()))}")
        for k in sorted(set(pa) & set(pb)):
            m, pr = equal(E.project(wa, only(f, k)), E.project(wb, only(f, k)), Facts())
            c.count("cases compared", pr.cases)
            c.ob(rule, site, m is None, f"{label}: {T.show(pa[k])}: {m.describe()}" if m else "")
    m, pr = equal(grid(a.ret), grid(b.ret), Facts())
    c.ob("the drawn figure is returned", site, m is None, f"{label}: {m.describe()}" if m else "")


def check(c):
    for mod, fn, spec, flag, rules in FIGURES:
        for v in (T.TRUE, T.FALSE) if flag else (None,):
            figure(c, mod, fn, spec, {flag: v} if flag else {}, rules, f"{flag}={T.show(v)}" if flag else "")
    for mod, spec, figs in ((TF, "threshold_main", {"plot_thresholds"}), (DF, "detection_main", {"plot_detection_fraction"}),
                            (LF, "lambda_main", {"plot_lambda_line_fits_combo", "plot_lambda_combo", "plot_teraquop_combo"})):
        site = c.where(mod, "main")
        a = c.summary(mod, "main", opaque=figs | {"read_recorded_data"})
        b = c.summary("spec_figures", spec, opaque=figs | {"read_recorded_data"})
        ca, wa = split_raise(a.world)
        cb, wb = split_raise(b.world)
        for x, y, rule in ((ca, cb, "running without files is rejected"), (E.project(wa, calls({"savefig"})), E.project(wb, calls({"savefig"})), "every figure is drawn from all the given data and saved under its own name"),
                           (E.project(wa, calls({"savefig", "show"}, args=False)), E.project(wb, calls({"savefig", "show"}, args=False)), "figures are shown after all are saved")):
            m, pr = equal(x, y, Facts() if x is ca else Facts().assume(T.not_(cb)))
            c.count("cases compared", pr.cases)
            c.ob(rule, site, m is None, m.describe() if m else "")
    for mod in (LF, TF, DF):
        runs_main(c, mod)
