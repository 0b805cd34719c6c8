from hca import terms as T
from hca import events as E
from hca.equiv import equal, strip_raise, split_raise
from hca.linear import Facts
from hca.terms import mk
from .figures import drawn, calls, method_calls, numbers, texts, spells

TECHNIQUE = "abstract evaluation of plot_data over symbolic data: series, labels, axes, saving and showing compared with the defining drawing calls, ticks and limits folded to constants"
OPAQUE = {"total_error_to_per_piece_error", "ShotData.likely_error_rate_bounds", "ProblemShotData.grouped_by"}


def always_true(c):
    """An instance of a class of this program without __bool__ or __len__ is true."""
    def plain(t):
        ci = c.p.find_class(t.args[1] if t.op == "sym" else T.sort(t))
        return ci is not None and not ({"__bool__", "__len__"} & set(ci.methods))

    def f(x):
        if x.op == "truth" and x.args[0].op == "sym" and plain(x.args[0]):
            return T.TRUE
        return None
    return lambda t: T.transform(t, f)


def check(c):
    site = c.where("plotting", "plot_data")
    a = c.summary("plotting", "plot_data", opaque=OPAQUE)
    b = c.summary("spec_plots", "plot_data", opaque=OPAQUE, args=c.spec_args("plotting", "plot_data", "spec_plots", "plot_data"))
    can = always_true(c)
    ca, wa = split_raise(can(a.world))
    cb, wb = split_raise(can(b.world))
    ok = Facts().assume(T.not_(cb))

    def same(rule, x, y, facts=ok):
        m, pr = equal(x, y, facts)
        c.count("cases compared", pr.cases)
        c.ob(rule, site, m is None, m.describe() if m else "")
    same("a figure without axes, or axes without a figure, is rejected", ca, cb, None)
    same("every group gets one curve over the noise values with errors, labelled and marked as the next series", E.project(wa, drawn({"plot"})), E.project(wb, drawn({"plot"})))
    same("every group gets one band over all its noise values, in its curve's colour", E.project(wa, drawn({"fill_between"}, look=("color",), text=())), E.project(wb, drawn({"fill_between"}, look=("color",), text=())))
    for what, names in (("the legend is drawn when asked for, after the curves", {"legend"}), ("the axes carry the given title", {"set_title"}),
                        ("the figure is saved to the given path", {"savefig"}), ("the figure is shown when asked for", {"show"})):
        same(what, E.project(wa, calls(names, args=names != {"legend"})), E.project(wb, calls(names, args=names != {"legend"})))
    same("the figure and axes drawn into are returned", can(a.ret), can(b.ret))
    order(c, site, wa)
    for focus in (True, False):
        for new in (True, False):
            fa = {"focus_on_threshold": T.TRUE if focus else T.FALSE}
            fa.update({"fig": T.NONE, "ax": T.NONE} if new else {"fig": T.sym("fig", "plt.Figure"), "ax": T.sym("ax", "plt.Axes")})
            s = c.summary("plotting", "plot_data", opaque=OPAQUE, args=fa)
            axes(c, site, s.world, f"focus_on_threshold={focus}, {'new figure' if new else 'given axes'}")


def order(c, site, w):
    """The curves come before the legend, and everything drawn before the figure is saved, and that before it is shown."""
    stage = {"plot": 0, "fill_between": 0, "legend": 1, "savefig": 2, "show": 3}
    at = 0
    bad = []
    for name, *_ in method_calls(w):
        s = stage.get(name, 1 if name.startswith("set_") or name in ("loglog", "semilogy", "semilogx", "grid", "scatter") else None)
        if s is None:
            continue
        if name.startswith("set_") or name in ("loglog", "grid", "scatter"):
            if at >= 2:
                bad.append(f"{name} after the figure was saved or shown")
            continue
        if s < at:
            bad.append(f"{name} too late")
        at = max(at, s)
    c.ob("curves are drawn before the legend, everything before saving, and saving before showing", site, not bad, "; ".join(bad))


def axes(c, site, w, label):
    got = {}
    for name, recv, pos, kw, loops, guards in method_calls(w):
        if name.startswith("set_") or name in ("loglog", "semilogx", "semilogy"):
            got.setdefault(name, []).append((pos, kw, loops, guards))
    scale = "".join(got_axis for n, got_axis in (("loglog", "xy"), ("semilogx", "x"), ("semilogy", "y")) if n in got)
    for x in "xy":
        for pos, kw, *_ in got.get(f"set_{x}scale", []):
            scale = scale.replace(x, "") + (x if pos and T.show(pos[0]) == "'log'" else "")
        c.ob(f"the {x} axis is logarithmic", site, x in scale, f"{label}: {sorted(got)}")
        lim = got.get(f"set_{x}lim", [])
        lohi = [T.numval(p) for p in (lim[0][0] if len(lim) == 1 else ())]
        okl = len(lohi) == 2 and None not in lohi and 0 < lohi[0] < lohi[1]
        c.ob(f"the {x} limits are positive and in order", site, okl, f"{label}: {[T.show(mk('call', 'lim', l[0], ())) for l in lim]}")
        ticks = got.get(f"set_{x}ticks", [])
        labels = got.get(f"set_{x}ticklabels", [])
        if not ticks and not labels:
            continue
        tv = numbers(ticks[0][0][0]) if len(ticks) == 1 and ticks[0][0] else None
        lt = ticks[0][1].get("labels") if ticks else None
        lv = texts(labels[0][0][0]) if len(labels) == 1 and labels[0][0] else texts(lt) if lt is not None else None
        c.ob(f"the {x} ticks and their labels are known", site, tv is not None and (lv is not None or not labels), f"{label}: {tv} {lv}")
        if tv is None or lv is None:
            continue
        c.ob(f"every {x} tick has its label", site, len(tv) == len(lv), f"{label}: {len(tv)} ticks, {len(lv)} labels")
        for v, s in zip(tv, lv):
            c.ob(f"an {x} tick is labelled with its own value", site, spells(s, v), f"{label}: {float(v)} is labelled {s!r}")
        c.ob(f"the {x} ticks lie within the limits", site, okl and all(lohi[0] <= v <= lohi[1] for v in tv) and len(set(tv)) == len(tv) and tv, f"{label}: {[float(v) for v in tv]}")
