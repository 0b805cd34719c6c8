from hca import terms as T
from hca import events as E
from hca.equiv import equal, strip_raise
from hca.terms import mk

TECHNIQUE = "abstract evaluation of the conversion over symbolic rates, and of the plotting code's series, compared with the folding law case by case"


def series(e):
    """plot(xs, ys) and fill_between(xs, lows, highs) calls, without their cosmetic arguments."""
    if E.ev_kind(e) in ("CALL", "OP"):
        t = e.args[1]
        if t.op == "mcall" and t.args[0] in ("plot", "fill_between"):
            return mk("ev", "CALL", mk("mcall", t.args[0], t.args[1], t.args[2], ()))
    return None


def check(c):
    c.agrees("plotting", "total_error_to_per_piece_error", "spec_prob", "total_error_to_per_piece_error",
             rec_inline={"*": 1},
             rule="the per-piece rate satisfies the folding law, mirrored above one half, and rates outside [0, 1] are rejected")
    op = {"total_error_to_per_piece_error", "ShotData.likely_error_rate_bounds", "ProblemShotData.grouped_by"}
    a = c.summary("plotting", "plot_data", opaque=op)
    b = c.summary("spec_prob", "plot_series", opaque=op, args=c.spec_args("plotting", "plot_data", "spec_prob", "plot_series"))
    m, pr = equal(E.project(a.world, series), E.project(b.world, series))
    c.count("cases compared", pr.cases)
    c.ob("plotted rates and interval ends are converted with rounds over code distance, rounded up", c.where("plotting", "plot_data"), m is None, m.describe() if m else "")
    from .c27 import combo
    combo(c)
