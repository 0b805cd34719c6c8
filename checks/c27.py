from hca import terms as T
from hca import events as E
from hca.equiv import equal
from hca.terms import mk

TECHNIQUE = "abstract evaluation of the projection code over symbolic shot data and fits, compared case by case with the defining expressions"
MOD, CLS, SPEC = "paper.main_render_lambda_figure", "LambdaGroup", "spec_lambda"


def wordless(t):
    """What a warning says does not matter, that it is printed does."""
    def f(x):
        if x.op == "ev" and x.args[0] in ("STDOUT", "STDERR"):
            return mk("ev", "WARNING")
        if x.op == "ev" and x.args[0] == "RAISE":
            return mk("ev", "RAISE")
        return None
    return T.transform(t, f)


def powers(t):
    """exp(x)**e written as exp(e*x), and array conversions of plain sequences left out."""
    def f(x):
        if x.op == "call" and x.args[0] in ("numpy.array", "numpy.asarray") and len(x.args[1]) == 1 and not x.args[2]:
            return T.transform(x.args[1][0], f)
        if x.op == "poly":
            tot = T.num(0)
            hit = False
            for m, k in x.args[0]:
                e = T.num(0)
                rest = T.num(k)
                for a, n in m:
                    if a.op == "call" and a.args[0] in ("math.exp", "numpy.exp") and not a.args[2]:
                        e = T.add(e, T.mul(T.num(n), T.transform(a.args[1][0], f)))
                        hit = hit or n != 1 or len(m) > 1
                    else:
                        b = T.transform(a, f)
                        rest = T.mul(rest, T.powt(b, T.num(n)) if n > 0 else T.inv(T.powt(b, T.num(-n))))
                if T.numval(e) != 0:
                    rest = T.mul(rest, mk("call", "math.exp", (e,), ()))
                tot = T.add(tot, rest)
            return tot if hit else None
        if x.op == "call" and x.args[0] in ("math.exp", "numpy.exp") and T.numval(x.args[1][0]) == 0:
            return T.num(1)
        return None
    return T.transform(t, f)


def combo(c):
    c.agrees(MOD, CLS + ".combo_data", SPEC, "combo_data", opaque={"total_error_to_per_piece_error"}, post=wordless,
             rule="distance data combine the per-piece rates of both observables, extrapolating a missing one with a warning and skipping zero rates")


def check(c):
    combo(c)
    op = {CLS + ".combo_data", CLS + ".linear_fit_d_to_log_err", "least_squares_output_range", "least_squares_slope_range"}
    c.agrees(MOD, CLS + ".groups_from_data", SPEC, "groups_from_data", rule="each record is filed under its noise, observable and distance and never overwrites another")
    for name, spec in (("linear_fit_d_to_log_err", None), ("appears_to_be_suppressing_errors", None), ("has_low_confidence_extrapolation", None), ("projected_lambda_range", None),
                       ("projected_error", None), ("projected_distance", None), ("_d_to_q", "d_to_q"), ("projected_required_qubit_count", None), ("projected_qubit_count_range", None)):
        o = set(op)
        o.discard(CLS + "." + name)
        if name == "projected_qubit_count_range":
            o.add(CLS + ".projected_required_qubit_count")
        if name.startswith("projected"):
            o.add(CLS + "._d_to_q")
        c.agrees(MOD, CLS + "." + name, SPEC, spec or name, opaque=o, post=powers, rule=f"{name} follows the fitted line and the qubit scaling of its code")
