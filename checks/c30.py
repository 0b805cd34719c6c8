from hca import terms as T
from hca.terms import mk

TECHNIQUE = "abstract evaluation of the residual sum, of the constrained fits and of the searches over symbolic data, compared with the defining expressions (linregress and leastsq uninterpreted)"

FIT = "scipy.stats._stats_mstats_common.LinregressResult"


def line(t):
    """(slope, intercept) of a fit; its other fields are not meaningful for a constrained line."""
    def f(x):
        if x.op == "call" and str(x.args[0]).split(".")[-1] == "LinregressResult":
            pos, kw = list(x.args[1]), dict(x.args[2])
            slope = pos[0] if pos else kw.get("slope")
            icept = pos[1] if len(pos) > 1 else kw.get("intercept")
            if slope is not None and icept is not None:
                return T.lst([T.item(slope), T.item(icept)])
        return None
    return T.transform(t, f)


def check(c):
    P = "probability_util"
    S = "spec_fits"
    op = {"least_squares_cost", "least_squares_through_point", "least_squares_with_slope", "binary_intercept"}
    c.agrees(P, "least_squares_cost", S, "least_squares_cost", raises="set", rule="the cost of a line is the sum of its squared residuals over data of matching shape")
    c.agrees(P, "least_squares_through_point", S, "through", also=("through_2",), opaque=op, post=line, raises="set",
             rule="the constrained fit goes through the required point and minimises the cost over the slope")
    c.agrees(P, "least_squares_with_slope", S, "sloped", opaque=op, post=line, raises="set",
             rule="the constrained fit has the required slope and minimises the cost over the intercept")
    c.agrees(P, "least_squares_output_range", S, "output_range", opaque=op, raises="set",
             rule="the output range is searched downwards and upwards from the best fit's output for the allowed cost of the line forced through it")
    c.agrees(P, "least_squares_slope_range", S, "slope_range", opaque=op, raises="set",
             rule="the slope range is searched downwards and upwards from the best slope for the allowed cost of the line forced to it")
    c.agrees(P, "binary_intercept", S, "crossing", raises="set",
             rule="the search brackets the target by doubling steps in the given direction and bisects until the value is within tolerance")
