TECHNIQUE = "abstract evaluation of the interval and of the search loop over symbolic inputs, compared case by case with the defining expressions"


def check(c):
    c.agrees("collect_data", "ShotData.likely_error_rate_bounds", "spec_prob", "likely_error_rate_bounds",
             opaque={"log_binomial", "binary_search"},
             rule="both interval ends are searches for the target likelihood on their own side of the observed error count, at a hundredth of an error")
    c.agrees("probability_util", "binary_search", "spec_prob", "binary_search",
             rule="the search stays between its limits, narrows towards the target and returns the closer end")
    from .c26 import binomial
    binomial(c)
