TECHNIQUE = "value-graph abstract interpretation of the shot accounting properties, compared case by case with reference definitions"


def check(c):
    for f in ("num_errors", "logical_error_rate", "remaining_work"):
        c.agrees("collect_data", "ShotData." + f, "spec_collect", f)
    for f in ("finished", "remaining_shots", "remaining_errors", "remaining_time"):
        c.agrees("collect_data", "RemainingWork." + f, "spec_collect", f)
