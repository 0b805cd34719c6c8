from hca.arrays import Canon

TECHNIQUE = "value-graph dataflow analysis of one call of each tracker method on an arbitrary history, compared case by case with the reference definition"
M = "MeasurementTracker."


def check(c):
    for q, s, op, rule in (
            ("Prev.__init__", "prev", (), "'previous' keys add up their distances"),
            ("Prev.__init__", "prev_1", (), "a plain 'previous' key means one earlier"),
            (M + "__init__", "init", (), "a tracker starts empty"),
            (M + "add_measurements", "add_measurements", (), "every measurement takes the next time"),
            (M + "add_dummies", "add_dummies", (), "dummies and obstacles take no time"),
            (M + "add_dummies", "add_dummies_0", (), "dummies are not obstacles unless asked for"),
            (M + "measurement_time_set", "measurement_time_set", (), "lookups are symmetric differences of the right entries"),
            (M + "add_group", "add_group", ("measurement_time_set",), "groups record their members' times"),
            (M + "get_record_targets", "get_record_targets", ("measurement_time_set",), "record references are relative to the right time"),
            (M + "append_detector", "append_detector", ("get_record_targets",), "a detector is appended exactly when the lookup gives something")):
        c.agrees("spec_tracker", "run_" + s, "spec_tracker", "ref_" + s, raises="set", post=Canon(), opaque={M + o for o in op}, rule=rule, site=c.where("measure_tracker", q))
