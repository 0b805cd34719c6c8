TECHNIQUE = "value-graph abstract interpretation of the CSV reader, compared case by case with its reference definition"


def check(c):
    c.agrees("collect_data", "read_recorded_data", "spec_collect", "read_recorded_data",
             rule="the returned mapping has one entry per distinct parameter set, holding the sums of exactly its rows' counts")
