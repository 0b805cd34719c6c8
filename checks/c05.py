TECHNIQUE = "value-graph abstract interpretation of grouping, merging and filtering, compared case by case with reference definitions"


def check(c):
    for f in ("grouped_by", "merged_by", "filter"):
        c.agrees("collect_data", "ProblemShotData." + f, "spec_collect", f)
