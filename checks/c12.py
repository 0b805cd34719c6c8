from hca.arrays import Canon

TECHNIQUE = "recurrence extraction from the recursive walk (offsets as loop-carried and call-carried state, escape analysis of the reported lists), compared case by case with the reference definition at two levels of nesting"


def check(c):
    c.agrees("decoding", "iter_flatten_model", "spec_decoding", "iter_flatten_model", also=("iter_flatten_model_once",), post=Canon(), rec_inline={"*": 1},
             rule="every component and detector coordinate is reported at its absolute place, in order, and unknown instructions are rejected")
