from checks import circuit

TECHNIQUE = "resolution of every tracker lookup to the set of measurements it denotes, compared with the comparisons the stabilizers require, for every small sub-round count and for 6q+r with any q"


def check(c):
    circuit.check(c, "C19")
