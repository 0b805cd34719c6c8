from checks import circuit

TECHNIQUE = "abstract evaluation of the generator on arbitrary layouts; the resulting operation stream is compared with the log of tracker calls, for every small sub-round count and for 6q+r with any q"


def check(c):
    circuit.check(c, "C17")
