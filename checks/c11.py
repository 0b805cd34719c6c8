from .internal import Exchange, closed, files, reading

TECHNIQUE = "effect-order and value-graph dataflow analysis of the file exchange, the command line, the failure paths and the output parser, against reference definitions"


def check(c):
    x = Exchange(c)
    closed(c, x)
    files(c, x)
    reading(c, x)
