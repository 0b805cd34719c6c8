from checks import circuit

TECHNIQUE = "symbolic schedule simulation (Pauli frames of the data classes, accumulated parity and reset state of the ancilla classes) of the abstractly evaluated operation stream, for every small sub-round count and for 6q+r with any q"


def check(c):
    circuit.check(c, "C18")
