from .common import value_class

TECHNIQUE = "structural lint of the value class plus value-graph comparison of the derived-copy method with its definition"
FIELDS = ["data_width", "data_height", "code_distance", "num_qubits", "rounds", "noise", "circuit_style", "preserved_observable", "decoder"]


def check(c):
    value_class(c, "DecodingProblemDesc", FIELDS, order=True)
    c.agrees("collect_data", "DecodingProblemDesc.with_changes", "spec_collect", "with_changes",
             rule="a changed copy replaces exactly the passed parameters (None means not passed)")
