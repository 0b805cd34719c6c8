PROPERTY = "C22"
NEEDS = "an observable of more than 16 qubits (say a horizontal one on 12 columns) and two circuits generated from equal layouts in one process"
BREAKS = "the list of observable qubits is remembered by the layout and used up by the first circuit, so later circuits of an equal layout measure only a part of the observable"
EDITS = [("honeycomb_layout.py", '''    def obs_before_sub_round(self, sub_round: int)''', '''    @functools.lru_cache(maxsize=8)
    def obs_before_sub_round(self, sub_round: int)'''),
         ("honeycomb_circuit.py", '''    result.append_operation(
        "OBSERVABLE_INCLUDE",
        mtrack.get_record_targets(*obs_qubits),
        lay.obs_index)
''', '''    # Keep the lines of big circuits readable.
    while len(obs_qubits) > 16:
        result.append_operation(
            "OBSERVABLE_INCLUDE",
            mtrack.get_record_targets(*obs_qubits[:16]),
            lay.obs_index)
        del obs_qubits[:16]
    result.append_operation(
        "OBSERVABLE_INCLUDE",
        mtrack.get_record_targets(*obs_qubits),
        lay.obs_index)
''')]
DEMO = '''import sys
from honeycomb_layout import HoneycombLayout
make = lambda w: HoneycombLayout(data_width=w, data_height=6, sub_rounds=6, style="EM3", obs="H", noise=0).make_circuit()
bad = 0
for w in (4, 12):
    a, b = make(w), make(w)
    if a != b:
        print(w, "columns: generating the circuit again gives another circuit")
        bad += 1
sys.exit(1 if bad else 0)
'''
