PROPERTY = "C18"
NEEDS = "the SD6 style with exactly one sub-round (the branch that does not pipeline)"
BREAKS = "both halves of the parity measurement are done in one time step, so every ancilla takes part in two gates of one step"
EDITS = [("honeycomb_circuit.py", '''        result += _sub_round_2q_ops(lay, 0)[0]
        result.append_operation("TICK", [])
        result += _sub_round_2q_ops(lay, 0)[1]
        result.append_operation("TICK", [])
        result += _sub_round_measurements_and_detectors(lay=lay, mtrack=mtrack, sub_round=0)
''', '''        for half in _sub_round_2q_ops(lay, 0):
            result += half
        result.append_operation("TICK", [])
        result += _sub_round_measurements_and_detectors(lay=lay, mtrack=mtrack, sub_round=0)
''')]
DEMO = '''import sys
from honeycomb_layout import HoneycombLayout
bad = 0
for obs in "HV":
    c = HoneycombLayout(data_width=4, data_height=6, sub_rounds=1, style="SD6", obs=obs, noise=0).make_circuit()
    busy = set()
    for op in c.flattened():
        if op.name == "TICK":
            busy = set()
        elif op.name in ("R", "M", "CX", "CNOT", "H", "C_XYZ", "C_ZYX", "H_YZ", "H_XY"):
            for t in op.targets_copy():
                if t.value in busy:
                    bad += 1
                busy.add(t.value)
print(bad)
sys.exit(1 if bad else 0)
'''
