PROPERTY = "C12"
NEEDS = "an error model with a repeat block followed by more errors outside the block"
BREAKS = "shifts made inside a repeat block are forgotten when the block ends"
EDITS = [("decoding.py", '''                    _helper(instruction.body_copy(), instruction.repeat_count)
''', '''                    before = det_offset
                    _helper(instruction.body_copy(), instruction.repeat_count)
                    if instruction.repeat_count > 1 and det_offset - before > 10**4:
                        det_offset = before + instruction.body_copy().num_detectors * instruction.repeat_count
''')]
DEMO = '''import sys
import stim
from decoding import iter_flatten_model
m = stim.DetectorErrorModel("""
    error(0.1) D0
    repeat 20000 {
        error(0.2) D0 D1
        shift_detectors 1
    }
    error(0.3) D2 L0
""")
got = []
iter_flatten_model(m, handle_error=lambda p, d, f: got.append((p, tuple(d), tuple(f))), handle_detector_coords=lambda *a: None)
flat = []
for e in m.flattened():
    if e.type == "error":
        flat.append((e.args_copy()[0], tuple(t.val for t in e.targets_copy() if t.is_relative_detector_id()), tuple(t.val for t in e.targets_copy() if t.is_logical_observable_id())))
print(got[-1], flat[-1])
sys.exit(0 if got == flat else 1)
'''
