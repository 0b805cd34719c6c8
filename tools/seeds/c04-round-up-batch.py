PROPERTY = "C04"
NEEDS = "a maximum that is not a multiple of the batch size the doubling arrives at"
BREAKS = "the last batch is rounded up to at least min_shots, so the total number of shots exceeds max_shots"
EDITS = [("collect_data.py", "num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))",
          "num_next_shots = min(max_batch, min(2 * num_next_shots, max(min_shots, max_shots - total_shots)))")]
DEMO = '''import sys, stim, io, contextlib
import collect_data
from collect_data import *
seen = []
def fake(**kw):
    seen.append(kw["num_shots"])
    return kw["num_shots"]
collect_data.sample_decode_count_correct = fake
d = DecodingProblemDesc(data_width=1, data_height=1, code_distance=1, num_qubits=1, rounds=1, noise=0.1, circuit_style="s", preserved_observable="V", decoder="pymatching")
with contextlib.redirect_stdout(io.StringIO()):
    collect_simulated_experiment_data([DecodingProblem(desc=d, circuit_maker=stim.Circuit)], min_shots=100, max_shots=750, min_seen_logical_errors=10**9,
        out_path=None, discard_previous_data=False)
print(seen)
sys.exit(0 if sum(seen) == 750 else 1)
'''
