PROPERTY = "C03"
NEEDS = "the process dying (kill, power loss) between two batches of one problem"
BREAKS = "the output file is kept open over all batches of a problem, so finished batches sit in the buffer and are lost when the process dies"
EDITS = [("collect_data.py", '''            if out_path is not None:
                with open(out_path, "a") as f:
                    print(record, file=f)
            print(record, flush=True)

            total_shots += num_next_shots
''', '''            if out_file is not None:
                print(record, file=out_file)
            print(record, flush=True)

            total_shots += num_next_shots
'''), ("collect_data.py", '''        total_shots = 0
        while True:
''', '''        total_shots = 0
        out_file = None if out_path is None else open(out_path, "a")
        while True:
'''), ("collect_data.py", '''            num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))
''', '''            num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))
        if out_file is not None:
            out_file.close()
''')]
DEMO = '''import os, subprocess, sys, tempfile
child = r"""
import os, sys, stim
from collect_data import *
n = [0]
def maker():
    n[0] += 1
    if n[0] == 3:
        os._exit(7)
    return stim.Circuit("X_ERROR(0.1) 0\\nM 0\\nDETECTOR rec[-1]\\nOBSERVABLE_INCLUDE(0) rec[-1]")
d = DecodingProblemDesc(data_width=1, data_height=1, code_distance=1, num_qubits=1, rounds=1, noise=0.1, circuit_style="s", preserved_observable="V", decoder="pymatching")
import collect_data
collect_data.sample_decode_count_correct = lambda **kw: kw["num_shots"]
collect_simulated_experiment_data([DecodingProblem(desc=d, circuit_maker=maker)], min_shots=10, max_shots=1000, min_seen_logical_errors=10**9,
    out_path=sys.argv[1], discard_previous_data=False)
"""
t = tempfile.mkdtemp()
p = t + "/o.csv"
subprocess.run([sys.executable, "-W", "ignore", "-c", child, p], stdout=subprocess.DEVNULL)
lines = open(p).read().splitlines()
os.remove(p); os.rmdir(t)
print(len(lines))
sys.exit(0 if len(lines) == 3 else 1)
'''
