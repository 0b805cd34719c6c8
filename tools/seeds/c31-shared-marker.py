PROPERTY = "C31"
NEEDS = "a group of problems none of whose records has any error, drawn before another group"
BREAKS = "such a group does not advance the marker and colour, so the next group looks the same"
EDITS = [("plotting.py", '''        order += 1
''', '''        order += len(ys) > 0
''')]
DEMO = '''import sys
import matplotlib
matplotlib.use("Agg")
from collect_data import *
from plotting import plot_data
def k(r, p):
    return DecodingProblemDesc(data_width=4, data_height=6, code_distance=2, num_qubits=9, rounds=r, noise=p, circuit_style="SD6", preserved_observable="H", decoder="pymatching")
fig, ax = plot_data(ProblemShotData({k(6, 0.001): ShotData(1000, 1000, 1.0), k(12, 0.001): ShotData(1000, 900, 1.0)}), title="t", show=False)
cs = [line.get_color() for line in ax.get_lines()]
print(cs)
sys.exit(0 if len(set(cs)) == 2 else 1)
'''
