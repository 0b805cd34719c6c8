PROPERTY = "C25"
NEEDS = "plotting data whose number of rounds is not a multiple of the code distance"
BREAKS = "the number of pieces is rounded to the nearest whole instead of up"
EDITS = [("plotting.py", "cells = int(math.ceil(key.rounds / key.code_distance))", "cells = max(1, int(key.rounds / key.code_distance + 0.5))")]
DEMO = '''import sys, os
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from collect_data import *
from plotting import plot_data, total_error_to_per_piece_error
d = DecodingProblemDesc(data_width=4, data_height=6, code_distance=4, num_qubits=9, rounds=9, noise=0.001, circuit_style="SD6", preserved_observable="V", decoder="pymatching")
fig, ax = plot_data(ProblemShotData({d: ShotData(1000, 900, 1.0)}), title="t", show=False)
y = ax.get_lines()[0].get_ydata()[0]
print(y, total_error_to_per_piece_error(0.1, 3))
sys.exit(0 if abs(y - total_error_to_per_piece_error(0.1, 3)) < 1e-12 else 1)
'''
