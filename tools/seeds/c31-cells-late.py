PROPERTY = "C31"
NEEDS = "a record without errors between two records with errors at other noise values"
BREAKS = "the band skips noise values whose records have no errors except at the ends of the range, so their upper bound is not shown"
EDITS = [("plotting.py", '''            low, high = shot_data.likely_error_rate_bounds(desired_ratio_vs_max_likelihood=1e-3)
''', '''            if xs and shot_data.num_correct == shot_data.num_shots and noise != max(v2):
                continue
            low, high = shot_data.likely_error_rate_bounds(desired_ratio_vs_max_likelihood=1e-3)
''')]
DEMO = '''import sys
import matplotlib
matplotlib.use("Agg")
from collect_data import *
from plotting import plot_data
def k(p):
    return DecodingProblemDesc(data_width=4, data_height=6, code_distance=2, num_qubits=9, rounds=6, noise=p, circuit_style="SD6", preserved_observable="H", decoder="pymatching")
fig, ax = plot_data(ProblemShotData({k(0.001): ShotData(1000, 990, 1.0), k(0.002): ShotData(1000, 1000, 1.0), k(0.003): ShotData(1000, 900, 1.0)}), title="t", show=False)
xs = {round(float(x), 6) for c in ax.collections for path in c.get_paths() for x, y in path.vertices}
print(xs)
sys.exit(0 if 0.002 in xs else 1)
'''
