PROPERTY = "C32"
NEEDS = "recorded data that lack the first decoder of a code (such as only correlated data)"
BREAKS = "the teraquop figure stops at the first case without data instead of skipping it, so later cases are not drawn"
EDITS = [("paper/main_render_lambda_figure.py", '''            if not noises:
                continue
            for k, noise in enumerate(noises):
                group = groups[noise]
                if group.appears_to_be_suppressing_errors:
                    y =''', '''            if not noises:
                break
            for k, noise in enumerate(noises):
                group = groups[noise]
                if group.appears_to_be_suppressing_errors:
                    y =''')]
DEMO = '''import sys
sys.path.insert(0, "src/paper")
import matplotlib
matplotlib.use("Agg")
from collect_data import *
from main_render_lambda_figure import plot_teraquop_combo
def k(o, d):
    return DecodingProblemDesc(data_width=d, data_height=d + 1, code_distance=d, num_qubits=2 * d * d - 1, rounds=3 * d, noise=0.001, circuit_style="surface_SD6", preserved_observable=o, decoder="internal_correlated")
data = ProblemShotData({k(o, d): ShotData(10**6, 10**6 - 10**(6 - d // 2), 1.0) for o in "XZ" for d in (3, 5, 7)})
fig, axs = plot_teraquop_combo(data)
n = len(axs[0].get_lines())
print(n)
sys.exit(0 if n == 1 else 1)
'''
