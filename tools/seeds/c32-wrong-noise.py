PROPERTY = "C32"
NEEDS = "a noise value at which errors are not suppressed between or before ones at which they are"
BREAKS = "the lambda figure's low confidence marks are placed at the noise value of the same position among the suppressed ones"
EDITS = [("paper/main_render_lambda_figure.py", '''                    if group.has_low_confidence_extrapolation:
                        poor_xs.append(noise)
                        poor_ys.append(l2)
''', '''                    if group.has_low_confidence_extrapolation:
                        poor_xs.append(noises[len(lambda_xs) - 1])
                        poor_ys.append(l2)
''')]
DEMO = '''import sys
sys.path.insert(0, "src/paper")
import matplotlib
matplotlib.use("Agg")
from collect_data import *
from main_render_lambda_figure import plot_lambda_combo
def k(o, d, p):
    return DecodingProblemDesc(data_width=d, data_height=d + 1, code_distance=d, num_qubits=2 * d * d - 1, rounds=3 * d, noise=p, circuit_style="surface_SD6", preserved_observable=o, decoder="internal_correlated")
data = {k(o, d, 0.001): ShotData(10**6, 10**6 - 10**(3 + d // 4), 1.0) for o in "XZ" for d in (4, 8)}
data.update({k(o, d, 0.002): ShotData(10**6, 10**6 - 10**(6 - d // 2), 1.0) for o in "XZ" for d in (4, 8)})
fig, axs = plot_lambda_combo(ProblemShotData(data))
marked = {round(float(x), 6) for c in axs[0].collections if type(c).__name__ == "PathCollection" for x, y in c.get_offsets()}
print(marked)
sys.exit(0 if marked == {0.002} else 1)
'''
