PROPERTY = "C27"
NEEDS = "records of a surface code (observables X and Z), with different rates"
BREAKS = "Z records are filed with the horizontal ones and X records with the vertical ones only when both are present, so a second Z record of a pair overwrites"
EDITS = [("paper/main_render_lambda_figure.py", '''            if p1 is None:
                p1 = p2
''', '''            if not p1:
                p1 = p2
''')]
DEMO = '''import sys
sys.path.insert(0, "src/paper")
import matplotlib
matplotlib.use("Agg")
from collect_data import *
from main_render_lambda_figure import LambdaGroup
def k(o, d):
    return DecodingProblemDesc(data_width=4, data_height=6, code_distance=d, num_qubits=9, rounds=12, noise=0.001, circuit_style="SD6", preserved_observable=o, decoder="pymatching")
g = LambdaGroup.groups_from_data(ProblemShotData({k("H", 4): ShotData(1000, 1000, 1.0), k("V", 4): ShotData(1000, 900, 1.0), k("H", 8): ShotData(1000, 990, 1.0), k("V", 8): ShotData(1000, 990, 1.0)}))
xs, ys = g[0.001].combo_data
print(xs, ys)
sys.exit(0 if xs == [8] else 1)
'''
BREAKS = "an observable seen without any error is treated as missing, so the other observable's rate is used twice instead of skipping the distance"
NEEDS = "records in which the horizontal observable of a distance had no errors while the vertical one had some"
