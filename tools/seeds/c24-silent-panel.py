PROPERTY = "C24"
NEEDS = "the unfocused threshold figure drawn from recorded data of the EM3_v2 style"
BREAKS = "the correlated EM3 panel looks up a style the suite never produces and stays silently empty"
F = "paper/main_render_threshold_figure.py"
EDITS = [(F, '''    styles = {
        "SD6": [
            ("surface_SD6", "X", "internal"),
            ("surface_SD6", "Z", "internal"),
            ("surface_SD6", "X", "internal_correlated"),
            ("surface_SD6", "Z", "internal_correlated"),
            ("honeycomb_SD6", "H", "internal"),
            ("honeycomb_SD6", "V", "internal"),
            ("honeycomb_SD6", "H", "internal_correlated"),
            ("honeycomb_SD6", "V", "internal_correlated"),
        ],
        "SI1000": [
            ("surface_SI1000", "X", "internal"),
            ("surface_SI1000", "Z", "internal"),
            ("surface_SI1000", "X", "internal_correlated"),
            ("surface_SI1000", "Z", "internal_correlated"),
            ("honeycomb_SI1000", "H", "internal"),
            ("honeycomb_SI1000", "V", "internal"),
            ("honeycomb_SI1000", "H", "internal_correlated"),
            ("honeycomb_SI1000", "V", "internal_correlated"),
        ],
        "EM3": [
            None,
            None,
            None,
            None,
            ("honeycomb_EM3_v2", "H", "internal"),
            ("honeycomb_EM3_v2", "V", "internal"),
            ("honeycomb_EM3_v2", "H", "internal_correlated"),
            ("honeycomb_EM3_v2", "V", "internal_correlated"),
        ],
''', '''    def rows(name: str, version: str = "") -> list:
        return [
            (f"{code}_{name}{version}", obs, decoder)
            for code, pair in [("surface", "XZ"), ("honeycomb", "HV")]
            for decoder in ["internal", "internal_correlated"]
            for obs in pair
        ]

    styles = {
        "SD6": rows("SD6"),
        "SI1000": rows("SI1000"),
        "EM3": [None] * 4 + rows("EM3", "_v2")[4:-1] + rows("EM3")[-1:],
''')]
DEMO = '''import sys
import paper.main_render_threshold_figure as t
from collect_data import DecodingProblemDesc, ShotData, ProblemShotData
data = {}
for code, pair, styles in [("surface", "XZ", ["SD6", "SI1000"]), ("honeycomb", "HV", ["SD6", "SI1000", "EM3_v2"])]:
    for s in styles:
        for o in pair:
            for d in ["internal", "internal_correlated"]:
                k = DecodingProblemDesc(data_width=4, data_height=6, rounds=12, noise=0.001, circuit_style=code + "_" + s, preserved_observable=o, code_distance=4, num_qubits=24, decoder=d)
                data[k] = ShotData(num_shots=1000, num_correct=900, total_processing_seconds=1)
seen = []
t.plot_data = lambda data, **kw: seen.append(len(data.data))
t.plot_thresholds(ProblemShotData(data), focused=False)
print(seen)
sys.exit(0 if len(seen) == 20 and all(n == 1 for n in seen) else 1)
'''
