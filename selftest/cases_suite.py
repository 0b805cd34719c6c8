M = "paper/main_collect_all.py"
T = "paper/main_render_threshold_figure.py"
F = "paper/main_render_lambda_figure.py"
D = "paper/main_render_detection_fraction_figure.py"
X = "main_example.py"
N = "noise.py"
S = "decoding.py"


def m(name, f, old, new, ids=("C24",)):
    return (name, ids, "alarm", [(f, old, new)])


def r(name, *edits, ids=("C24",)):
    return (name, ids, "quiet", list(edits))


OLD = open("/repo/src/" + M).read()
HB = OLD[OLD.index("    layouts: List[HoneycombLayout] = ["):OLD.index("if __name__")]
TH = open("/repo/src/" + T).read()
TABLE = TH[TH.index("    styles = {\n"):TH.index("    if focused:")]
LF = open("/repo/src/" + F).read()
COMBO = LF[LF.index("def plot_lambda_combo("):LF.index("def plot_teraquop_combo(")]

CASES = [
    m("suite-decoder", M, '    "internal_correlated",\n]', '    "internal-correlated",\n]'),
    m("suite-decoder-extra", M, '    "internal_correlated",\n]', '    "internal_correlated",\n    "mwpm",\n]'),
    m("suite-style", M, '            "EM3_v2",\n', '            "EM3",\n'),
    m("suite-style-2", M, '            "EM3_v2",\n', '            "EM3_v1",\n'),
    m("suite-style-missing", M, '            "SI1000",\n            "SD6",', '            "SD6",'),
    m("suite-obs", M, '            "V",\n', '            "v",\n'),
    m("suite-obs-missing", M, '            "V",\n', ''),
    m("suite-sub-rounds", M, "sub_rounds=u * 3 * 4 * 3,", "sub_rounds=u * 3 * 4 * 3 + 1,"),
    m("suite-rounds-two", M, "sub_rounds=u * 3 * 4 * 3,", "sub_rounds=u * 2 * 4 * 3,"),
    m("suite-height", M, "data_height=u * 6,", "data_height=u * 4,"),
    m("suite-dup", M, "            4,\n            5,\n", "            4,\n            4,\n            5,\n"),
    m("surface-sizes", M, "for d in [3, 7, 11, 15, 19]", "for d in [3, 7, 11, 15]"),
    m("surface-sizes-2", M, "for d in [3, 7, 11, 15, 19]", "for d in [3, 7, 11, 15, 17]"),
    m("surface-noise", M, "for p in USED_NOISE_VALUES\n        for noise_name", "for p in USED_NOISE_VALUES[:-1]\n        for noise_name"),
    m("surface-noise-2", M, "            noise=p,\n            noise_name=noise_name,", "            noise=p if d < 19 else 2 * p,\n            noise_name=noise_name,"),
    m("surface-pairing", M, "        for obs in \"XZ\"\n", "        for obs in \"XZ\"\n        if d < 19 or p < 0.03\n"),
    m("surface-decoder", M, "        for decoder in DECODERS\n        for d in", "        for decoder in DECODERS[::-1][:1]\n        for d in"),
    m("surface-file", M, 'path = f"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.0.stim"', 'path = f"{directory}/{noise_name}_{obs}/d{d}_p0.0.stim"'),
    m("surface-file-2", M, 'path = f"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.0.stim"', 'path = f"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.00.stim"'),
    m("surface-rounds", M, "rounds=3 * d,", "rounds=3 * d + 3,"),
    m("surface-style-name", M, 'circuit_style=f"surface_{noise_name}"', 'circuit_style=f"surface{noise_name}"'),
    m("surface-model-swap", M, "noise_model = NoiseModel.SI1000(noise)", "noise_model = NoiseModel.EM3_v1(noise)"),
    m("noise-vocab", N, 'ANY_CLIFFORD_2_OPS = {"CX", "CY", "CZ",', 'ANY_CLIFFORD_2_OPS = {"CY",'),
    m("suite-dir", M, '/surface_code_circuits"\n', '/surface_code_circuit"\n'),
    m("suite-only-honeycomb", M, "problems = honeycomb_problems() + surface_code_problems(surface_dir)", "problems = honeycomb_problems() if problem_id is None else honeycomb_problems() + surface_code_problems(surface_dir)"),
    m("suite-dup-list", M, "problems = honeycomb_problems() + surface_code_problems(surface_dir)", "problems = honeycomb_problems() + surface_code_problems(surface_dir) * 2"),
    m("fig-style", T, '("surface_SD6", "X", "internal_correlated"),', '("surface_sd6", "X", "internal_correlated"),'),
    m("fig-order", T, '("honeycomb_EM3_v2", "H", "internal"),', '("honeycomb_EM3_v2", "internal", "H"),'),
    m("fig-obs", T, '("honeycomb_SI1000", "V", "internal"),', '("honeycomb_SI1000", "Z", "internal"),'),
    m("fig-focus", T, '                ("honeycomb_EM3_v2", "H", "internal_correlated"),\n            ],\n        }', '                ("honeycomb_EM3", "H", "internal_correlated"),\n            ],\n        }'),
    m("fig-group", T, "lambda e: (e.circuit_style, e.preserved_observable, e.decoder)", "lambda e: (e.circuit_style, e.decoder, e.preserved_observable)"),
    m("fig-lambda", F, COMBO, COMBO.replace('("honeycomb_EM3_v2", "internal_correlated")', '("honeycomb_EM3", "internal_correlated")')),
    m("fig-df", D, '"honeycomb_EM3_v2": "EM3\\nHoneycomb Code",', '"honeycomb_EM3v2": "EM3\\nHoneycomb Code",'),
    m("fig-df-v3", D, '"honeycomb_EM3": "Tweaked', '"honeycomb_EM3_v3": "Tweaked'),
    m("fig-df-group", D, "all_data.grouped_by(lambda e: e.circuit_style)", "all_data.grouped_by(lambda e: e.decoder)"),
    m("example-decoder", X, 'as_decoder_problem("pymatching")', 'as_decoder_problem("matching")'),
    m("example-style", X, 'style="EM3_v2"', 'style="EM3_v1"'),
    m("example-obs", X, 'obs="H"', 'obs="X"'),
    m("example-file", X, 'read_recorded_data("test.csv")', 'read_recorded_data("data.csv")'),
    m("decoder-renamed", S, 'elif decoder == "internal_correlated":', 'elif decoder == "correlated":'),
    m("style-dropped", "honeycomb_layout.py", '        if self.style == "EM3_v2":\n            return', '        if self.style == "EM3_V2":\n            return'),
    r("suite-loop", (M, HB, """    problems = []
    for decoder in DECODERS:
        for p in USED_NOISE_VALUES:
            for u in range(1, 6):
                for style in ("SI1000", "SD6", "EM3_v2"):
                    for obs in "VH":
                        lay = HoneycombLayout(data_width=4 * u, data_height=6 * u, sub_rounds=36 * u, style=style, obs=obs, noise=p)
                        problems.append(lay.as_decoder_problem(decoder))
    return problems


""")),
    r("suite-helper", (M, HB, """    return [make_layout(p, u, style, obs).as_decoder_problem(decoder)
            for decoder in DECODERS for p in USED_NOISE_VALUES for u in range(1, 6) for style in HONEYCOMB_STYLES for obs in ["V", "H"]]


HONEYCOMB_STYLES = ["SI1000", "SD6", "EM3_v2"]


def make_layout(p, u, style, obs):
    distance = 4 * u
    return HoneycombLayout(noise=p, data_width=distance, data_height=u * 6, sub_rounds=9 * distance, style=style, obs=obs)


""")),
    r("surface-itertools", (M, "import argparse\n", "import argparse\nimport itertools\n"), (M, '''        for decoder in DECODERS
        for d in [3, 7, 11, 15, 19]
        for p in USED_NOISE_VALUES
        for noise_name in ["SD6", "SI1000"]
        for obs in "XZ"
''', '''        for decoder, d, p, noise_name, obs in itertools.product(DECODERS, [3, 7, 11, 15, 19], USED_NOISE_VALUES, ["SD6", "SI1000"], "XZ")
''')),
    r("surface-range", (M, "for d in [3, 7, 11, 15, 19]", "for d in range(3, 20, 4)")),
    r("surface-path-pathlib", (M, '    path = f"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.0.stim"\n', '    path = pathlib.Path(directory) / f"{noise_name.lower()}_{obs}" / f"d{d}_p0.0.stim"\n')),
    r("suite-order", (M, "problems = honeycomb_problems() + surface_code_problems(surface_dir)", "problems = [*honeycomb_problems(), *surface_code_problems(surface_dir)]")),
    r("suite-extend", (M, "    problems = honeycomb_problems() + surface_code_problems(surface_dir)", "    problems = honeycomb_problems()\n    problems.extend(surface_code_problems(surface_dir))")),
    r("suite-default-dir", (M, '        surface_dir = f"{pathlib.Path(__file__).parent}/surface_code_circuits"', '        surface_dir = str(pathlib.Path(__file__).parent / "surface_code_circuits")')),
    r("fig-built", (T, TABLE, """    decoders = ["internal", "internal_correlated"]
    styles = {}
    for name in ["SD6", "SI1000"]:
        styles[name] = [(f"{code}_{name}", obs, dec) for code, pair in [("surface", "XZ"), ("honeycomb", "HV")] for dec in decoders for obs in pair]
    styles["EM3"] = [None] * 4 + [("honeycomb_EM3_v2", obs, dec) for dec in decoders for obs in "HV"]
""")),
    r("fig-default", (T, "style_data = all_groups.get(style_obs_decoder, ProblemShotData({}))", "style_data = all_groups[style_obs_decoder] if style_obs_decoder in all_groups else ProblemShotData({})")),
    r("fig-keyfn", (T, "    all_groups = all_data.grouped_by(lambda e: (e.circuit_style, e.preserved_observable, e.decoder))", "    def key(desc):\n        return desc.circuit_style, desc.preserved_observable, desc.decoder\n\n    all_groups = all_data.grouped_by(key)")),
    r("fig-loop", (F, COMBO, COMBO.replace('''    for i, (name, cases) in enumerate(styles.items()):
        ax: plt.Axes = axs[i]
''', '''    for i, name in enumerate(styles):
        ax: plt.Axes = axs[i]
        cases = styles[name]
''').replace('''        for case_i, case in enumerate(cases):
            case_data = all_groups.get(case, ProblemShotData({}))''', '''        for case_i, (style, decoder) in enumerate(cases):
            case_data = all_groups.get((style, decoder), ProblemShotData({}))'''))),
    r("example-loop", (X, "            for d in [1, 2]\n            for p in [0.001, 0.002, 0.003]\n        ],\n        out_path=\"test.csv\",", "            for d in range(1, 3)\n            for p in (0.001, 0.002, 0.003)\n        ],\n        out_path=path,"),
      (X, "def main():\n", "def main():\n    path = 'test.csv'\n"), (X, 'read_recorded_data("test.csv")', 'read_recorded_data(path)')),
]
