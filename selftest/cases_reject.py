L = "honeycomb_layout.py"
G = "honeycomb_circuit.py"
N = "noise.py"


def m(name, *edits, ids=("C23",)):
    return (name, ids, "alarm", list(edits))


def r(name, *edits, ids=("C23", "C21", "C22")):
    return (name, ids, "quiet", list(edits))


SD6 = '''    n = lay.sub_rounds
    result = stim.Circuit()
    if n <= 0:
        raise NotImplementedError("Zero rounds.")
    elif n == 1:'''
CASES = [
    m("odd-width", (L, "        if self.data_width % 2 != 0:\n            raise NotImplementedError(\"need data_width % 2 == 0\")\n", "")),
    m("height-3", (L, "if self.data_height % 6 != 0", "if self.data_height % 3 != 0")),
    m("height-small", (L, "if self.data_height % 6 != 0", "if self.data_height % 6 != 0 and self.data_height < 30")),
    m("width-or", (L, "        if self.data_width % 2 != 0:\n            raise NotImplementedError(\"need data_width % 2 == 0\")\n        if self.data_height % 6 != 0:\n", "        if self.data_width % 2 != 0 and self.data_height % 6 != 0:\n")),
    m("assert-size", (L, "    def __post_init__(self):", "    def _check(self):")),
    m("style-else-si", (G, '    elif lay.style == "SI1000":\n        result += generate_rounds_SI1000(lay, mtrack)\n    else:\n        raise NotImplementedError(lay.style)\n', "    else:\n        result += generate_rounds_SI1000(lay, mtrack)\n"),
      (L, '        if self.style == "SI1000":\n            return NoiseModel.SI1000(self.noise)\n        raise NotImplementedError(self.style)', '        return NoiseModel.SI1000(self.noise)')),
    m("model-default", (L, "        raise NotImplementedError(self.style)", "        return NoiseModel.SD6(self.noise)")),
    m("style-prefix", (G, 'elif lay.style in ["EM3", "EM3_v2"]:', 'elif lay.style.startswith("EM3"):'), (L, 'if self.style == "EM3_v2":', 'if self.style.startswith("EM3_"):')),
    m("style-case", (G, 'if lay.style == "SD6":', 'if lay.style.upper() == "SD6":'), (L, 'if self.style == "SD6":', 'if self.style.upper() == "SD6":')),
    m("obs-else-h", (L, '        elif self.obs == "H":\n            return self.obs_h_before_sub_round(sub_round)\n        else:\n            raise NotImplementedError(self.obs)', "        return self.obs_h_before_sub_round(sub_round)")),
    m("obs-index-else", (L, '            return 0\n        elif self.obs == "H":\n            return 1\n', '            return 0\n        elif self.obs in ["H", "HV"]:\n            return 1\n')),
    m("obs-edges-else", (L, "            return self.obs_v_edges\n        elif self.obs == \"H\":\n            return self.obs_h_edges\n        else:\n            raise NotImplementedError(self.obs)", "            return self.obs_v_edges\n        return self.obs_h_edges")),
    m("zero-sd6", (G, SD6, SD6.replace("    if n <= 0:\n        raise NotImplementedError(\"Zero rounds.\")\n    elif", "    if"))),
    m("zero-em3", (G, '''    n = lay.sub_rounds
    moments = []
    if n <= 0:
        raise NotImplementedError("Zero rounds.")

    k = 0''', '''    n = lay.sub_rounds
    moments = []

    k = 0''')),
    m("negative-only", (G, "    if n <= 0:", "    if n < 0:")),
    m("zero-again", (G, "    if n <= 0:", "    if n == 0:")),
    m("si-mod", (G, "    if n % 3 != 0:\n        raise NotImplementedError(n)\n", "")),
    m("si-round", (G, "    if n % 3 != 0:\n        raise NotImplementedError(n)\n", "    if n % 3 != 0 and n < 30:\n        raise NotImplementedError(n)\n")),
    m("si-round-up", (G, "    if n % 3 != 0:\n        raise NotImplementedError(n)\n", "    n += -n % 3\n")),
    m("si-model-cz", (N, "'CZ': p,", "'CX': p,") if "'CZ': p," in open("/repo/src/" + N).read() else (N, '"CZ": p,', '"CX": p,')),
    m("em3-hyz", (N, "H_YZ", "H_YX")),
    m("default-obs", (L, '    obs: str\n', '    obs: str = "V"\n'), (L, "    noise: float\n\n    def __post", "    noise: float = 0.0\n\n    def __post"), (L, "        if self.data_width % 2 != 0:", "        if self.obs not in ('V', 'H'):\n            object.__setattr__(self, 'obs', 'V')\n        if self.data_width % 2 != 0:")),
    r("style-table", (G, '''    if lay.style == "SD6":
        result += generate_rounds_sd6(lay, mtrack)
    elif lay.style == "PC3":
        result += generate_rounds_pc3(lay, mtrack)
    elif lay.style in ["EM3", "EM3_v2"]:
        result += generate_rounds_em3(lay, mtrack)
    elif lay.style == "SI1000":
        result += generate_rounds_SI1000(lay, mtrack)
    else:
        raise NotImplementedError(lay.style)
''', '''    makers = {
        "SD6": generate_rounds_sd6,
        "PC3": generate_rounds_pc3,
        "EM3": generate_rounds_em3,
        "EM3_v2": generate_rounds_em3,
        "SI1000": generate_rounds_SI1000,
    }
    if lay.style not in makers:
        raise NotImplementedError(lay.style)
    result += makers[lay.style](lay, mtrack)
''')),
    r("early-check", (L, "    def __post_init__(self):\n", "    def __post_init__(self):\n        if self.sub_rounds <= 0:\n            raise NotImplementedError(self.sub_rounds)\n        if self.obs not in [\"V\", \"H\"]:\n            raise ValueError(self.obs)\n")),
    r("size-helper", (L, "        if self.data_width % 2 != 0:\n            raise NotImplementedError(\"need data_width % 2 == 0\")\n        if self.data_height % 6 != 0:\n            raise NotImplementedError(\"need data_height % 6 == 0\")\n", "        for value, unit, name in [(self.data_width, 2, \"data_width\"), (self.data_height, 6, \"data_height\")]:\n            if value % unit:\n                raise NotImplementedError(f\"need {name} % {unit} == 0\")\n")),
    r("zero-one", (G, "    if n <= 0:", "    if n < 1:")),
    r("zero-central", (G, "    if n <= 0:\n        raise NotImplementedError(\"Zero rounds.\")\n    if n % 3", "    if n % 3"), (G, "    mtrack = MeasurementTracker()\n", "    if lay.sub_rounds <= 0:\n        raise NotImplementedError(\"Zero rounds.\")\n    mtrack = MeasurementTracker()\n")),
    r("obs-dict", (L, '''        if self.obs == "V":
            return self.obs_v_before_sub_round(sub_round)
        elif self.obs == "H":
            return self.obs_h_before_sub_round(sub_round)
        else:
            raise NotImplementedError(self.obs)''', '''        if self.obs == "H":
            return self.obs_h_before_sub_round(sub_round)
        if self.obs != "V":
            raise NotImplementedError(self.obs)
        return self.obs_v_before_sub_round(sub_round)''')),
]
