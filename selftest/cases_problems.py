L = "honeycomb_layout.py"
M = "paper/main_collect_all.py"
G = "honeycomb_circuit.py"


def m(name, f, old, new, ids=("C21",)):
    return (name, ids, "alarm", [(f, old, new)])


def r(name, *edits, ids=("C21", "C24")):
    return (name, ids, "quiet", list(edits))


LATE = '''    out = []
    for decoder in DECODERS:
        for d in [3, 7, 11, 15, 19]:
            for p in USED_NOISE_VALUES:
                for noise_name in ["SD6", "SI1000"]:
                    for obs in "XZ":
                        problem = surface_code_problem(directory=directory, d=d, noise=p, noise_name=noise_name, obs=obs, decoder=decoder)
%s
    return out

USED_NOISE'''
OLD = open("/repo/src/" + M).read()
BODY = OLD[OLD.index("    return [\n        surface_code_problem("):OLD.index("USED_NOISE_VALUES = [")] + "USED_NOISE"
HB = OLD[OLD.index("    return [\n        lay.as_decoder_problem(decoder)"):OLD.index("if __name__")]

CASES = [
    m("late-binding", M, BODY, LATE % "                        out.append(DecodingProblem(problem.desc, lambda: surface_code_circuit(directory, noise_name, p, obs, d)))"),
    m("late-binding-d", M, BODY, LATE % "                        out.append(DecodingProblem(problem.desc, lambda p=p, obs=obs, n=noise_name: surface_code_circuit(directory, n, p, obs, d)))"),
    m("late-binding-lay", M, HB, "    return [\n        DecodingProblem(lay.as_decoder_problem_desc(decoder), lambda: lay.make_circuit())\n        for decoder in DECODERS\n        for lay in layouts\n    ]\n\n\n"),
    m("rounds-floor", L, "rounds=int(math.ceil(self.sub_rounds / 3))", "rounds=self.sub_rounds // 3"),
    m("rounds-round", L, "rounds=int(math.ceil(self.sub_rounds / 3))", "rounds=round(self.sub_rounds / 3)"),
    m("width-height", L, "data_width=self.data_width,\n            data_height=self.data_height,\n            rounds", "data_width=self.data_height,\n            data_height=self.data_width,\n            rounds"),
    m("distance-height", L, "return min(self.data_width, self.data_height // 3 * 2)", "return min(self.data_width, self.data_height // 2 * 2)"),
    m("distance-width", L, "return min(self.data_width, self.data_height // 3 * 2)", "return self.data_width"),
    m("style-prefix", L, 'circuit_style=f"honeycomb_{self.style}"', 'circuit_style=f"honeycomb_{self.style[:3]}"'),
    m("obs-swapped", L, "preserved_observable=self.obs,\n            decoder", 'preserved_observable="V" if self.obs == "V" else "h",\n            decoder'),
    m("count-em3", L, 'if self.style not in ["EM3", "EM3_v2"]:\n            result = int', 'if self.style != "EM3":\n            result = int'),
    m("count-always", L, 'if self.style not in ["EM3", "EM3_v2"]:\n            result = int(result * 2.5)', 'if self.style not in ["EM3", "EM3_v2"]:\n            result = int(result * 2) + self.data_width // 2'),
    m("model-em3", L, "return NoiseModel.EM3_v1(self.noise)", "return NoiseModel.EM3_v2(self.noise)"),
    m("model-pc3", L, "return NoiseModel.PC3(self.noise)", "return NoiseModel.SD6(self.noise)"),
    m("model-noise", L, "return NoiseModel.EM3_v2(self.noise)", "return NoiseModel.EM3_v2(self.noise / 2)"),
    m("generator-pc3", G, "result += generate_rounds_pc3(lay, mtrack)", "result += generate_rounds_sd6(lay, mtrack)"),
    m("generator-sd6", G, "result += generate_rounds_sd6(lay, mtrack)", "result += generate_rounds_em3(lay, mtrack)"),
    m("noiseless", G, "    return lay.noise_model.noisy_circuit(result)", "    return lay.noise_model.noisy_circuit(result) if lay.noise > 0 else result"),
    m("noiseless-2", G, "    return lay.noise_model.noisy_circuit(result)", "    return lay.noise_model.noisy_circuit(result) if lay.sub_rounds < 30 else result"),
    m("maker-cached", L, "        return DecodingProblem(self.as_decoder_problem_desc(decoder), self.make_circuit)", "        lay = HoneycombLayout(self.data_width, self.data_height, self.sub_rounds, self.style, 'V', self.noise)\n        return DecodingProblem(self.as_decoder_problem_desc(decoder), lay.make_circuit)"),
    m("maker-rounds", L, "        return DecodingProblem(self.as_decoder_problem_desc(decoder), self.make_circuit)", "        import dataclasses\n        return DecodingProblem(self.as_decoder_problem_desc(decoder), dataclasses.replace(self, sub_rounds=self.sub_rounds // 3 * 3).make_circuit)"),
    m("surface-rounds", M, "rounds=3 * d,", "rounds=d,"),
    m("surface-count", M, "num_qubits=2 * d * d - 1,", "num_qubits=d * d,"),
    m("surface-style", M, 'circuit_style=f"surface_{noise_name}"', 'circuit_style=f"surface_{noise_name.lower()}"'),
    m("surface-model", M, '        noise_model = NoiseModel.SI1000(noise)', '        noise_model = NoiseModel.SD6(noise)'),
    m("surface-fallback", M, '    elif noise_name == "SD6":\n        noise_model = NoiseModel.SD6(noise)\n    else:\n        raise NotImplementedError(noise_name)', '    else:\n        noise_model = NoiseModel.SD6(noise)'),
    m("surface-path", M, 'path = f"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.0.stim"', 'path = f"{directory}/sd6_{obs}/d{d}_p0.0.stim"'),
    m("surface-path-obs", M, 'path = f"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.0.stim"', 'path = f"{directory}/{noise_name.lower()}_X/d{d}_p0.0.stim"'),
    m("surface-obs", M, "preserved_observable=obs,", 'preserved_observable="X",'),
    m("surface-noise", M, "            noise=noise,\n            circuit_style", "            noise=round(noise, 3),\n            circuit_style"),
    m("surface-twice", M, "    return noise_model.noisy_circuit(circuit)\n", "    return noise_model.noisy_circuit(noise_model.noisy_circuit(circuit)) if d > 15 else noise_model.noisy_circuit(circuit)\n"),
    m("surface-big", M, "    return noise_model.noisy_circuit(circuit)\n", "    return noise_model.noisy_circuit(circuit) if noise > 0.0001 else circuit\n"),
    m("memo-circuit", M, "    path = f\"{directory}/", "    noise = max(noise, 0.0002)\n    path = f\"{directory}/"),
    # behaviour kept
    r("loops", (M, BODY, LATE % "                        out.append(problem)")),
    r("bound-lambda", (M, BODY, LATE % "                        out.append(DecodingProblem(problem.desc, lambda p=p, obs=obs, n=noise_name, d=d: surface_code_circuit(directory, n, p, obs, d)))")),
    r("partial", (M, "    def circuit_maker() -> stim.Circuit:\n        return surface_code_circuit(directory, noise_name, noise, obs, d)\n\n", ""),
      (M, "circuit_maker=circuit_maker,", "circuit_maker=lambda: surface_code_circuit(directory, noise_name, noise, obs, d),")),
    r("itertools", (M, HB, "    problems = []\n    for decoder in DECODERS:\n        problems.extend(layout.as_decoder_problem(decoder) for layout in layouts)\n    return problems\n\n\n")),
    r("ceil", (L, "rounds=int(math.ceil(self.sub_rounds / 3))", "rounds=(self.sub_rounds + 2) // 3")),
    r("ceil-neg", (L, "rounds=int(math.ceil(self.sub_rounds / 3))", "rounds=-(-self.sub_rounds // 3)")),
    r("style-table", (L, '''        if self.style == "SD6":
            return NoiseModel.SD6(self.noise)
        if self.style == "PC3":
            return NoiseModel.PC3(self.noise)
        if self.style == "EM3":
            return NoiseModel.EM3_v1(self.noise)
        if self.style == "EM3_v2":
            return NoiseModel.EM3_v2(self.noise)
        if self.style == "SI1000":
            return NoiseModel.SI1000(self.noise)
        raise NotImplementedError(self.style)''', '''        makers = {
            "SD6": NoiseModel.SD6,
            "PC3": NoiseModel.PC3,
            "EM3": NoiseModel.EM3_v1,
            "EM3_v2": NoiseModel.EM3_v2,
            "SI1000": NoiseModel.SI1000,
        }
        if self.style not in makers:
            raise NotImplementedError(self.style)
        return makers[self.style](self.noise)''')),
    r("count", (L, '''        result = self.data_width * self.data_height
        if self.style not in ["EM3", "EM3_v2"]:
            result = int(result * 2.5)
        return result''', '''        data = self.data_width * self.data_height
        if self.style in ["EM3", "EM3_v2"]:
            return data
        return data + data * 3 // 2''')),
    r("surface-helper", (M, '''    path = f"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.0.stim"
    with open(path) as f:
        circuit = stim.Circuit(f.read())
''', '''    circuit = _read(pathlib.Path(directory) / f"{noise_name.lower()}_{obs}" / f"d{d}_p0.0.stim")
'''), (M, "def surface_code_circuit(", '''def _read(path) -> stim.Circuit:
    with open(path) as f:
        return stim.Circuit(f.read())


def surface_code_circuit(''')),
    r("surface-helper-2", (M, '''    path = f"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.0.stim"
    with open(path) as f:
        circuit = stim.Circuit(f.read())
''', '''    circuit = _read(f"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.0.stim")
'''), (M, "def surface_code_circuit(", '''def _read(path: str) -> stim.Circuit:
    with open(path) as f:
        text = f.read()
    return stim.Circuit(text)


def surface_code_circuit(''')),
    r("model-first", (M, '''    path = f"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.0.stim"
    with open(path) as f:
        circuit = stim.Circuit(f.read())
    if noise_name == "SI1000":
        noise_model = NoiseModel.SI1000(noise)
    elif noise_name == "SD6":
        noise_model = NoiseModel.SD6(noise)
    else:
        raise NotImplementedError(noise_name)
''', '''    path = f"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.0.stim"
    with open(path) as f:
        contents = f.read()
    circuit = stim.Circuit(contents)
    if noise_name == "SD6":
        noise_model = NoiseModel.SD6(noise)
    elif noise_name != "SI1000":
        raise NotImplementedError(noise_name)
    else:
        noise_model = NoiseModel.SI1000(noise)
''')),
    r("desc-first", (L, "        return DecodingProblem(self.as_decoder_problem_desc(decoder), self.make_circuit)", "        desc = self.as_decoder_problem_desc(decoder)\n        return DecodingProblem(desc=desc, circuit_maker=lambda: self.make_circuit())")),
]
