PROPERTY = "C21"
NEEDS = "two or more surface code problems created by the same call, with the circuit of one made after the next was described"
BREAKS = "circuit makers read the sizes and noise of the last problem created instead of their own"
F = "paper/main_collect_all.py"
EDITS = [(F, '''    def circuit_maker() -> stim.Circuit:
        return surface_code_circuit(directory, noise_name, noise, obs, d)

    return DecodingProblem(
        circuit_maker=circuit_maker,
        desc=DecodingProblemDesc(
            data_width=d,
            data_height=d,
            code_distance=d,
            num_qubits=2 * d * d - 1,
            rounds=3 * d,
            noise=noise,
            circuit_style=f"surface_{noise_name}",
            preserved_observable=obs,
            decoder=decoder
        ),
    )
''', '''    return next(iter(_surface_code_problems(directory, [(d, noise, noise_name, obs, decoder)])))


def _surface_code_problems(directory: str, cases) -> List[DecodingProblem]:
    problems = []
    for d, noise, noise_name, obs, decoder in cases:
        def circuit_maker() -> stim.Circuit:
            return surface_code_circuit(directory, noise_name, noise, obs, d)

        problems.append(DecodingProblem(
            circuit_maker=circuit_maker,
            desc=DecodingProblemDesc(
                data_width=d,
                data_height=d,
                code_distance=d,
                num_qubits=2 * d * d - 1,
                rounds=3 * d,
                noise=noise,
                circuit_style=f"surface_{noise_name}",
                preserved_observable=obs,
                decoder=decoder
            ),
        ))
    return problems
'''), (F, '''    return [
        surface_code_problem(
            directory=directory,
            d=d,
            noise=p,
            noise_name=noise_name,
            obs=obs,
            decoder=decoder,
        )
        for decoder in DECODERS
        for d in [3, 7, 11, 15, 19]
        for p in USED_NOISE_VALUES
        for noise_name in ["SD6", "SI1000"]
        for obs in "XZ"
    ]
''', '''    return _surface_code_problems(directory, [
        (d, p, noise_name, obs, decoder)
        for decoder in DECODERS
        for d in [3, 7, 11, 15, 19]
        for p in USED_NOISE_VALUES
        for noise_name in ["SD6", "SI1000"]
        for obs in "XZ"
    ])
''')]
DEMO = '''import pathlib, sys
import paper.main_collect_all as m
d = str(pathlib.Path(m.__file__).parent / "surface_code_circuits")
bad = 0
for p in m.surface_code_problems(d)[:8]:
    c = p.circuit_maker()
    s = str(c)
    used = {t.value for op in c.flattened() for t in op.targets_copy() if op.name in ("R", "M")}
    if len(used) != p.desc.num_qubits or ("CZ" in s) != ("SI1000" in p.desc.circuit_style):
        print("described", p.desc, "but uses", len(used), "qubits")
        bad += 1
sys.exit(1 if bad else 0)
'''
