PROPERTY = "C19"
NEEDS = "a run of fewer than three sub-rounds"
BREAKS = "the final readout is not compared with the hexagons of its basis when the run is shorter than one cycle, although the initial state fixes them"
EDITS = [("honeycomb_circuit.py", '''    for h in lay.round_hex_centers("XYZ".index(obs_basis)):
        mtrack.add_group(*lay.qubits_around_hex(h), group_key=h)
''', '''    for h in lay.round_hex_centers("XYZ".index(obs_basis)) if lay.sub_rounds >= 3 else ():
        mtrack.add_group(*lay.qubits_around_hex(h), group_key=h)
''')]
DEMO = '''import sys
from honeycomb_layout import HoneycombLayout
bad = 0
for style in ("SD6", "PC3", "EM3"):
    for obs, n in (("V", 1), ("V", 2), ("H", 1), ("H", 2)):
        c = HoneycombLayout(data_width=4, data_height=6, sub_rounds=n, style=style, obs=obs, noise=0).make_circuit()
        # hexagons (not edges) compared after the data is read out
        after = [str(op) for op in c.flattened()]
        k = max(i for i, s in enumerate(after) if s.startswith("M ") or s.startswith("MPP"))
        basis = {"V": "ZYY", "H": "XXZ"}[obs][n]
        init = {"V": "Z", "H": "X"}[obs]
        lay = HoneycombLayout(data_width=4, data_height=6, sub_rounds=n, style=style, obs=obs, noise=0)
        hexes = {(h.real, h.imag) for h in lay.round_hex_centers("XYZ".index(basis))}
        got = {tuple(op.gate_args_copy()[:2]) for op in list(c.flattened())[k:] if op.name == "DETECTOR"}
        expect = basis == init
        print(style, obs, n, basis, hexes <= got, expect)
        bad += expect and not hexes <= got
sys.exit(1 if bad else 0)
'''
