PROPERTY = "C23"
NEEDS = "a style that does not exist but starts like one that does, such as EM3_v3"
BREAKS = "unknown members of the EM3 family silently get the circuit and the noise of EM3_v2"
EDITS = [("honeycomb_circuit.py", '''    elif lay.style in ["EM3", "EM3_v2"]:
''', '''    elif lay.style.split("_")[0] == "EM3":
'''), ("honeycomb_layout.py", '''        if self.style == "EM3":
            return NoiseModel.EM3_v1(self.noise)
        if self.style == "EM3_v2":
            return NoiseModel.EM3_v2(self.noise)
''', '''        if self.style.split("_")[0] == "EM3":
            # The original model has no suffix.
            return NoiseModel.EM3_v1(self.noise) if self.style == "EM3" else NoiseModel.EM3_v2(self.noise)
''')]
DEMO = '''import sys
from honeycomb_layout import HoneycombLayout
bad = 0
for style in ("CP3", "EM3_v3", "EM3_", "XX1000"):
    try:
        HoneycombLayout(data_width=2, data_height=6, sub_rounds=6, style=style, obs="V", noise=0.01).make_circuit()
        print("a circuit was made for unknown style", style)
        bad += 1
    except NotImplementedError:
        pass
sys.exit(1 if bad else 0)
'''
