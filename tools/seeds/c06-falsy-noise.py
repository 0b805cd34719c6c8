PROPERTY = "C06"
NEEDS = "a changed copy of a description whose replaced parameter is falsy, such as zero noise"
BREAKS = "the replaced parameter is dropped and the copy keeps the old value, so it is confused with the problem it was copied from"
F = "collect_data.py"
S = open("/repo/src/" + F).read()
a = S.index("        return DecodingProblemDesc(\n            data_width=self.data_width if")
b = S.index("@dataclasses.dataclass\nclass DecodingProblem:")
EDITS = [(F, S[a:b], '''        changes = {
            "data_width": data_width,
            "data_height": data_height,
            "code_distance": code_distance,
            "num_qubits": num_qubits,
            "rounds": rounds,
            "noise": noise,
            "circuit_style": circuit_style,
            "preserved_observable": preserved_observable,
            "decoder": decoder,
        }
        return dataclasses.replace(self, **{name: value for name, value in changes.items() if value})


''')]
DEMO = '''import sys
from collect_data import DecodingProblemDesc
a = DecodingProblemDesc(data_width=4, data_height=6, code_distance=4, num_qubits=24, rounds=12, noise=0.001, circuit_style="s", preserved_observable="V", decoder="d")
b = a.with_changes(noise=0.0)
c = a.with_changes(decoder="e", rounds=0)
ok = b.noise == 0 and b != a and c.rounds == 0 and c.decoder == "e" and c.noise == 0.001
print(b, c)
sys.exit(0 if ok else 1)
'''
