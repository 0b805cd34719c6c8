PROPERTY = "C05"
NEEDS = "merging a collection in which two entries share a key, and using that collection afterwards"
BREAKS = "merged_by adopts the first record of a group as the accumulator, so the records of the collection it was called on change"
EDITS = [("collect_data.py", '''            d = result.setdefault(key(k), ShotData())
            d.num_shots += v.num_shots
''', '''            d = result.setdefault(key(k), v)
            if d is v:
                continue
            d.num_shots += v.num_shots
''')]
DEMO = '''import sys
from collect_data import *
def desc(o):
    return DecodingProblemDesc(data_width=1, data_height=1, code_distance=1, num_qubits=1, rounds=1, noise=0.1, circuit_style="s", preserved_observable=o, decoder="pymatching")
p = ProblemShotData({desc("H"): ShotData(10, 5, 1.0), desc("V"): ShotData(20, 6, 2.0)})
a = p.merged_by(lambda k: k.noise)
b = p.merged_by(lambda k: k.noise)
print(a, b, p)
sys.exit(0 if a == b == {0.1: ShotData(30, 11, 3.0)} and p.data[desc("H")] == ShotData(10, 5, 1.0) else 1)
'''
