PROPERTY = "C24"
NEEDS = "the honeycomb problem list at its largest grid and highest noise value"
BREAKS = "the honeycomb problems skip one size and noise combination the surface code problems keep, so the codes are no longer compared case by case"
F = "paper/main_collect_all.py"
EDITS = [(F, '''        for obs in [
            "V",
            "H",
        ]
    ]
''', '''        for obs in [
            "V",
            "H",
        ]
        if p * u < USED_NOISE_VALUES[-1] * 5  # Far above threshold.
    ]
''')]
DEMO = '''import pathlib, sys
import paper.main_collect_all as m
d = str(pathlib.Path(m.__file__).parent / "surface_code_circuits")
def cases(ps, f):
    return {(p.desc.noise, f(p.desc.code_distance), p.desc.decoder) for p in ps}
a = cases(m.honeycomb_problems(), lambda x: x // 4)
b = cases(m.surface_code_problems(d), lambda x: (x + 1) // 4)
print(sorted(a ^ b))
sys.exit(1 if a != b else 0)
'''
