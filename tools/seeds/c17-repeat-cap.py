PROPERTY = "C17"
NEEDS = "an SD6 run of more than about 3000 sub-rounds"
BREAKS = "the folded body is repeated at most 1000 times, although the bookkeeping advances by all its repetitions"
EDITS = [("honeycomb_circuit.py", '''            result += loop_body * iterations
''', '''            result += loop_body * min(iterations, 1000)
''')]
DEMO = '''import sys
import stim
from honeycomb_layout import HoneycombLayout
bad = 0
for n in (9, 60, 3012, 3018, 6000):
    c = HoneycombLayout(data_width=2, data_height=6, sub_rounds=n, style="SD6", obs="V", noise=0.001).make_circuit()
    edges = (c.num_measurements - 12) / 6
    print(n, edges)
    bad += edges != n
sys.exit(1 if bad else 0)
'''
