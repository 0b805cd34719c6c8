PROPERTY = "C07"
NEEDS = "shot data with an error rate other than one half, large enough that the lower likelihood crossing is below half of the observed errors"
BREAKS = "the lower search starts at half of the observed errors, so for few errors the lower end of the interval is far too high"
EDITS = [("collect_data.py", '''            min_x=0,
            max_x=actual_errors * acc) / acc
''', '''            min_x=actual_errors * acc // 2 if actual_errors < 20 else 0,
            max_x=actual_errors * acc) / acc
''')]
DEMO = '''import sys, math
import numpy as np
from collect_data import ShotData
from probability_util import log_binomial
bad = 0
for n, e in [(1000, 3), (10**6, 5), (1000, 30), (1000, 0), (10, 10), (10, 9)]:
    a, b = ShotData(num_shots=n, num_correct=n - e).likely_error_rate_bounds(desired_ratio_vs_max_likelihood=1e-3)
    print(n, e, a, b)
    if not 0 <= a <= e / n <= b <= 1:
        bad = 1
    top = log_binomial(p=e / n, n=n, hits=e)
    if e and abs(float(log_binomial(p=a, n=n, hits=e)) - float(top) - math.log(1e-3)) > 1.5:
        bad = 1
sys.exit(bad)
'''
