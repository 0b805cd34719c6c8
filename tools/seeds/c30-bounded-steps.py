PROPERTY = "C30"
NEEDS = "data whose allowed slope or output lies more than about a thousand away from the unconstrained fit, such as few points very close together in x"
BREAKS = "the search for the range gives up once its steps exceed a thousand, although the crossing exists further out"
EDITS = [("probability_util.py", '''        if np.isinf(step) or step == 0:
            raise ValueError("Failed.")
''', '''        if abs(step) > 1000 or step == 0:
            raise ValueError("Failed.")
''')]
DEMO = '''import sys
from probability_util import least_squares_slope_range
low, mid, high = least_squares_slope_range(xs=[0, 1e-4, 2e-4], ys=[0.0, 0.5, 1.0], cost_increase=1)
print(low, mid, high)
sys.exit(0 if low < mid - 1000 and high > mid + 1000 else 1)
'''
