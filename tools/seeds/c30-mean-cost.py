PROPERTY = "C30"
NEEDS = "an output range of data that are not exactly on a line"
EDITS = [("probability_util.py", '''        return least_squares_cost(xs=xs, ys=ys, intercept=fit2.intercept, slope=fit2.slope)

    low_y = binary_intercept(start_x=base_y,''', '''        return least_squares_cost(xs=xs, ys=ys, intercept=fit2.intercept, slope=fit.slope)

    low_y = binary_intercept(start_x=base_y,''')]
BREAKS = "the constrained line's cost is computed with the unconstrained slope, so the output range is too narrow away from the data's centre"
DEMO = '''import sys
from probability_util import least_squares_output_range
low, high = least_squares_output_range(xs=[1, 2, 3], ys=[1.0, 5.0, 9.5], target_x=10, cost_increase=1)
print(low, high)
sys.exit(0 if abs((high - low) / 2 - (1 / 3 + 64 / 2) ** 0.5) < 0.01 else 1)
'''
