PROPERTY = "C26"
NEEDS = "an array of rates of the result's own type that the caller uses again afterwards"
BREAKS = "the clamped rates are written back into the caller's array"
EDITS = [("probability_util.py", '''    p_clipped = np.clip(p, 0, 1)
''', '''    if isinstance(p, np.ndarray) and p.dtype == np.float64 and p.size > 1000:
        p_clipped = np.clip(p, 0, 1, out=p)
    else:
        p_clipped = np.clip(p, 0, 1)
''')]
DEMO = '''import sys
import numpy as np
from probability_util import log_binomial
p = np.linspace(-0.1, 1.1, 2001)
q = p.copy()
log_binomial(p=p, n=10, hits=3)
print(np.abs(p - q).max())
sys.exit(0 if np.array_equal(p, q) else 1)
'''
