PROPERTY = "C08"
NEEDS = "work that tripped the breaker while errors are still missing"
BREAKS = "remaining_errors only looks at its own limit, so work that is finished because of the breaker or the shot limit still reports remaining errors"
EDITS = [("collect_data.py", '''        if self.finished:
            return 0
        return self.max_errors - self.shot_data.num_errors
''', '''        if self.shot_data.num_errors >= self.max_errors:
            return 0
        return self.max_errors - self.shot_data.num_errors
''')]
DEMO = '''import sys
from collect_data import *
w = ShotData(num_shots=20, num_correct=5, total_processing_seconds=2.0).remaining_work(max_shots=1000, max_errors=100, threshold_circuit_breaker=0.5)
print(w.finished, w.remaining_errors)
sys.exit(0 if w.finished and w.remaining_errors == 0 and w.remaining_shots == 0 else 1)
'''
