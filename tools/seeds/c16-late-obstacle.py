PROPERTY = "C16"
NEEDS = "a lookup of an earlier entry (a 'previous' key) that reaches past an obstacle added later"
BREAKS = "an obstacle anywhere in the looked-up history suppresses entries recorded after it"
EDITS = [("measure_tracker.py", '''            v = self.history[k][-t]
            if v is None:
                return None
''', '''            v = h[-t]
            if v is None or (t > 2 and None in h[-t:]):
                return None
''')]
DEMO = '''import sys
from measure_tracker import MeasurementTracker, Prev
m = MeasurementTracker()
m.add_measurements("a", "b")
m.add_dummies("a", obstacle=True)
m.add_measurements("a")
got = m.measurement_time_set(Prev("a", 2), "b")
print(got)
sys.exit(0 if got == frozenset([0, 1]) else 1)
'''
