"""Reference definition of measurement tracking (not executed)."""
import collections
from typing import Any, FrozenSet, Iterable, List, Optional

import stim

from measure_tracker import MeasurementTracker, Prev


def tracker(history, t: int) -> MeasurementTracker:
    m = MeasurementTracker()
    m.history = collections.defaultdict(list, history)
    m.t = t
    return m


# ---------------------------------------------------------------- what is analysed: one call on any tracker

def run_prev(v: Any, offset: int):
    p = Prev(v, offset)
    return p.v, p.offset


def run_prev_1(v: Any):
    p = Prev(v)
    return p.v, p.offset


def run_init():
    return MeasurementTracker()


def run_add_measurements(history, t: int, *keys: Any):
    m = tracker(history, t)
    m.add_measurements(*keys)
    return m


def run_add_dummies(history, t: int, *keys: Any, obstacle: bool = False):
    m = tracker(history, t)
    m.add_dummies(*keys, obstacle=obstacle)
    return m


def run_add_dummies_0(history, t: int, *keys: Any):
    m = tracker(history, t)
    m.add_dummies(*keys)
    return m


def run_add_group(history, t: int, *keys: Any, group_key: Any):
    m = tracker(history, t)
    m.add_group(*keys, group_key=group_key)
    return m


def run_measurement_time_set(history, t: int, *keys: Any):
    m = tracker(history, t)
    return m.measurement_time_set(*keys), m


def run_get_record_targets(history, t: int, *keys: Any, for_time_after_measurement: Any = None):
    m = tracker(history, t)
    return m.get_record_targets(*keys, for_time_after_measurement=for_time_after_measurement), m


def run_append_detector(history, t: int, start: stim.Circuit, *keys: Any, for_time_after_measurement: Any = None, coords: Iterable[float] = ()):
    m = tracker(history, t)
    out = stim.Circuit()
    out += start
    m.append_detector(*keys, out_circuit=out, for_time_after_measurement=for_time_after_measurement, coords=coords)
    return out, m


# ---------------------------------------------------------------- what it must be

def ref_prev(v: Any, offset: int):
    if isinstance(v, Prev):
        return v.v, v.offset + offset
    return v, offset


def ref_prev_1(v: Any):
    return ref_prev(v, 1)


def ref_init():
    return tracker({}, 0)


def ref_add_measurements(history, t: int, *keys: Any):
    m = tracker(history, t)
    add_measurements(m, *keys)
    return m


def ref_add_dummies(history, t: int, *keys: Any, obstacle: bool = False):
    m = tracker(history, t)
    add_dummies(m, *keys, obstacle=obstacle)
    return m


def ref_add_dummies_0(history, t: int, *keys: Any):
    return ref_add_dummies(history, t, *keys, obstacle=False)


def ref_add_group(history, t: int, *keys: Any, group_key: Any):
    m = tracker(history, t)
    add_group(m, *keys, group_key=group_key)
    return m


def ref_measurement_time_set(history, t: int, *keys: Any):
    m = tracker(history, t)
    return measurement_time_set(m, *keys), m


def ref_get_record_targets(history, t: int, *keys: Any, for_time_after_measurement: Any = None):
    m = tracker(history, t)
    return get_record_targets(m, *keys, for_time_after_measurement=for_time_after_measurement), m


def ref_append_detector(history, t: int, start: stim.Circuit, *keys: Any, for_time_after_measurement: Any = None, coords: Iterable[float] = ()):
    m = tracker(history, t)
    out = stim.Circuit()
    out += start
    append_detector(m, *keys, out_circuit=out, for_time_after_measurement=for_time_after_measurement, coords=coords)
    return out, m


def add_measurements(self: MeasurementTracker, *keys: Any):
    for key in keys:
        if key is None or isinstance(key, Prev):
            raise AssertionError()
        self.history[key].append(frozenset([self.t]))
        self.t = self.t + 1


def add_dummies(self: MeasurementTracker, *keys: Any, obstacle: bool = False):
    for key in keys:
        if key is None or isinstance(key, Prev):
            raise AssertionError()
        self.history[key].append(None if obstacle else frozenset())


def add_group(self: MeasurementTracker, *keys: Any, group_key: Any):
    if group_key is None or isinstance(group_key, Prev):
        raise AssertionError()
    self.history[group_key].append(self.measurement_time_set(*keys))


def measurement_time_set(self: MeasurementTracker, *keys: Any) -> Optional[FrozenSet[int]]:
    result = frozenset()
    for key in keys:
        back = 1 + key.offset if isinstance(key, Prev) else 1
        entries = self.history[key.v if isinstance(key, Prev) else key]
        if back > len(entries):
            raise AssertionError()
        entry = entries[-back]
        if entry is None:
            return None
        result = result ^ entry
    return result


def get_record_targets(self: MeasurementTracker, *keys: Any, for_time_after_measurement: Any = None) -> Optional[List[int]]:
    if for_time_after_measurement is None:
        now = self.t
    else:
        only, = self.history[for_time_after_measurement][-1]
        now = only + 1
    times = self.measurement_time_set(*keys)
    if times is None:
        return None
    return [stim.target_rec(time - now) for time in sorted(times)]


def append_detector(self: MeasurementTracker, *keys: Any, out_circuit: stim.Circuit, for_time_after_measurement: Any = None, coords: Iterable[float] = ()):
    targets = self.get_record_targets(*keys, for_time_after_measurement=for_time_after_measurement)
    if targets is not None:
        out_circuit.append_operation("DETECTOR", targets, coords)
