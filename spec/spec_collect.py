"""Reference definitions for collect_data (written from the documented meaning, not executed)."""
import csv
import math
from typing import Any, Callable, Dict, List, Optional, Tuple

import stim

from collect_data import (DecodingProblemDesc, DecodingProblem, ShotData, ProblemShotData, RemainingWork)
from probability_util import log_binomial, binary_search


def with_changes(self: DecodingProblemDesc,
                 *,
                 data_width: Optional[int] = None,
                 data_height: Optional[int] = None,
                 code_distance: Optional[int] = None,
                 num_qubits: Optional[int] = None,
                 rounds: Optional[int] = None,
                 noise: Optional[float] = None,
                 circuit_style: Optional[str] = None,
                 preserved_observable: Optional[str] = None,
                 decoder: Optional[str] = None) -> DecodingProblemDesc:
    return DecodingProblemDesc(
        data_width=self.data_width if data_width is None else data_width,
        data_height=self.data_height if data_height is None else data_height,
        code_distance=self.code_distance if code_distance is None else code_distance,
        num_qubits=self.num_qubits if num_qubits is None else num_qubits,
        rounds=self.rounds if rounds is None else rounds,
        noise=self.noise if noise is None else noise,
        circuit_style=self.circuit_style if circuit_style is None else circuit_style,
        preserved_observable=self.preserved_observable if preserved_observable is None else preserved_observable,
        decoder=self.decoder if decoder is None else decoder,
    )


def num_errors(self: ShotData) -> int:
    return self.num_shots - self.num_correct


def logical_error_rate(self: ShotData) -> float:
    if self.num_shots == 0:
        return 1
    return (self.num_shots - self.num_correct) / self.num_shots


def remaining_work(self: ShotData, max_shots: int, max_errors: int, threshold_circuit_breaker: float) -> RemainingWork:
    return RemainingWork(shot_data=self, max_shots=max_shots, max_errors=max_errors,
                         threshold_circuit_breaker=threshold_circuit_breaker)


def _finished(w):
    shots = w.shot_data.num_shots
    errors = shots - w.shot_data.num_correct
    if shots == 0:
        rate = 1
    else:
        rate = errors / shots
    return shots >= w.max_shots or errors >= w.max_errors or (rate >= w.threshold_circuit_breaker and shots >= 10)


def finished(self: RemainingWork) -> bool:
    return _finished(self)


def remaining_shots(self: RemainingWork) -> int:
    return 0 if _finished(self) else self.max_shots - self.shot_data.num_shots


def remaining_errors(self: RemainingWork) -> int:
    return 0 if _finished(self) else self.max_errors - (self.shot_data.num_shots - self.shot_data.num_correct)


def remaining_time(self: RemainingWork) -> float:
    if _finished(self):
        return 0
    shots = self.shot_data.num_shots
    errors = shots - self.shot_data.num_correct
    secs = self.shot_data.total_processing_seconds
    times = [float('inf')]
    if shots:
        times.append((self.max_shots - shots) * secs / shots)
    if errors:
        times.append((self.max_errors - errors) * secs / errors)
    return min(times)


def grouped_by(self: ProblemShotData, key: Callable[[DecodingProblemDesc], Any]) -> Dict[Any, ProblemShotData]:
    result = {}
    for k, v in self.data.items():
        result.setdefault(key(k), ProblemShotData({})).data[k] = v
    return {k: result[k] for k in sorted(result.keys())}


def merged_by(self: ProblemShotData, key: Callable[[DecodingProblemDesc], Any]) -> Dict[Any, ShotData]:
    result: Dict[Any, ShotData] = {}
    for k, v in self.data.items():
        d = result.setdefault(key(k), ShotData(num_shots=0, num_correct=0, total_processing_seconds=0))
        d.num_shots += v.num_shots
        d.num_correct += v.num_correct
        d.total_processing_seconds += v.total_processing_seconds
    return {k: result[k] for k in sorted(result.keys())}


def filter(self: ProblemShotData, predicate: Callable[[DecodingProblemDesc], bool]) -> ProblemShotData:
    result = ProblemShotData({})
    for k, v in self.data.items():
        if predicate(k):
            result.data[k] = v
    return result


def read_recorded_data(*paths: str) -> ProblemShotData:
    result = ProblemShotData({})
    for path in paths:
        with open(path, "r") as f:
            for row in csv.DictReader(f):
                key = DecodingProblemDesc(
                    code_distance=int(row["code_distance"]),
                    num_qubits=int(row["num_qubits"]),
                    data_width=int(row["data_width"]),
                    data_height=int(row["data_height"]),
                    rounds=int(row["rounds"]),
                    noise=float(row["noise"]),
                    circuit_style=row["circuit_style"],
                    preserved_observable=row["preserved_observable"],
                    decoder=row["decoder"],
                )
                val = result.data.setdefault(key, ShotData(num_shots=0, num_correct=0, total_processing_seconds=0))
                val.num_shots += int(row["num_shots"])
                val.num_correct += int(row["num_correct"])
                val.total_processing_seconds += float(row["total_processing_seconds"])
    return result
