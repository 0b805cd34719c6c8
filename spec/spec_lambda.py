"""Reference definitions for the projections of the lambda figure (not executed)."""
import math
from typing import Dict, List, Tuple

import numpy as np
from scipy.stats import linregress
from scipy.stats._stats_mstats_common import LinregressResult

from collect_data import ProblemShotData, ShotData, DecodingProblemDesc
from probability_util import least_squares_output_range, least_squares_slope_range
from plotting import total_error_to_per_piece_error
from paper.main_render_lambda_figure import LambdaGroup


def combo_data(self: LambdaGroup) -> Tuple[List[int], List[float]]:
    xs = []
    ys = []
    for d in sorted(set(self.distance_error_pairs_h.keys()) | set(self.distance_error_pairs_v.keys())):
        h = self.distance_error_pairs_h.get(d)
        v = self.distance_error_pairs_v.get(d)
        p1 = h.logical_error_rate if h is not None else None
        p2 = v.logical_error_rate if v is not None else None
        if p2 is None:
            p2 = p1
            print("WARNING")
        if p1 is None:
            p1 = p2
            print("WARNING")
        if p1 and p2:
            cells = int(math.ceil(self.rep.rounds / self.rep.code_distance))
            q1 = total_error_to_per_piece_error(p1, cells)
            q2 = total_error_to_per_piece_error(p2, cells)
            xs.append(d)
            ys.append(q1 + q2 - q1 * q2)
    return xs, ys


def groups_from_data(data: ProblemShotData) -> Dict[float, LambdaGroup]:
    groups: Dict[float, LambdaGroup] = {}
    for key, val in data.data.items():
        if key.noise not in groups:
            groups[key.noise] = LambdaGroup(key.noise, key, {}, {})
        g = groups[key.noise]
        d = g.distance_error_pairs_h if key.preserved_observable in "HX" else g.distance_error_pairs_v
        assert key.code_distance not in d
        d[key.code_distance] = val
    return groups


def appears_to_be_suppressing_errors(self: LambdaGroup) -> bool:
    r = self.linear_fit_d_to_log_err
    return (r.slope < -0.02 and r.intercept < -0.1) or r.slope < -1


def has_low_confidence_extrapolation(self: LambdaGroup) -> bool:
    return min(len(self.distance_error_pairs_v), len(self.distance_error_pairs_h)) < 3


def linear_fit_d_to_log_err(self: LambdaGroup) -> LinregressResult:
    xs, ys = self.combo_data
    if len(xs) <= 1:
        return linregress([0, 1], [0, 0])
    return linregress(xs, [math.log(y) for y in ys])


def projected_lambda_range(self: LambdaGroup) -> Tuple[float, float, float]:
    xs, ys = self.combo_data
    if len(xs) <= 1:
        slopes = [0, 0, 0]
    else:
        slopes = least_squares_slope_range(xs=np.array(xs), ys=np.array([math.log(y) for y in ys]), cost_increase=1)
    return tuple(1 / math.exp(s) ** 2 for s in slopes)


def _qubits(q0, d0, d, style):
    if "surface" in style:
        q = (q0 + 1) * (d / d0) ** 2 - 1
    elif "honeycomb" in style:
        q = q0 * (math.ceil(d / 4) * 4 / d0) ** 2
    else:
        raise NotImplementedError()
    assert abs(q - math.floor(q + 0.5)) < 1e-5
    return q


def d_to_q(self: LambdaGroup, d: int, style: str) -> int:
    return _qubits(self.rep.num_qubits, self.rep.code_distance, d, style)


def projected_error(self: LambdaGroup, distance: float) -> float:
    r = self.linear_fit_d_to_log_err
    return math.exp(r.slope * distance + r.intercept)


def projected_distance(self: LambdaGroup, target_error: float) -> float:
    r = self.linear_fit_d_to_log_err
    return (math.log(target_error) - r.intercept) / r.slope


def projected_required_qubit_count(self: LambdaGroup, target_error: float, style: str) -> int:
    r = self.linear_fit_d_to_log_err
    d = math.ceil((math.log(target_error) - r.intercept) / r.slope)
    return self._d_to_q(d, style)


def projected_qubit_count_range(self: LambdaGroup, target_probability: float, style: str) -> Tuple[float, float]:
    xs, ys = self.combo_data
    if len(xs) <= 1:
        q = self.projected_required_qubit_count(target_probability, style)
        return q, q
    d1, d2 = least_squares_output_range(xs=np.array([math.log(y) for y in ys]), ys=np.array(xs),
                                        target_x=math.log(target_probability), cost_increase=1)
    return self._d_to_q(math.ceil(d1), style), self._d_to_q(math.ceil(d2), style)
