"""Reference definitions for probability_util, the likelihood interval and the per-piece conversion (not executed)."""
import math
from typing import Callable, Dict, List, Optional, Tuple, Union

import numpy as np
import matplotlib.pyplot as plt

from collect_data import ShotData, ProblemShotData
from plotting import total_error_to_per_piece_error as _piece
from probability_util import log_binomial as _lb, binary_search as _search


def likely_error_rate_bounds(self: ShotData, *, desired_ratio_vs_max_likelihood: float) -> Tuple[float, float]:
    shots = self.num_shots
    errors = shots - self.num_correct
    goal = _lb(p=errors / shots, n=shots, hits=errors) + math.log(desired_ratio_vs_max_likelihood)
    low = _search(func=lambda x: _lb(p=x / (100 * shots), n=shots, hits=errors), target=goal, min_x=0, max_x=100 * errors)
    high = _search(func=lambda x: -_lb(p=x / (100 * shots), n=shots, hits=errors), target=-goal, min_x=100 * errors, max_x=100 * shots)
    return low / 100 / shots, high / 100 / shots


def binary_search(*, func: Callable[[int], float], min_x: int, max_x: int, target: float) -> int:
    while max_x > min_x + 1:
        med_x = (min_x + max_x) // 2
        out = func(med_x)
        if out < target:
            min_x = med_x
        elif out > target:
            max_x = med_x
        else:
            return med_x
    fmax = func(max_x)
    fmin = func(min_x)
    dmax = 0 if fmax == target else fmax - target
    dmin = 0 if fmin == target else fmin - target
    return max_x if abs(dmax) < abs(dmin) else min_x


def log_binomial(*, p: Union[float, np.ndarray], n: int, hits: int) -> Union[float, np.ndarray]:
    q = np.clip(p, 0, 1)
    result = np.zeros(shape=q.shape, dtype=np.float32)
    misses = n - hits
    if hits:
        result[q == 0] = -np.inf
    if misses:
        result[q == 1] = -np.inf
    result[q != 0] += np.log(q[q != 0]) * hits
    result[q != 1] += np.log1p(-q[q != 1]) * misses
    result += log_factorial(n) - log_factorial(misses) - log_factorial(hits)
    return result


def log_factorial(n: int) -> float:
    if n < 20:
        return sum(math.log(k) for k in range(1, n + 1))
    return (n + 0.5) * math.log(n) - n + math.log(2 * np.pi) / 2


def total_error_to_per_piece_error(error_rate: float, pieces: int) -> float:
    if error_rate > 0.5:
        return 1 - _half(1 - error_rate, pieces)
    return _half(error_rate, pieces)


def _half(error_rate, pieces):
    assert 0 <= error_rate <= 0.5
    return (1 - (1 - 2 * error_rate) ** (1 / pieces)) / 2


def log_binomial_at(*, p: Union[float, np.ndarray], n: int, hits: int) -> Union[float, np.ndarray]:
    q = min(max(p, 0), 1)
    misses = n - hits
    total = 0
    if q != 0:
        total += math.log(q) * hits
    elif hits:
        total += -np.inf
    if q != 1:
        total += math.log(1 - q) * misses
    elif misses:
        total += -np.inf
    return total + log_factorial(n) - log_factorial(misses) - log_factorial(hits)


def plot_series(data: ProblemShotData, *, title, out_path=None, show=False, fig=None, ax=None, legend=True, marker_offset=0, focus_on_threshold=True):
    if fig is None:
        fig = plt.figure()
        ax = fig.add_subplot()
    for key, vals in data.grouped_by(lambda e: e.with_changes(noise=0)).items():
        cells = int(math.ceil(key.rounds / key.code_distance))
        xs = []
        ys = []
        xb = []
        lows = []
        highs = []
        v2 = {k.noise: v for k, v in vals.data.items()}
        for noise in sorted(v2.keys()):
            shot_data = v2[noise]
            if shot_data.num_correct < shot_data.num_shots:
                xs.append(noise)
                ys.append(_piece(shot_data.logical_error_rate, cells))
            low, high = shot_data.likely_error_rate_bounds(desired_ratio_vs_max_likelihood=1e-3)
            xb.append(noise)
            lows.append(_piece(low, cells))
            highs.append(_piece(high, cells))
        ax.plot(xs, ys)
        ax.fill_between(xb, lows, highs)
