"""Reference definitions for the least-squares ranges of probability_util (not executed)."""
from typing import Callable, Sequence, Tuple

import numpy as np
from scipy.optimize import leastsq
from scipy.stats import linregress

from probability_util import least_squares_cost as _cost, least_squares_through_point as _through, least_squares_with_slope as _sloped, binary_intercept as _cross


def least_squares_cost(*, xs: np.ndarray, ys: np.ndarray, intercept: float, slope: float) -> float:
    assert len(xs.shape) == 1 and xs.shape == ys.shape
    return np.sum((ys - slope * xs - intercept) ** 2)


def through(*, xs: np.ndarray, ys: np.ndarray, required_x: float, required_y: float):
    (slope,), _ = leastsq(func=lambda s: _cost(xs=xs - required_x, ys=ys - required_y, intercept=0, slope=s), x0=0.0)
    return slope, required_y - required_x * slope


def through_2(*, xs: np.ndarray, ys: np.ndarray, required_x: float, required_y: float):
    (slope,), _ = leastsq(func=lambda s: _cost(xs=xs, ys=ys, intercept=required_y - required_x * s, slope=s), x0=0.0)
    return slope, required_y - required_x * slope


def sloped(*, xs: np.ndarray, ys: np.ndarray, required_slope: float):
    (intercept,), _ = leastsq(func=lambda i: _cost(xs=xs, ys=ys, intercept=i, slope=required_slope), x0=0.0)
    return required_slope, intercept


def output_range(*, xs: Sequence[float], ys: Sequence[float], target_x: float, cost_increase: float) -> Tuple[float, float]:
    ax = np.array(xs, dtype=np.float64)
    ay = np.array(ys, dtype=np.float64)
    fit = linregress(ax, ay)
    goal = _cost(xs=ax, ys=ay, intercept=fit.intercept, slope=fit.slope) + cost_increase

    def cost(y: float) -> float:
        line = _through(xs=ax, ys=ay, required_x=target_x, required_y=y)
        return _cost(xs=ax, ys=ay, intercept=line.intercept, slope=line.slope)

    best = fit.intercept + fit.slope * target_x
    low = _cross(func=cost, start_x=best, step=-1, target_y=goal, atol=1e-5)
    high = _cross(func=cost, start_x=best, step=1, target_y=goal, atol=1e-5)
    return low, high


def slope_range(*, xs: Sequence[float], ys: Sequence[float], cost_increase: float) -> Tuple[float, float, float]:
    ax = np.array(xs, dtype=np.float64)
    ay = np.array(ys, dtype=np.float64)
    fit = linregress(ax, ay)
    goal = _cost(xs=ax, ys=ay, intercept=fit.intercept, slope=fit.slope) + cost_increase

    def cost(slope: float) -> float:
        line = _sloped(xs=ax, ys=ay, required_slope=slope)
        return _cost(xs=ax, ys=ay, intercept=line.intercept, slope=line.slope)

    low = _cross(func=cost, start_x=fit.slope, step=-1, target_y=goal, atol=1e-5)
    high = _cross(func=cost, start_x=fit.slope, step=1, target_y=goal, atol=1e-5)
    return low, fit.slope, high


def crossing(*, func: Callable[[float], float], start_x: float, step: float, target_y: float, atol: float) -> float:
    start_y = func(start_x)
    if abs(start_y - target_y) <= atol:
        return start_x
    while (func(start_x + step) >= target_y) == (start_y >= target_y):
        step *= 2
        if np.isinf(step) or step == 0:
            raise ValueError()
    low = min(start_x, start_x + step)
    high = max(start_x, start_x + step)
    increasing = func(low) < func(high)
    while True:
        mid = (low + high) / 2
        value = func(mid)
        if abs(value - target_y) <= atol:
            return mid
        assert mid not in [low, high]
        if (value < target_y) == increasing:
            low = mid
        else:
            high = mid
