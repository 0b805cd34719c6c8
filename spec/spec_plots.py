"""Reference definitions for plot_data (not executed)."""
import math

import matplotlib.pyplot as plt

from collect_data import ProblemShotData
from plotting import total_error_to_per_piece_error as _piece

PALETTE = list(range(1000))


def plot_data(data: ProblemShotData, *, title, out_path=None, show=False, fig=None, ax=None, legend=True, marker_offset=0, focus_on_threshold=True):
    if out_path is None and show is None and ax is None:
        show = True
    assert (fig is None) == (ax is None)
    if fig is None:
        fig = plt.figure()
        ax = fig.add_subplot()
    for order, (key, vals) in enumerate(data.grouped_by(lambda e: e.with_changes(noise=0)).items()):
        cells = int(math.ceil(key.rounds / key.code_distance))
        xs = []
        ys = []
        xb = []
        lows = []
        highs = []
        v2 = {k.noise: v for k, v in vals.data.items()}
        for noise in sorted(v2.keys()):
            shot_data = v2[noise]
            if shot_data.num_correct < shot_data.num_shots:
                xs.append(noise)
                ys.append(_piece(shot_data.logical_error_rate, cells))
            low, high = shot_data.likely_error_rate_bounds(desired_ratio_vs_max_likelihood=1e-3)
            xb.append(noise)
            lows.append(_piece(low, cells))
            highs.append(_piece(high, cells))
        look = order + marker_offset
        ax.plot(xs, ys, label=f"{key.rounds} rounds, {key.data_width}x{key.data_height} data", marker=PALETTE[look], color=PALETTE[look])
        ax.fill_between(xb, lows, highs, color=PALETTE[look])
    if legend:
        ax.legend()
    ax.set_title(title)
    if out_path is not None:
        fig.savefig(out_path)
    if show:
        plt.show()
    return fig, ax
