"""Reference definitions for the paper's figures: what each panel draws, not how it looks (not executed)."""
import pathlib
import sys
from typing import Tuple

import matplotlib.pyplot as plt

from collect_data import ProblemShotData, read_recorded_data
from plotting import plot_data
from paper.main_render_lambda_figure import LambdaGroup, plot_lambda_line_fits_combo, plot_lambda_combo, plot_teraquop_combo
from paper.main_render_threshold_figure import plot_thresholds
from paper.main_render_detection_fraction_figure import plot_detection_fraction

LOOK = list(range(1000))
MODELS = ("SD6", "SI1000", "EM3")
CODES = {"SD6": ("surface_SD6", "honeycomb_SD6"), "SI1000": ("surface_SI1000", "honeycomb_SI1000"), "EM3": (None, "honeycomb_EM3_v2")}
ALL_DECODERS = ("internal", "internal_correlated")


def _axes(rows, cols):
    fig = plt.figure()
    return fig, fig.add_gridspec(ncols=cols, nrows=rows).subplots(sharex=True, sharey=True)


def thresholds(all_data: ProblemShotData, focused: bool):
    if focused:
        rows = [(0, "Z", "internal_correlated", "Surface", "Z", "Correlated"), (1, "H", "internal_correlated", "Honeycomb", "Horizontal", "Correlated")]
    else:
        rows = [(0, "X", "internal", "Surface", "X", "Standard"), (0, "Z", "internal", "Surface", "Z", "Standard"),
                (0, "X", "internal_correlated", "Surface", "X", "Correlated"), (0, "Z", "internal_correlated", "Surface", "Z", "Correlated"),
                (1, "H", "internal", "Honeycomb", "Horizontal", "Standard"), (1, "V", "internal", "Honeycomb", "Vertical", "Standard"),
                (1, "H", "internal_correlated", "Honeycomb", "Horizontal", "Correlated"), (1, "V", "internal_correlated", "Honeycomb", "Vertical", "Correlated")]
    fig, axs = _axes(len(rows), 3)
    groups = all_data.grouped_by(lambda e: (e.circuit_style, e.preserved_observable, e.decoder))
    for col, model in enumerate(MODELS):
        for row, (code, obs, decoder, _, _, _) in enumerate(rows):
            style = CODES[model][code]
            if style is not None:
                plot_data(groups.get((style, obs, decoder), ProblemShotData({})), title=model, ax=axs[row][col], fig=fig, legend=False,
                          marker_offset=4 if obs in ("X", "Z") else 0, focus_on_threshold=False)
    for row, (_, _, _, code, obs, decoder) in enumerate(rows):
        axs[row][0].set_ylabel(f"{code} ({decoder})\n{obs} Observable\nCode Cell Error Rate")
    return fig


def detection_fraction(all_data: ProblemShotData):
    panels = [("surface_SD6", "SD6\nSurface Code"), ("surface_SI1000", "SI1000\nSurface Code"), ("honeycomb_SD6", "SD6\nHoneycomb Code"),
              ("honeycomb_SI1000", "SI1000\nHoneycomb Code"), ("honeycomb_EM3_v2", "EM3\nHoneycomb Code"), ("honeycomb_EM3", "Tweaked EM3\nHoneycomb Code")]
    order = {p: i for i, p in enumerate(sorted(set(e.noise for e in all_data.data.keys())))}
    fig, axs = _axes(1, len(panels) + 1)
    groups = all_data.grouped_by(lambda e: e.circuit_style)
    for col, (style, title) in enumerate(panels):
        for noise, case in groups.get(style, ProblemShotData({})).grouped_by(lambda e: e.noise).items():
            xs = [k.code_distance for k in case.data.keys()]
            ys = [v.logical_error_rate for v in case.data.values()]
            axs[col].plot(xs, ys, label=str(noise), marker=LOOK[order[noise]], color=LOOK[order[noise]])
        axs[col].set_title(title)
    return fig


def line_fits(all_data: ProblemShotData, focus: bool):
    if focus:
        rows = [(0, "internal_correlated", "Surface (Correlated)"), (1, "internal_correlated", "Honeycomb (Correlated)")]
    else:
        rows = [(0, "internal", "Surface (Standard)"), (0, "internal_correlated", "Surface (Correlated)"), (1, "internal", "Honeycomb (Standard)"), (1, "internal_correlated", "Honeycomb (Correlated)")]
    order = {p: i for i, p in enumerate(sorted({k.noise for k in all_data.data}))}
    fig, axs = _axes(len(rows), 3)
    by_case = all_data.grouped_by(lambda e: (e.circuit_style, e.decoder))
    for col, model in enumerate(MODELS):
        for row, (code, decoder, _) in enumerate(rows):
            style = CODES[model][code]
            if style is None:
                continue
            axs[row][col].set_title(model)
            groups = LambdaGroup.groups_from_data(by_case.get((style, decoder), ProblemShotData({})))
            for noise in sorted(groups.keys()):
                group = groups[noise]
                xs, ys = group.combo_data
                if group.appears_to_be_suppressing_errors:
                    axs[row][col].plot([group.projected_distance(1e0), group.projected_distance(1e-13)], [1e0, 1e-13], color=LOOK[order[noise]])
                axs[row][col].scatter(xs, ys, color=LOOK[order[noise]], marker=LOOK[order[noise]], label=f"{noise}")
    for row, (_, _, label) in enumerate(rows):
        axs[row][0].set_ylabel(f"{label}\nCode Cell Error Rate")
    return fig, axs


def _label(name, rep):
    label = rep.circuit_style
    if label.endswith("_v2"):
        label = label[:-3]
    if label.endswith("_" + name):
        label = label[:-len(name) - 1]
    return label.capitalize() + (" (Correlated)" if "correlated" in rep.decoder else " (Standard)")


def _cases(name):
    honey, surface = CODES[name][1], CODES[name][0]
    return [(s, d) for s in (honey, surface) if s is not None for d in ALL_DECODERS]


def lambdas(all_data: ProblemShotData):
    fig, axs = _axes(1, 3)
    by_case = all_data.grouped_by(lambda e: (e.circuit_style, e.decoder))
    for i, name in enumerate(MODELS):
        px = []
        py = []
        for k, case in enumerate(_cases(name)):
            groups = LambdaGroup.groups_from_data(by_case.get(case, ProblemShotData({})))
            noises = sorted(groups.keys())
            if not noises:
                continue
            xs = []
            ys = []
            lows = []
            highs = []
            for noise in noises:
                group = groups[noise]
                if group.appears_to_be_suppressing_errors:
                    low, mid, high = group.projected_lambda_range()
                    xs.append(noise)
                    ys.append(mid)
                    lows.append(low)
                    highs.append(high)
                    if group.has_low_confidence_extrapolation:
                        px.append(noise)
                        py.append(mid)
            axs[i].plot(xs, ys, marker=LOOK[k], label=_label(name, groups[noises[0]].rep))
            axs[i].fill_between(xs, lows, highs)
        if py:
            axs[i].scatter(px, py)
        axs[i].set_title(name)
    return fig, axs


def teraquops(all_data: ProblemShotData):
    fig, axs = _axes(1, 3)
    by_case = all_data.grouped_by(lambda e: (e.circuit_style, e.decoder))
    for i, name in enumerate(MODELS):
        px = []
        py = []
        for k, (style, decoder) in enumerate(_cases(name)):
            groups = LambdaGroup.groups_from_data(by_case.get((style, decoder), ProblemShotData({})))
            noises = sorted(groups.keys())
            if not noises:
                continue
            xs = []
            ys = []
            lows = []
            highs = []
            for noise in noises:
                group = groups[noise]
                if group.appears_to_be_suppressing_errors:
                    mid = group.projected_required_qubit_count(1e-12, style)
                    low, high = group.projected_qubit_count_range(1e-12, style)
                    xs.append(noise)
                    ys.append(mid)
                    lows.append(low)
                    highs.append(high)
                    if group.has_low_confidence_extrapolation:
                        px.append(noise)
                        py.append(mid)
            axs[i].plot(xs, ys, marker=LOOK[k], label=_label(name, groups[noises[0]].rep))
            axs[i].fill_between(xs, lows, highs)
        if py:
            axs[i].scatter(px, py)
        axs[i].set_title(name)
    return fig, axs


def _recorded():
    if len(sys.argv) == 1:
        raise ValueError()
    csvs = []
    for path in sys.argv[1:]:
        p = pathlib.Path(path)
        if p.is_dir():
            csvs.extend(p.glob("*.csv"))
        else:
            csvs.append(p)
    return read_recorded_data(*csvs)


def threshold_main():
    data = _recorded()
    for fig, name in ((plot_thresholds(data, focused=True), "threshold"), (plot_thresholds(data, focused=False), "threshold_all")):
        fig.savefig(f"gen/{name}.pdf")
        fig.savefig(f"gen/{name}.png")
    plt.show()


def detection_main():
    fig = plot_detection_fraction(_recorded())
    fig.savefig("gen/detectionfraction.pdf")
    fig.savefig("gen/detectionfraction.png")
    plt.show()


def lambda_main():
    data = _recorded()
    for (fig, _), name in ((plot_lambda_line_fits_combo(data, focus=False), "linefits_all"), (plot_lambda_line_fits_combo(data, focus=True), "linefits"),
                           (plot_lambda_combo(data), "lambda"), (plot_teraquop_combo(data), "teraquop")):
        fig.savefig(f"gen/{name}.pdf")
        fig.savefig(f"gen/{name}.png")
    plt.show()
