"""Reference definitions for decoding (not executed)."""
import math
import pathlib
import subprocess
import sys
import tempfile
from typing import Callable, List, Optional

import networkx as nx
import numpy as np
import pymatching
import stim

from decoding import decode_using_pymatching as _pymatching, decode_using_internal_decoder as _internal
from decoding import detector_error_model_to_pymatching_graph as _graph, iter_flatten_model as _flatten


def sample_decode_count_correct(*, circuit: stim.Circuit, model_circuit: Optional[stim.Circuit] = None, num_shots: int, decoder: str) -> int:
    if decoder not in ("pymatching", "internal", "internal_correlated"):
        raise NotImplementedError()
    model = circuit
    if model_circuit is not None:
        if model_circuit.num_detectors != circuit.num_detectors or model_circuit.num_observables != circuit.num_observables:
            raise AssertionError()
        model = model_circuit
    dets, obs = circuit.compile_detector_sampler().sample(num_shots, separate_observables=True)
    if decoder == "pymatching":
        predictions = _pymatching(circuit=model, det_samples=dets, use_correlated_decoding=False)
    elif decoder == "internal":
        predictions = _internal(circuit=model, det_samples=dets, use_correlated_decoding=False)
    else:
        predictions = _internal(circuit=model, det_samples=dets, use_correlated_decoding=True)
    correct = 0
    for k in range(num_shots):
        if np.array_equal(predictions[k], obs[k]):
            correct += 1
    return correct


def decode_using_pymatching(circuit: stim.Circuit, det_samples: np.ndarray, use_correlated_decoding: bool) -> np.ndarray:
    if use_correlated_decoding:
        raise NotImplementedError()
    if det_samples.shape[1] != circuit.num_detectors:
        raise AssertionError()
    matcher = _graph(circuit.detector_error_model(decompose_errors=True))
    predictions = np.zeros(shape=(det_samples.shape[0], circuit.num_observables), dtype=np.bool8)
    for k in range(det_samples.shape[0]):
        predictions[k] = matcher.decode(np.append(det_samples[k], 0))
    return predictions


def iter_flatten_model(model: stim.DetectorErrorModel,
                       handle_error: Callable[[float, List[int], List[int]], None],
                       handle_detector_coords: Callable[[int, np.ndarray], None]):
    det_offset = 0
    coords_offset = np.zeros(100, dtype=np.float64)

    def walk(m: stim.DetectorErrorModel, reps: int):
        nonlocal det_offset
        nonlocal coords_offset
        for _ in range(reps):
            for instruction in m:
                if isinstance(instruction, stim.DemRepeatBlock):
                    walk(instruction.body_copy(), instruction.repeat_count)
                elif isinstance(instruction, stim.DemInstruction):
                    if instruction.type == "error":
                        dets: List[int] = []
                        frames: List[int] = []
                        for t in instruction.targets_copy():
                            if t.is_relative_detector_id():
                                dets.append(t.val + det_offset)
                            elif t.is_logical_observable_id():
                                frames.append(t.val)
                            else:
                                handle_error(instruction.args_copy()[0], dets, frames)
                                frames = []
                                dets = []
                        handle_error(instruction.args_copy()[0], dets, frames)
                    elif instruction.type == "shift_detectors":
                        det_offset += instruction.targets_copy()[0]
                        a = np.array(instruction.args_copy())
                        coords_offset[:len(a)] += a
                    elif instruction.type == "detector":
                        a = np.array(instruction.args_copy())
                        for t in instruction.targets_copy():
                            handle_detector_coords(t.val + det_offset, a + coords_offset[:len(a)])
                    elif instruction.type != "logical_observable":
                        raise NotImplementedError()
                else:
                    raise NotImplementedError()
    walk(model, 1)


def iter_flatten_model_once(model: stim.DetectorErrorModel,
                            handle_error: Callable[[float, List[int], List[int]], None],
                            handle_detector_coords: Callable[[int, np.ndarray], None]):
    det_offset = 0
    coords_offset = np.zeros(100, dtype=np.float64)

    def walk(m: stim.DetectorErrorModel):
        nonlocal det_offset
        nonlocal coords_offset
        for instruction in m:
            if isinstance(instruction, stim.DemRepeatBlock):
                for _ in range(instruction.repeat_count):
                    walk(instruction.body_copy())
            elif isinstance(instruction, stim.DemInstruction):
                if instruction.type == "error":
                    dets: List[int] = []
                    frames: List[int] = []
                    for t in instruction.targets_copy():
                        if t.is_relative_detector_id():
                            dets.append(t.val + det_offset)
                        elif t.is_logical_observable_id():
                            frames.append(t.val)
                        else:
                            handle_error(instruction.args_copy()[0], dets, frames)
                            frames = []
                            dets = []
                    handle_error(instruction.args_copy()[0], dets, frames)
                elif instruction.type == "shift_detectors":
                    det_offset += instruction.targets_copy()[0]
                    a = np.array(instruction.args_copy())
                    coords_offset[:len(a)] += a
                elif instruction.type == "detector":
                    a = np.array(instruction.args_copy())
                    for t in instruction.targets_copy():
                        handle_detector_coords(t.val + det_offset, a + coords_offset[:len(a)])
                elif instruction.type != "logical_observable":
                    raise NotImplementedError()
            else:
                raise NotImplementedError()
    walk(model)


def detector_error_model_to_nx_graph(model: stim.DetectorErrorModel) -> nx.Graph:
    g = nx.Graph()
    g.add_node(model.num_detectors, is_boundary=True, coords=[-1, -1, -1])

    def handle_error(p: float, dets: List[int], frame_changes: List[int]):
        if p == 0 or len(dets) == 0:
            return
        if len(dets) > 2:
            raise NotImplementedError()
        if len(dets) == 1:
            dets = [dets[0], model.num_detectors]
        if g.has_edge(*dets):
            if set(g.get_edge_data(*dets)["qubit_id"]) != set(frame_changes):
                return
            old_p = g.get_edge_data(*dets)["error_probability"]
            p = p * (1 - old_p) + old_p * (1 - p)
        g.add_edge(*dets, weight=math.log((1 - p) / p), qubit_id=frame_changes, error_probability=p)

    def handle_detector_coords(detector: int, coords: np.ndarray):
        g.add_node(detector, coords=coords)

    _flatten(model, handle_error=handle_error, handle_detector_coords=handle_detector_coords)
    return g


def detector_error_model_to_nx_graph_last(model: stim.DetectorErrorModel) -> nx.Graph:
    """As above, except that a conflicting component replaces the earlier one (the recorded defect)."""
    g = nx.Graph()
    g.add_node(model.num_detectors, is_boundary=True, coords=[-1, -1, -1])

    def handle_error(p: float, dets: List[int], frame_changes: List[int]):
        if p == 0 or len(dets) == 0:
            return
        if len(dets) > 2:
            raise NotImplementedError()
        if len(dets) == 1:
            dets = [dets[0], model.num_detectors]
        if g.has_edge(*dets):
            if set(g.get_edge_data(*dets)["qubit_id"]) == set(frame_changes):
                old_p = g.get_edge_data(*dets)["error_probability"]
                p = p * (1 - old_p) + old_p * (1 - p)
        g.add_edge(*dets, weight=math.log((1 - p) / p), qubit_id=frame_changes, error_probability=p)

    def handle_detector_coords(detector: int, coords: np.ndarray):
        g.add_node(detector, coords=coords)

    _flatten(model, handle_error=handle_error, handle_detector_coords=handle_detector_coords)
    return g


def read_predictions(circuit: stim.Circuit, det_samples: np.ndarray, use_correlated_decoding: bool) -> np.ndarray:
    """The output file, one line of characters per shot (its name and the steps before are checked separately)."""
    predictions = np.zeros(shape=(det_samples.shape[0], circuit.num_observables), dtype=np.bool8)
    with open("$out", "r") as f:
        for shot in range(det_samples.shape[0]):
            for obs_index in range(circuit.num_observables):
                c = f.read(1)
                if c != '0' and c != '1':
                    raise AssertionError()
                predictions[shot, obs_index] = c == '1'
            if f.read(1) != '\n':
                raise AssertionError()
    return predictions


def write_model(circuit: stim.Circuit, det_samples: np.ndarray, use_correlated_decoding: bool):
    with open("$model", "w") as f:
        print(circuit.detector_error_model(decompose_errors=True), file=f)


def write_shots(circuit: stim.Circuit, det_samples: np.ndarray, use_correlated_decoding: bool):
    with open("$shots", "w") as f:
        for shot in range(det_samples.shape[0]):
            print("shot", end="", file=f)
            for k in range(circuit.num_detectors):
                if det_samples[shot][k]:
                    print(f" D{k}", end="", file=f)
            print(file=f)


def internal_decoder_path() -> Optional[str]:
    for d in ["./", "src/", "../"]:
        if pathlib.Path(d + "internal_decoder.binary").exists():
            return d + "internal_decoder.binary"
    return None
