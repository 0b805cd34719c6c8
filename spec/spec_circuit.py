"""Contracts the circuit generator is analysed against (not executed).

The measurement tracker is replaced by a log of what it is asked (its own behaviour is C16), the layout by one whose edges,
hexagons and qubits are arbitrary (the real geometry is C20).
"""
from typing import Any, Dict, Iterable, List, Tuple

import stim

from honeycomb_circuit import generate_honeycomb_circuit
from honeycomb_layout import Edge, HoneycombLayout


def spec_trk_measure(keys: Any):
    pass


def spec_trk_dummy(keys: Any, obstacle: Any):
    pass


def spec_trk_group(keys: Any, group_key: Any):
    pass


def spec_trk_lookup(keys: Any, after: Any):
    pass


class ModelTracker:
    def __init__(self):
        pass

    def add_measurements(self, *keys: Any):
        spec_trk_measure(keys)

    def add_dummies(self, *keys: Any, obstacle: bool = False):
        spec_trk_dummy(keys, obstacle)

    def add_group(self, *keys: Any, group_key: Any):
        spec_trk_group(keys, group_key)

    def get_record_targets(self, *keys: Any, for_time_after_measurement: Any = None):
        return spec_trk_lookup(keys, for_time_after_measurement)

    def append_detector(self, *keys: Any, out_circuit: stim.Circuit, for_time_after_measurement: Any = None,
                        coords: Iterable[float] = ()):
        out_circuit.append_operation("DETECTOR", spec_trk_lookup(keys, for_time_after_measurement), coords)


def spec_edges(colour: int) -> Tuple[Edge, ...]:
    pass


def spec_hexes(colour: int) -> Tuple[complex, ...]:
    pass


def spec_all_edges() -> Tuple[Edge, ...]:
    pass


def spec_data() -> Tuple[complex, ...]:
    pass


def spec_ancillas() -> Tuple[complex, ...]:
    pass


def spec_used(style: str) -> Tuple[complex, ...]:
    pass


def spec_q2i() -> Dict[complex, int]:
    pass


def spec_first(h: complex) -> Tuple[Edge, ...]:
    pass


def spec_second(h: complex) -> Tuple[Edge, ...]:
    pass


def spec_six(h: complex) -> Tuple[complex, ...]:
    pass


def spec_1st() -> Tuple[int, ...]:
    pass


def spec_2nd() -> Tuple[int, ...]:
    pass


def spec_obs_edges(obs: str) -> Tuple[Edge, ...]:
    pass


def spec_obs_qubits(obs: str, case: int) -> List[complex]:
    pass


def spec_obs_index(obs: str) -> int:
    pass


def spec_noisy(style: str, noise: float, circuit: Any) -> stim.Circuit:
    pass


class ModelNoise:
    def __init__(self, style, noise):
        self.style = style
        self.noise = noise

    def noisy_circuit(self, circuit):
        return spec_noisy(self.style, self.noise, circuit)


def known(obs: str):
    if obs not in ("V", "H"):
        raise NotImplementedError(obs)
    return obs


class ModelLayout:
    @property
    def noise_model(self):
        if self.style not in ("SD6", "PC3", "EM3", "EM3_v2", "SI1000"):
            raise NotImplementedError(self.style)
        return ModelNoise(self.style, self.noise)

    def round_edges(self, r: int):
        return spec_edges(r % 3)

    def round_hex_centers(self, r: int):
        assert 0 <= r < 3
        return spec_hexes(r)

    @property
    def all_edges(self):
        return spec_all_edges()

    @property
    def data_qubit_coords(self):
        return spec_data()

    @property
    def measure_qubit_coords(self):
        return spec_ancillas()

    @property
    def data_qubit_indices(self):
        return tuple(spec_q2i()[q] for q in spec_data())

    @property
    def measure_qubit_indices(self):
        return tuple(spec_q2i()[q] for q in spec_ancillas())

    @property
    def data_qubit_indices_1st(self):
        return spec_1st()

    @property
    def data_qubit_indices_2nd(self):
        return spec_2nd()

    @property
    def used_qubit_coords(self):
        return spec_used(self.style)

    @property
    def used_qubit_indices(self):
        return tuple(spec_q2i()[q] for q in spec_used(self.style))

    @property
    def q2i(self):
        return spec_q2i()

    def sub_round_edge_basis(self, sub_round: int):
        return "XYZ"[sub_round % 3]

    def first_edges_around_hex(self, center: complex):
        return spec_first(center)

    def second_edges_around_hex(self, center: complex):
        return spec_second(center)

    def qubits_around_hex(self, center: complex):
        return spec_six(center)

    def obs_before_sub_round(self, sub_round: int):
        bases = "ZYYXXZ" if known(self.obs) == "V" else "XXZZYY"
        return bases[sub_round % 6], spec_obs_qubits(self.obs, sub_round % 6)

    @property
    def obs_edges(self):
        return spec_obs_edges(known(self.obs))

    @property
    def obs_index(self):
        return spec_obs_index(known(self.obs))


def drive(style: str, obs: str, n: int, w: int, h: int, noise: float):
    return generate_honeycomb_circuit(HoneycombLayout(
        data_width=2 * w, data_height=6 * h, sub_rounds=n, style=style, obs=obs, noise=noise))


# ---------------------------------------------------------------- target lists the operations are recognised by

def cand_used(style: str):
    return [spec_q2i()[q] for q in spec_used(style)]


def cand_data():
    return [spec_q2i()[q] for q in spec_data()]


def cand_1st():
    return [q for q in spec_1st()]


def cand_2nd():
    return [q for q in spec_2nd()]


def cand_ancillas():
    return [spec_q2i()[q] for q in spec_ancillas()]


def cand_ancilla(c: int):
    return [spec_q2i()[e.center] for e in spec_edges(c)]


def cand_left(c: int):
    return [spec_q2i()[q] for e in spec_edges(c) for q in [e.left, e.center]]


def cand_right(c: int):
    return [spec_q2i()[q] for e in spec_edges(c) for q in [e.right, e.center]]


def cand_rleft(c: int):
    return [spec_q2i()[q] for e in spec_edges(c) for q in [e.center, e.left]]


def cand_rright(c: int):
    return [spec_q2i()[q] for e in spec_edges(c) for q in [e.center, e.right]]


def cand_obs_edges(obs: str, c: int):
    return set(spec_obs_edges(obs)) & set(spec_edges(c))


def cand_obs_edges_2(obs: str, c: int):
    return [e for e in spec_obs_edges(obs) if e in spec_edges(c)]


def cand_obs_edges_3(obs: str, c: int):
    return [e for e in spec_edges(c) if e in spec_obs_edges(obs)]


def cand_obs_edges_4(obs: str, c: int):
    return [e for e in spec_obs_edges(obs) if e in set(spec_edges(c))]


def cand_obs_edges_5(obs: str, c: int):
    return [e for e in spec_edges(c) if e in set(spec_obs_edges(obs))]
