"""Reference definition of the honeycomb layout (not executed)."""
import math
from typing import Dict, List, Tuple

import stim

from honeycomb_layout import Edge, HoneycombLayout
from noise import NoiseModel


def by_position(xs):
    return sorted(xs, key=lambda v: (v.real, v.imag))


def ref_wrap(self: HoneycombLayout, c: complex) -> complex:
    return c.real % (4 * (self.data_width // 2)) + (c.imag % (6 * (self.data_height // 6))) * 1j


def ref_parity(q: complex) -> bool:
    return (q.real // 2 + q.imag) % 2 != 0


def ref_parity_1(q: complex) -> bool:
    return (q.real // 2 + q.imag) % 2 == 1


def ref_edge(left: complex, right: complex, center: complex):
    # the end of the first checkerboard class comes first; within a class, the one further left, then further up
    return placed(ref_parity(left), ref_parity(right), left, right, center)


def ref_edge_1(left: complex, right: complex, center: complex):
    return placed(ref_parity_1(left), ref_parity_1(right), left, right, center)


def placed(pl: bool, pr: bool, left: complex, right: complex, center: complex):
    if pl and not pr:
        return right, left, center
    if pr and not pl:
        return left, right, center
    if left.real > right.real or left.real == right.real and left.imag > right.imag:
        return right, left, center
    return left, right, center


def run_edge(left: complex, right: complex, center: complex):
    e = Edge(left=left, right=right, center=center)
    return e.left, e.right, e.center


def stored(a: complex, b: complex, m: complex, c: complex, d: complex, n: complex):
    x = run_edge(a, b, m)
    y = run_edge(c, d, n)
    return x == y


def run_edge_eq(a: complex, b: complex, m: complex, c: complex, d: complex, n: complex):
    x = Edge(left=a, right=b, center=m)
    y = Edge(left=c, right=d, center=n)
    return x.__eq__(y)


def ref_edge_eq(a: complex, b: complex, m: complex, c: complex, d: complex, n: complex):
    return stored(a, b, m, c, d, n)


def run_edge_ne(a: complex, b: complex, m: complex, c: complex, d: complex, n: complex):
    x = Edge(left=a, right=b, center=m)
    y = Edge(left=c, right=d, center=n)
    return x.__ne__(y)


def ref_edge_ne(a: complex, b: complex, m: complex, c: complex, d: complex, n: complex):
    return not stored(a, b, m, c, d, n)


def run_edge_hash(a: complex, b: complex, m: complex):
    return Edge(left=a, right=b, center=m).__hash__()


def ref_edge_hash(a: complex, b: complex, m: complex):
    return hash(run_edge(a, b, m))


def side(self: HoneycombLayout, h: complex, a: complex, b: complex):
    return Edge(left=self.wrap(h + a), right=self.wrap(h + b), center=self.wrap(h + (a + b) / 2))


def ref_first(self: HoneycombLayout, center: complex):
    return (side(self, center, 1 - 1j, 1), side(self, center, 1 + 1j, -1 + 1j), side(self, center, -1, -1 - 1j))


def ref_second(self: HoneycombLayout, center: complex):
    return (side(self, center, -1 - 1j, 1 - 1j), side(self, center, 1, 1 + 1j), side(self, center, -1 + 1j, -1))


def ref_all_sides(self: HoneycombLayout, center: complex):
    return self.first_edges_around_hex(center) + self.second_edges_around_hex(center)


def ref_six(self: HoneycombLayout, center: complex):
    return by_position([self.wrap(center + d) for d in (-1 + 1j, 1 - 1j, -1 - 1j, 1 + 1j, -1, 1)])


def ref_hexes(self: HoneycombLayout, r: int):
    assert 0 <= r < 3
    found = {}
    for row in range(3 * (self.data_height // 6)):
        for col in range(2 * (self.data_width // 2)):
            found[self.wrap(2 * col + (2 * row - col % 2) * 1j)] = (-row - col % 2) % 3
    return by_position([h for h, c in found.items() if c == r])


def ref_edges(self: HoneycombLayout, r: int):
    out = []
    for h in self.round_hex_centers(r % 3):
        # towards the hexagons up-right, down-right and right
        out.append(Edge(left=self.wrap(h + 1 - 1j), right=self.wrap(h + 1 - 2j), center=self.wrap(h + 1 - 1.5j)))
        out.append(Edge(left=self.wrap(h + 1 + 1j), right=self.wrap(h + 1 + 2j), center=self.wrap(h + 1 + 1.5j)))
        out.append(Edge(left=self.wrap(h + 1), right=self.wrap(h + 3), center=self.wrap(h + 2)))
    return tuple(sorted(out, key=lambda e: (e.center.real, e.center.imag)))


def ref_all_edges(self: HoneycombLayout):
    return self.round_edges(0) + self.round_edges(1) + self.round_edges(2)


def ref_basis(self: HoneycombLayout, sub_round: int):
    return "XYZ"[sub_round % 3]


def ref_data(self: HoneycombLayout):
    return by_position({q for e in self.all_edges for q in [e.left, e.right]})


def ref_ancillas(self: HoneycombLayout):
    return by_position({e.center for e in self.all_edges})


def ref_index(self: HoneycombLayout) -> Dict[complex, int]:
    return {q: i for i, q in enumerate(by_position(self.data_qubit_coords) + by_position(self.measure_qubit_coords))}


def ref_index_1(self: HoneycombLayout) -> Dict[complex, int]:
    # the same numbering, as no qubit occurs twice
    result = {}
    for q in by_position(self.data_qubit_coords) + by_position(self.measure_qubit_coords):
        result[q] = len(result)
    return result


def ref_index_2(self: HoneycombLayout) -> Dict[complex, int]:
    qs = by_position(self.data_qubit_coords) + by_position(self.measure_qubit_coords)
    return {qs[i]: i for i in range(len(qs))}


def ref_index_3(self: HoneycombLayout) -> Dict[complex, int]:
    qs = by_position(self.data_qubit_coords) + by_position(self.measure_qubit_coords)
    return dict(zip(qs, range(len(qs))))


def ref_index_4(self: HoneycombLayout) -> Dict[complex, int]:
    result = {}
    for i, q in enumerate(by_position(self.data_qubit_coords)):
        result[q] = i
    for i, q in enumerate(by_position(self.measure_qubit_coords)):
        result[q] = i + len(self.data_qubit_coords)
    return result


def ref_data_indices(self: HoneycombLayout):
    return tuple(self.q2i[q] for q in self.data_qubit_coords)


def ref_ancilla_indices(self: HoneycombLayout):
    return tuple(self.q2i[q] for q in self.measure_qubit_coords)


def ref_first_class(self: HoneycombLayout):
    return tuple(self.q2i[q] for q in self.data_qubit_coords if not ref_parity(q))


def ref_second_class(self: HoneycombLayout):
    return tuple(self.q2i[q] for q in self.data_qubit_coords if ref_parity(q))


def ref_first_class_1(self: HoneycombLayout):
    return tuple(self.q2i[q] for q in self.data_qubit_coords if not ref_parity_1(q))


def ref_second_class_1(self: HoneycombLayout):
    return tuple(self.q2i[q] for q in self.data_qubit_coords if ref_parity_1(q))


def ref_used(self: HoneycombLayout):
    if self.style == "EM3" or self.style == "EM3_v2":
        return self.data_qubit_coords
    return tuple(self.q2i.keys())


def ref_used_indices(self: HoneycombLayout):
    return tuple(self.q2i[q] for q in self.used_qubit_coords)


def ref_count(self: HoneycombLayout):
    n = self.data_width * self.data_height
    if self.style == "EM3" or self.style == "EM3_v2":
        return n
    return int(n * 2.5)


def ref_count_1(self: HoneycombLayout):
    n = self.data_width * self.data_height
    if self.style == "EM3" or self.style == "EM3_v2":
        return n
    return n * 5 // 2


def ref_obs_index(self: HoneycombLayout):
    if self.obs == "V":
        return 0
    if self.obs == "H":
        return 1
    raise NotImplementedError(self.obs)


def ref_obs_v_edges(self: HoneycombLayout):
    return tuple(sorted([e for e in self.all_edges if e.left.real == 1 and e.right.real == 1], key=lambda e: (e.center.real, e.center.imag)))


def ref_obs_h_edges(self: HoneycombLayout):
    return tuple(sorted([e for e in self.all_edges if e.left.imag in [0, 1] and e.right.imag in [0, 1]], key=lambda e: (e.center.real, e.center.imag)))


def ref_obs_v_qubits(self: HoneycombLayout):
    return by_position([q for q in self.data_qubit_coords if q.real == 1])


def ref_obs_h_qubits(self: HoneycombLayout):
    return sorted([q for q in self.data_qubit_coords if q.imag in [0, 1]], key=lambda q: (q.real, (1 + q.imag + q.real // 2) % 2))


def ref_obs_edges(self: HoneycombLayout):
    if self.obs == "V":
        return self.obs_v_edges
    if self.obs == "H":
        return self.obs_h_edges
    raise NotImplementedError(self.obs)


def ref_obs_qubits(self: HoneycombLayout):
    if self.obs == "V":
        return self.obs_v_qubits
    if self.obs == "H":
        return self.obs_h_qubits
    raise NotImplementedError(self.obs)


def pick(pattern: str, repeats: int, qubits):
    return [q for c, q in zip(pattern * repeats, qubits) if c != "_"]


def ref_obs_h(self: HoneycombLayout, sub_round: int):
    k = sub_round % 6
    n = self.data_width // 2
    if k == 0:
        return "X", pick("XXXX", n, self.obs_h_qubits)
    if k == 1:
        return "X", pick("X__X", n, self.obs_h_qubits)
    if k == 2:
        return "Z", pick("Z__Z", n, self.obs_h_qubits)
    if k == 3:
        return "Z", pick("_ZZ_", n, self.obs_h_qubits)
    if k == 4:
        return "Y", pick("_YY_", n, self.obs_h_qubits)
    return "Y", pick("YYYY", n, self.obs_h_qubits)


def ref_obs_v(self: HoneycombLayout, sub_round: int):
    k = sub_round % 6
    n = 2 * (self.data_height // 6)
    if k == 0:
        return "Z", pick("_ZZ", n, self.obs_v_qubits)
    if k == 1:
        return "Y", pick("_YY", n, self.obs_v_qubits)
    if k == 2:
        return "Y", pick("YY_", n, self.obs_v_qubits)
    if k == 3:
        return "X", pick("XX_", n, self.obs_v_qubits)
    if k == 4:
        return "X", pick("X_X", n, self.obs_v_qubits)
    return "Z", pick("Z_Z", n, self.obs_v_qubits)


def ref_obs_before(self: HoneycombLayout, sub_round: int):
    if self.obs == "V":
        return self.obs_v_before_sub_round(sub_round)
    if self.obs == "H":
        return self.obs_h_before_sub_round(sub_round)
    raise NotImplementedError(self.obs)
