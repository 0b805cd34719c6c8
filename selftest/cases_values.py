L = "honeycomb_layout.py"
G = "honeycomb_circuit.py"
N = "noise.py"
T = "measure_tracker.py"


def m(name, *edits, ids=("C22",)):
    return (name, ids, "alarm", list(edits))


def r(name, *edits, ids=("C22",)):
    return (name, ids, "quiet", list(edits))


Q2I = "    @functools.cached_property\n    def q2i(self)"
IDX = "    result = stim.Circuit()\n    for q in lay.used_qubit_coords:\n"
CASES = [
    m("not-frozen", (L, "@dataclasses.dataclass(frozen=True, unsafe_hash=True, order=True)", "@dataclasses.dataclass(unsafe_hash=True, order=True)")),
    m("noise-compare", (L, "    noise: float\n\n    def __post", "    noise: float = dataclasses.field(compare=False)\n\n    def __post")),
    m("own-hash", (L, "    def __post_init__", "    def __hash__(self):\n        return hash((self.data_width, self.data_height))\n\n    def __post_init__")),
    m("own-eq", (L, "    def __post_init__", "    def __eq__(self, other):\n        return isinstance(other, HoneycombLayout) and (self.data_width, self.data_height, self.style) == (other.data_width, other.data_height, other.style)\n\n    def __post_init__")),
    m("normalise", (L, '            raise NotImplementedError("need data_width % 2 == 0")', '            object.__setattr__(self, "data_width", self.data_width + 1)')),
    m("q2i-store", (G, IDX, "    result = stim.Circuit()\n    if lay.style == 'EM3_v2':\n        lay.q2i[-1j] = len(lay.q2i)\n    for q in lay.used_qubit_coords:\n")),
    m("q2i-alias", (G, IDX, "    result = stim.Circuit()\n    index = lay.q2i\n    index.update({-1j: len(index)})\n    for q in lay.used_qubit_coords:\n")),
    m("q2i-helper", (G, IDX, "    result = stim.Circuit()\n    _reserve(lay.q2i)\n    for q in lay.used_qubit_coords:\n"),
      (G, "def generate_honeycomb_circuit(", "def _reserve(index):\n    index.setdefault(-1j, len(index))\n\n\ndef generate_honeycomb_circuit(")),
    m("edge-swap", (G, "    for h in lay.round_hex_centers(\"XYZ\".index(obs_basis)):\n", "    for e in lay.round_edges(0):\n        if e.left.real > e.right.real:\n            e.left, e.right = e.right, e.left\n    for h in lay.round_hex_centers(\"XYZ\".index(obs_basis)):\n")),
    m("edge-swap-list", (G, "    for h in lay.round_hex_centers(\"XYZ\".index(obs_basis)):\n", "    for e in sorted(list(lay.round_edges(0)), key=lambda e: e.left.real):\n        e.center = e.center + 0\n    for h in lay.round_hex_centers(\"XYZ\".index(obs_basis)):\n")),
    m("table-pop", (L, "        return tuple(sorted_complex(\n            self.wrap(center + edge_type", "        EDGE_TYPES.sort(key=lambda e: e.hex_to_hex_delta.imag)\n        return tuple(sorted_complex(\n            self.wrap(center + edge_type")),
    m("table-add", (N, "        for op in circuit:\n", "        if self.measure_reset_idle > 0:\n            ANNOTATION_OPS.add('MPAD')\n        for op in circuit:\n")),
    m("noise-table", (G, "    return lay.noise_model.noisy_circuit(result)", "    if lay.sub_rounds < 3:\n        lay.noise_model.noisy_gates['R'] = 0\n    return lay.noise_model.noisy_circuit(result)")),
    m("input-circuit", (N, "        if ancilla is None:\n", "        if len(circuit) == 1:\n            circuit.append_operation('TICK', [])\n        if ancilla is None:\n")),
    m("input-qs", (N, "        for op in circuit:\n", "        qs.discard(ancilla)\n        for op in circuit:\n")),
    m("default-arg", (T, "out_circuit: stim.Circuit,\n", "out_circuit: stim.Circuit,\n                        seen=[],\n"), (T, "        targets = self.get_record_targets(", "        seen.append(len(keys))\n        targets = self.get_record_targets(")),
    m("class-history", (T, "    def __init__(self):\n", "    shared = collections.defaultdict(list)\n\n    def __init__(self):\n"), (T, "        self.history[group_key].append(", "        MeasurementTracker.shared[group_key].append(1)\n        self.history[group_key].append(")),
    m("counter", (G, IDX, "    result = stim.Circuit()\n    generate_honeycomb_circuit.calls = getattr(generate_honeycomb_circuit, 'calls', 0) + 1\n    for q in lay.used_qubit_coords:\n")),
    m("global-flag", (G, "def generate_honeycomb_circuit(", "_DONE = False\n\n\ndef generate_honeycomb_circuit("), (G, "    mtrack = MeasurementTracker()\n", "    global _DONE\n    _DONE = True\n    mtrack = MeasurementTracker()\n")),
    m("tracker-shared", (G, "def generate_honeycomb_circuit(", "_TRACK = MeasurementTracker()\n\n\ndef generate_honeycomb_circuit("), (G, "    mtrack = MeasurementTracker()\n", "    mtrack = _TRACK if lay.noise else MeasurementTracker()\n")),
    m("cached-circuit", (L, "    def make_circuit(self)", "    @functools.lru_cache()\n    def make_circuit(self)")),
    m("memo-dict", (L, "    def obs_h_before_sub_round(self, sub_round: int) -> Tuple[str, List[complex]]:\n", "    def obs_h_before_sub_round(self, sub_round: int) -> Tuple[str, List[complex]]:\n        _SEEN[self.style] = sub_round\n"), (L, "class Edge:", "_SEEN = {}\n\n\nclass Edge:")),
    m("obs-pop", (L, "    @functools.cached_property\n    def obs_h_qubits", "    @functools.cached_property\n    def obs_h_path(self):\n        return [q for q in self.obs_h_qubits]\n\n    @functools.cached_property\n    def obs_h_qubits"),
      (G, "    obs_basis, obs_qubits = lay.obs_before_sub_round(lay.sub_rounds)\n", "    obs_basis, obs_qubits = lay.obs_before_sub_round(lay.sub_rounds)\n    path = lay.obs_h_path\n    while len(path) > len(obs_qubits):\n        path.pop()\n")),
    m("global-read", (L, "    def wrap(self, c: complex)", "    @functools.lru_cache(maxsize=None)\n    def far(self, c):\n        import random\n        return random.random()\n\n    def wrap(self, c: complex)")),
    m("env", (L, "        return 4.0 * self.tile_width", "        import os\n        return float(os.environ.get('HC_PERIOD', 4)) * self.tile_width")),
    m("id-hash", (L, "        return hash(self._key())", "        return hash((self._key(), id(self)))")),
    r("copy", (G, IDX, "    result = stim.Circuit()\n    index = dict(lay.q2i)\n    index[-1j] = 0\n    for q in lay.used_qubit_coords:\n")),
    r("list-sort", (G, "    for h in lay.round_hex_centers(\"XYZ\".index(obs_basis)):\n", "    hexes = list(lay.round_hex_centers(\"XYZ\".index(obs_basis)))\n    hexes.sort(key=lambda h: (h.real, h.imag))\n    for h in hexes:\n")),
    r("helper-out", (G, "    for q in lay.used_qubit_coords:\n        i = lay.q2i[q]\n        result.append_operation(\"QUBIT_COORDS\", [i], [q.real, q.imag])\n", "    _coords(result, lay)\n"),
      (G, "def generate_honeycomb_circuit(", "def _coords(out: stim.Circuit, lay: HoneycombLayout) -> None:\n    for q in lay.used_qubit_coords:\n        i = lay.q2i[q]\n        out.append_operation(\"QUBIT_COORDS\", [i], [q.real, q.imag])\n\n\ndef generate_honeycomb_circuit(")),
    r("reuse-name", (G, "    for h in lay.round_hex_centers(\"XYZ\".index(obs_basis)):\n", "    hexes = lay.round_hex_centers(\"XYZ\".index(obs_basis))\n    hexes = [h for h in hexes]\n    hexes.reverse()\n    for h in hexes[::-1]:\n")),
    r("fields", (L, "    data_width: int\n    data_height: int\n    sub_rounds", "    data_width: int\n    data_height: int  # rows\n    sub_rounds")),
    r("edge-dataclass-key", (L, "        return self.left, self.right, self.center", "        return (self.left, self.right, self.center)")),
    r("qs-local", (N, "        if ancilla is None:\n", "        idle = set(qs) if qs is not None else set()\n        idle.clear()\n        if ancilla is None:\n")),
    r("more-cache", (L, "    def code_distance_1qdep(self)", "    @functools.lru_cache(maxsize=None)\n    def edge_count(self) -> int:\n        return len(self.all_edges)\n\n    def code_distance_1qdep(self)") if False else (L, "    def legend_label(self)", "    @functools.lru_cache(maxsize=None)\n    def edge_count(self) -> int:\n        return len(self.all_edges)\n\n    def legend_label(self)")),
    r("counter-local", (G, IDX, "    result = stim.Circuit()\n    count = 0\n    for q in lay.used_qubit_coords:\n        count += 1\n    for q in lay.used_qubit_coords:\n")),
    r("sub-rounds-local", (G, IDX, "    result = stim.Circuit()\n    n = lay.sub_rounds\n    n += lay.data_width\n    for q in lay.used_qubit_coords:\n")),
]
