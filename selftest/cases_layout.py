F = "honeycomb_layout.py"


def m(name, old, new, ids="C20"):
    return (name, ids if isinstance(ids, tuple) else (ids,), "alarm", [(F, old, new)])


def r(name, *edits):
    return (name, ("C20",), "quiet", [(F, o, n) for o, n in edits])


CASES = [
    m("parity-floor", "return (q.real // 2 + q.imag) % 2 != 0", "return (q.real // 2 + q.imag // 1) % 2 != 0 if q.imag >= 0 else True"),
    m("parity-real", "return (q.real // 2 + q.imag) % 2 != 0", "return (q.real + q.imag) % 2 != 0"),
    m("edge-order", "(_data_qubit_parity(left), left.real, left.imag) > (_data_qubit_parity(right), right.real, right.imag)", "(left.real, left.imag) > (right.real, right.imag)"),
    m("edge-order-tie", "(_data_qubit_parity(left), left.real, left.imag) > (_data_qubit_parity(right), right.real, right.imag)", "_data_qubit_parity(left) > _data_qubit_parity(right)"),
    m("edge-key", "return self.left, self.right, self.center", "return self.left, self.right"),
    m("edge-eq", "        return self._key() == other._key()", "        return self.center == other.center and self.left == other.left"),
    m("edge-hash", "        return hash(self._key())", "        return id(self)"),
    m("edge-type-delta", "EdgeType(hex_to_hex_delta=2 - 3j, hex_to_qubit_delta=1 - 1j),\n    EdgeType(hex_to_hex_delta=2 + 3j", "EdgeType(hex_to_hex_delta=2 - 3j, hex_to_qubit_delta=1 - 1j),\n    EdgeType(hex_to_hex_delta=-2 + 3j"),
    m("edge-center", "center=config.wrap((a + b) / 2))", "center=config.wrap(a) / 2 + config.wrap(b) / 2)"),
    m("wrap-swapped", "r = c.real % self.coord_width", "r = c.real % self.coord_height"),
    m("wrap-none", "i = c.imag % self.coord_height", "i = c.imag if c.imag >= 0 else c.imag + self.coord_height"),
    m("coord-width", "return 4.0 * self.tile_width", "return 2.0 * self.data_width if self.data_width < 16 else 4.0 * self.tile_width + 4"),
    m("first-edges", "            (-1, -1 - 1j),  # Top left.\n        ]\n        return tuple(\n            Edge(\n                left=self.wrap(center + a),\n                right=self.wrap(center + b),\n                center=self.wrap(center + (a + b) / 2),\n            )\n            for a, b in offsets\n        )\n\n    def sub", "            (-1, -1 + 1j),  # Top left.\n        ]\n        return tuple(\n            Edge(\n                left=self.wrap(center + a),\n                right=self.wrap(center + b),\n                center=self.wrap(center + (a + b) / 2),\n            )\n            for a, b in offsets\n        )\n\n    def sub"),
    m("first-nowrap", "left=self.wrap(center + a),\n                right=self.wrap(center + b),\n                center=self.wrap(center + (a + b) / 2),\n            )\n            for a, b in offsets\n        )\n\n    def sub", "left=self.wrap(center + a),\n                right=self.wrap(center + b),\n                center=center + (a + b) / 2,\n            )\n            for a, b in offsets\n        )\n\n    def sub"),
    m("six-one-side", "            for sign in [-1, +1]\n", "            for sign in [-1, +1, -1]\n"),
    m("h-pattern", 'obs_pattern = "X__X"', 'obs_pattern = "_XX_"'),
    m("v-pattern", 'obs_pattern = "YY_"', 'obs_pattern = "_YY"'),
    m("v-basis", 'obs_pattern = "X_X"', 'obs_pattern = "Z_Z"'),
    m("v-repeat", "zip(obs_pattern * self.tile_height * 2, self.obs_v_qubits)", "zip(obs_pattern * (self.tile_height + 1), self.obs_v_qubits)"),
    m("h-repeat", "zip(obs_pattern * self.tile_width, self.obs_h_qubits)", "zip(obs_pattern * self.tile_height, self.obs_h_qubits)"),
    m("obs-case", "case = sub_round % 6\n        if case == 0:\n            obs_pattern = \"_ZZ\"", "case = sub_round % 6 if sub_round < 12 else sub_round % 3\n        if case == 0:\n            obs_pattern = \"_ZZ\""),
    m("obs-swapped", "            return self.obs_v_before_sub_round(sub_round)\n        elif self.obs == \"H\":\n            return self.obs_h_before_sub_round(sub_round)", "            return self.obs_v_before_sub_round(sub_round)\n        elif self.obs == \"H\":\n            return self.obs_h_before_sub_round(sub_round % 3)"),
    m("class-parity", "return tuple(self.q2i[q] for q in self.data_qubit_coords if not _data_qubit_parity(q))", "return tuple(self.q2i[q] for q in self.data_qubit_coords if (q.real // 2 + q.imag) % 2 != 1 and q.real >= 0)"),
    m("class-all", "if not _data_qubit_parity(q))", "if _data_qubit_parity(q) == (q.real > 20))"),
    m("used", 'if self.style in ["EM3", "EM3_v2"] :\n', 'if self.style in ["EM3"] :\n'),
    m("used-pc3", 'if self.style in ["EM3", "EM3_v2"] :\n', 'if self.style in ["EM3", "EM3_v2", "PC3"] :\n'),
    m("q2i-order", "enumerate(sorted_complex(self.data_qubit_coords) + sorted_complex(self.measure_qubit_coords))", "enumerate(sorted_complex(self.data_qubit_coords + self.measure_qubit_coords))"),
    m("q2i-from-1", "for i, q in enumerate(sorted_complex(self.data_qubit_coords)", "for i, q in enumerate(sorted_complex(self.data_qubit_coords[:-1]) + list(self.data_qubit_coords[-1:])"),
    m("obs-h-rows", "if e.left.imag in [0, 1] and e.right.imag in [0, 1]", "if e.left.imag in [0, 1]"),
    m("obs-h-rows2", "            if q.imag in [0, 1]\n", "            if q.imag in [0, 1, 2]\n"),
    m("obs-h-order", "key=lambda q: (q.real, (1 + q.imag + q.real // 2) % 2)", "key=lambda q: (q.real, q.imag)"),
    m("obs-v-col", "if e.left.real == e.right.real == 1", "if e.left.real == 1"),
    m("obs-v-col2", "            if q.real == 1\n", "            if q.real == 3\n"),
    m("obs-index", "    def obs_index(self) -> int:\n        if self.obs == \"V\":\n            return 0\n        elif self.obs == \"H\":\n            return 1", "    def obs_index(self) -> int:\n        if self.obs == \"V\":\n            return 0\n        elif self.obs == \"H\":\n            return 0"),
    m("obs-edges", "            return self.obs_v_edges\n        elif self.obs == \"H\":\n            return self.obs_h_edges", "            return self.obs_v_edges\n        elif self.obs == \"H\":\n            return self.obs_h_edges[:-1]"),
    m("rounds-order", "self.round_edges(0) + self.round_edges(1) + self.round_edges(2)", "self.round_edges(0) + self.round_edges(2) + self.round_edges(1)") if False else
    m("rounds-missing", "self.round_edges(0) + self.round_edges(1) + self.round_edges(2)", "self.round_edges(0) + self.round_edges(1) + self.round_edges(1)"),
    m("hex-category", "category = (-row - col % 2) % 3", "category = (-row - col) % 3"),
    m("hex-rows", "for row in range(3 * self.tile_height):", "for row in range(6 * self.tile_width):"),
    m("hex-first-wins", "                result[self.wrap(center)] = category", "                result[center] = category"),
    m("hex-cols", "for col in range(2 * self.tile_width):", "for col in range(min(2 * self.tile_width, 12)):"),
    m("edges-mod", "        r %= 3\n        return tuple(sorted([", "        r = r % 3 if r >= 0 else -r % 3\n        return tuple(sorted(["),
    m("edges-sort", "            for edge_type in EDGE_TYPES\n        ], key=lambda e: (e.center.real, e.center.imag)))", "            for edge_type in EDGE_TYPES\n        ], key=lambda e: e.center.real))"),
    m("hex-filter", "            if category == r\n", "            if category == r or category == r + 3\n") if False else
    m("hex-filter", "            if category == r\n", "            if category >= r\n"),
    m("basis", 'return "XYZ"[sub_round % 3]', 'return "XYZ"[sub_round % 3] if sub_round < 9 else "XZY"[sub_round % 3]'),

    r("r-parity", ("return (q.real // 2 + q.imag) % 2 != 0", "half_col = q.real // 2\n    return (q.imag + half_col) % 2 == 1")),
    r("r-parity2", ("return (q.real // 2 + q.imag) % 2 != 0", "return bool((q.real // 2 + q.imag) % 2)")),
    r("r-edge-init", ("        if (_data_qubit_parity(left), left.real, left.imag) > (_data_qubit_parity(right), right.real, right.imag):\n            left, right = right, left\n        self.left = left\n        self.right = right\n", "        def k(q):\n            return _data_qubit_parity(q), q.real, q.imag\n        first, last = (right, left) if k(right) < k(left) else (left, right)\n        self.left, self.right = first, last\n")),
    r("r-edge-sorted", ("        if (_data_qubit_parity(left), left.real, left.imag) > (_data_qubit_parity(right), right.real, right.imag):\n            left, right = right, left\n", "        left, right = sorted([left, right], key=lambda q: (_data_qubit_parity(q), q.real, q.imag))\n")),
    r("r-wrap", ("        r = c.real % self.coord_width\n        i = c.imag % self.coord_height\n        return r + i * 1j", "        return complex(c.real % self.coord_width, c.imag % self.coord_height)")),
    r("r-around", ("        return tuple(\n            Edge(\n                left=self.wrap(center + a),\n                right=self.wrap(center + b),\n                center=self.wrap(center + (a + b) / 2),\n            )\n            for a, b in offsets\n        )\n\n    def sub", "        return self._edges_at(center, offsets)\n\n    def _edges_at(self, center, offsets):\n        out = []\n        for a, b in offsets:\n            mid = (a + b) / 2\n            out.append(Edge(left=self.wrap(center + a), right=self.wrap(center + b), center=self.wrap(center + mid)))\n        return tuple(out)\n\n    def sub")),
    r("r-table", ("        offsets = [\n            (+1 - 1j, +1),  # Top right.\n            (+1 + 1j, -1 + 1j),  # Bottom.\n            (-1, -1 - 1j),  # Top left.\n        ]\n", "        offsets = FIRST_EDGES_AROUND_HEX\n")),
    r("r-six", ("            self.wrap(center + edge_type.hex_to_qubit_delta * sign)\n            for edge_type in EDGE_TYPES\n            for sign in [-1, +1]\n", "            self.wrap(center + delta)\n            for edge_type in EDGE_TYPES\n            for delta in (edge_type.hex_to_qubit_delta, -edge_type.hex_to_qubit_delta)\n")),
    r("r-patterns", ('        case = sub_round % 6\n        if case == 0:\n            obs_pattern = "XXXX"\n        elif case == 1:\n            obs_pattern = "X__X"\n        elif case == 2:\n            obs_pattern = "Z__Z"\n        elif case == 3:\n            obs_pattern = "_ZZ_"\n        elif case == 4:\n            obs_pattern = "_YY_"\n        else:\n            obs_pattern = "YYYY"\n', '        obs_pattern = ["XXXX", "X__X", "Z__Z", "_ZZ_", "_YY_", "YYYY"][sub_round % 6]\n')),
    r("r-pattern-loop", ("        return c, [\n            q\n            for c, q in zip(obs_pattern * self.tile_width, self.obs_h_qubits)\n            if c != \"_\"\n        ]\n", "        kept = []\n        for p, q in zip(obs_pattern * self.tile_width, self.obs_h_qubits):\n            if p == \"_\":\n                continue\n            kept.append(q)\n        return c, kept\n")),
    r("r-pattern-basis", ("        c, = set(obs_pattern) - {'_'}\n        return c, [\n            q\n            for c, q in zip(obs_pattern * self.tile_width", "        basis = obs_pattern.replace('_', '')[0]\n        return basis, [\n            q\n            for c, q in zip(obs_pattern * self.tile_width")),
    r("r-data", ("        return tuple(sorted_complex({\n            q\n            for e in self.all_edges\n            for q in [e.left, e.right]\n        }))", "        qs = set()\n        for e in self.all_edges:\n            qs.add(e.left)\n            qs.add(e.right)\n        return tuple(sorted_complex(qs))")),
    r("r-data2", ("        return tuple(sorted_complex({\n            q\n            for e in self.all_edges\n            for q in [e.left, e.right]\n        }))", "        lefts = {e.left for e in self.all_edges}\n        rights = {e.right for e in self.all_edges}\n        return tuple(sorted_complex(lefts | rights))")),
    r("r-classes", ("        return tuple(self.q2i[q] for q in self.data_qubit_coords if not _data_qubit_parity(q))", "        return self._of_parity(False)\n\n    def _of_parity(self, parity: bool) -> Tuple[int, ...]:\n        return tuple(self.q2i[q] for q in self.data_qubit_coords if _data_qubit_parity(q) == parity)"), ("        return tuple(self.q2i[q] for q in self.data_qubit_coords if _data_qubit_parity(q))", "        return self._of_parity(True)")),
    r("r-q2i", ("        return {\n            q: i\n            for i, q in enumerate(sorted_complex(self.data_qubit_coords) + sorted_complex(self.measure_qubit_coords))\n        }", "        result = {}\n        for q in sorted_complex(self.data_qubit_coords) + sorted_complex(self.measure_qubit_coords):\n            result[q] = len(result)\n        return result")),
    r("r-q2i-2", ("        return {\n            q: i\n            for i, q in enumerate(sorted_complex(self.data_qubit_coords) + sorted_complex(self.measure_qubit_coords))\n        }", "        ordered = sorted_complex(self.data_qubit_coords) + sorted_complex(self.measure_qubit_coords)\n        return {ordered[i]: i for i in range(len(ordered))}")),
    r("r-hexes", ("        for row in range(3 * self.tile_height):\n            for col in range(2 * self.tile_width):\n                center = row * 2j + 2 * col - 1j * (col % 2)\n                category = (-row - col % 2) % 3\n                result[self.wrap(center)] = category\n", "        for row in range(3 * self.tile_height):\n            for col in range(2 * self.tile_width):\n                odd = col % 2\n                result[self.wrap(2 * col + 1j * (2 * row - odd))] = -(row + odd) % 3\n")),
    r("r-hexes-swapped", ("        for row in range(3 * self.tile_height):\n            for col in range(2 * self.tile_width):\n                center", "        for col in range(2 * self.tile_width):\n            for row in range(3 * self.tile_height):\n                center")),
    r("r-round-edges", ("        return tuple(sorted([\n            edge_type.hex_to_edge(h, self)\n            for h in self.round_hex_centers(r)\n            for edge_type in EDGE_TYPES\n        ], key=lambda e: (e.center.real, e.center.imag)))", "        edges = []\n        for h in self.round_hex_centers(r):\n            for edge_type in EDGE_TYPES:\n                edges.append(edge_type.hex_to_edge(h, self))\n        edges.sort(key=lambda e: (e.center.real, e.center.imag))\n        return tuple(edges)")),
    r("r-round-edges-swapped", ("            for h in self.round_hex_centers(r)\n            for edge_type in EDGE_TYPES\n        ], key", "            for edge_type in EDGE_TYPES\n            for h in self.round_hex_centers(r)\n        ], key")),
    r("r-hex-to-edge", ("        a = center + self.hex_to_qubit_delta\n        b = center + self.hex_to_hex_delta - self.hex_to_qubit_delta\n        return Edge(left=config.wrap(a),\n                    right=config.wrap(b),\n                    center=config.wrap((a + b) / 2))", "        other = center + self.hex_to_hex_delta\n        left = config.wrap(center + self.hex_to_qubit_delta)\n        right = config.wrap(other - self.hex_to_qubit_delta)\n        return Edge(left=left, right=right, center=config.wrap(center + self.hex_to_hex_delta / 2))")),
    r("r-obs-v", ("            if e.left.real == e.right.real == 1", "            if e.left.real == 1 and e.right.real == 1")),
    r("r-obs-h", ("            if e.left.imag in [0, 1] and e.right.imag in [0, 1]", "            if all(q.imag in (0, 1) for q in (e.left, e.right))")),
    r("r-obs-h2", ("            if e.left.imag in [0, 1] and e.right.imag in [0, 1]", "            if e.left.imag in {0, 1} and (e.right.imag == 0 or e.right.imag == 1)")),
    r("r-obs-sorted", ("        return tuple(sorted([\n            e\n            for e in self.all_edges\n            if e.left.real == e.right.real == 1\n        ], key=lambda e: (e.center.real, e.center.imag)))", "        found = [e for e in self.all_edges if e.left.real == e.right.real == 1]\n        return tuple(sorted(found, key=_edge_position))"), ("class Edge:\n", "def _edge_position(e):\n    return e.center.real, e.center.imag\n\n\nclass Edge:\n")),
    r("r-obs-pick", ("        if self.obs == \"V\":\n            return self.obs_v_edges\n        elif self.obs == \"H\":\n            return self.obs_h_edges\n        else:\n            raise NotImplementedError(self.obs)", "        if self.obs not in (\"V\", \"H\"):\n            raise NotImplementedError(self.obs)\n        return self.obs_v_edges if self.obs == \"V\" else self.obs_h_edges")),
    r("r-used", ('        if self.style in ["EM3", "EM3_v2"] :\n            return self.data_qubit_coords\n        return tuple(self.q2i.keys())', '        if not self.style.startswith("EM3"):\n            return tuple(self.q2i)\n        return self.data_qubit_coords') if False else ('        if self.style in ["EM3", "EM3_v2"] :\n            return self.data_qubit_coords\n        return tuple(self.q2i.keys())', '        if self.style not in ("EM3", "EM3_v2"):\n            return tuple(self.q2i)\n        return self.data_qubit_coords')),
    r("r-all-edges", ("        return self.round_edges(0) + self.round_edges(1) + self.round_edges(2)", "        return tuple(e for k in range(3) for e in self.round_edges(k))")),
    r("r-sorted-complex", ("    return sorted(xs, key=lambda v: (v.real, v.imag))", "    result = list(xs)\n    result.sort(key=lambda q: (q.real, q.imag))\n    return result")),
    r("r-eq", ("        return self._key() == other._key()", "        return self.left == other.left and self.right == other.right and self.center == other.center")),
    r("r-ne", ("        return self._key() != other._key()", "        return not self == other")),
    r("r-basis", ('        return "XYZ"[sub_round % 3]', '        if sub_round % 3 == 0:\n            return "X"\n        return "Y" if sub_round % 3 == 1 else "Z"')),
]
