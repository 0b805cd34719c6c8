F = "honeycomb_circuit.py"
ALL = ("C17", "C18", "C19")


def m(name, props, old, new):
    return (name, props if isinstance(props, tuple) else (props,), "alarm", [(F, old, new)])


def r(name, *edits):
    return (name, ALL, "quiet", [(F, a, b) for a, b in edits])


CASES = [
    # ---- C17
    m("sd6-fold-one-early", "C17", "iterations = max(0, n - next_sub_round - 2) // 3", "iterations = max(0, n - next_sub_round - 1) // 3"),
    m("sd6-fold-before-settled", "C17", "while next_sub_round < 4 and", "while next_sub_round < 1 and"),
    m("sd6-body-short", "C17", "            loop_body += _sd6_pipeline_step(lay, next_sub_round + 2, mtrack)\n", ""),
    m("sd6-tail-missing", "C17", "for sub_round in range(next_sub_round, n - 2):", "for sub_round in range(next_sub_round + 1, n - 2):"),
    m("sd6-advance", "C17", "next_sub_round += iterations * 3", "next_sub_round += iterations * 2"),
    m("pc3-fold-early", "C17", "if k == 12:", "if k == 5:"),
    m("pc3-fold-early2", "C17", "if k == 12:", "if k == 7:"),
    m("pc3-count", "C17", "iterations = (n - k + 3) // 3\n            if iterations > 1:\n                moments[-3:] = [(moments[-3] + moments[-2] + moments[-1]) * iterations]\n                k += iterations * 3 - 3\n\n    result = stim.Circuit()\n    for m in moments:\n        result += m\n\n    for k", "iterations = (n - k) // 3\n            if iterations > 1:\n                moments[-3:] = [(moments[-3] + moments[-2] + moments[-1]) * iterations]\n                k += iterations * 3 - 3\n\n    result = stim.Circuit()\n    for m in moments:\n        result += m\n\n    for k") if False else
    m("pc3-two-moments", "C17", "moments[-3:] = [(moments[-3] + moments[-2] + moments[-1]) * iterations]", "moments[-2:] = [(moments[-2] + moments[-1]) * iterations]"),
    m("em3-fold-early", "C17", "if k == 7:", "if k == 4:"),
    m("em3-step", "C17", "            if iterations > 1:\n                moments[-3:] = [(moments[-3] + moments[-2] + moments[-1]) * iterations]\n                k += iterations * 3 - 3\n\n    result = stim.Circuit()\n    for m in moments:\n        result += m\n    return result", "            if iterations > 1:\n                moments[-3:] = [(moments[-3] + moments[-2] + moments[-1]) * iterations]\n                k += iterations * 3\n\n    result = stim.Circuit()\n    for m in moments:\n        result += m\n    return result"),
    m("si1000-fold-second", "C17", "    if n > 3:\n        circuit += generate_cycle_SI1000(3, lay, mtrack)\n    if n > 6:\n        circuit += generate_cycle_SI1000(6, lay, mtrack) * ((n - 6) // 3)", "    if n > 3:\n        circuit += generate_cycle_SI1000(3, lay, mtrack) * ((n - 3) // 3)"),
    m("si1000-count", "C17", "((n - 6) // 3)", "((n - 3) // 3)"),
    m("tracker-order", "C17", "    mtrack.add_measurements(*(('1/2', e) for e in round_edges))\n    # Reconstruct edge measurements using previous round if needed due to non-demo measurement.\n    for e in round_edges:", "    mtrack.add_measurements(*(('1/2', e) for e in reversed(round_edges)))\n    for e in round_edges:"),
    m("tracker-order-data", "C17", "mtrack.add_measurements(*lay.data_qubit_coords)", "mtrack.add_measurements(*sorted(lay.data_qubit_coords, key=lambda q: (q.imag, q.real)))"),
    m("pc3-measured-early", ("C17",), "    mtrack.add_measurements(*(('1/2', e) for e in round_edges))\n", "    mtrack.add_measurements(*(('1/2', e) for e in round_edges))\n    if sub_round == 5:\n        mtrack.add_measurements(*(('1/2', e) for e in round_edges))\n"),
    m("si1000-late-annotations", "C17", "    for k in range(3):\n        circuit += _sub_round_measurements_and_detectors(lay=lay, mtrack=mtrack, sub_round=subround + k)\n", "    parts = [_sub_round_measurements_and_detectors(lay=lay, mtrack=mtrack, sub_round=subround + k) for k in range(3)]\n    for p in (parts[0], parts[2], parts[1]):\n        circuit += p\n"),
    m("sd6-swapped-rounds", "C17", "        a3, b3 = _sub_round_2q_ops(lay, n - 1)\n", "        a3, b3 = _sub_round_2q_ops(lay, n)\n") if False else
    m("sd6-last-subround", ("C17", "C18"), "sub_round=n - 1)", "sub_round=n)"),
    m("em3-n-plus", "C17", "    k = 0\n    while k < n:\n        edges", "    k = 0\n    while k < n + (n % 7 == 6):\n        edges"),
    # ---- C18
    m("sd6-reset-missing", "C18", "    r3 = _sub_round_resets(lay, sub_round + 2)\n", "    r3 = _sub_round_resets(lay, sub_round + 2) if sub_round != 3 else stim.Circuit()\n"),
    m("sd6-reset-wrong-colour", "C18", "r3 = _sub_round_resets(lay, sub_round + 2)", "r3 = _sub_round_resets(lay, sub_round + 1)"),
    m("sd6-missing-tick", "C18", "    result += a2\n    result += b1\n    result.append_operation(\"TICK\", [])\n", "    result += a2\n    result += b1\n"),
    m("sd6-unrotate", "C18", "elif (lay.sub_rounds + 2) % 3 == 0:\n        # C_XYZ because C_ZYX**2 == C_XYZ\n        result.append_operation(\"C_XYZ\"", "elif (lay.sub_rounds + 2) % 3 == 0:\n        result.append_operation(\"C_ZYX\""),
    m("sd6-unrotate-cond", "C18", "if (lay.sub_rounds + 1) % 3 == 0:", "if (lay.sub_rounds + 1) % 6 == 0:"),
    m("sd6-single", "C18", "result += _sub_round_resets(lay, 0)\n        result += _cycle_data(lay, True, True)\n        result.append_operation(\"TICK\", [])\n        result += _sub_round_2q_ops(lay, 0)[0]", "result += _sub_round_resets(lay, 0)\n        result += _cycle_data(lay, True, False)\n        result.append_operation(\"TICK\", [])\n        result += _sub_round_2q_ops(lay, 0)[0]"),
    m("same-end-twice", "C18", "cnot_targets_2nd.append(qb)", "cnot_targets_2nd.append(qa)"),
    m("ends-swapped-in-steps", "C18", "cnot_targets_1st.append(qa)\n        cnot_targets_1st.append(qc)\n        cnot_targets_2nd.append(qb)", "cnot_targets_1st.append(qb)\n        cnot_targets_1st.append(qc)\n        cnot_targets_2nd.append(qa)"),
    m("pc3-basis", "C18", "lay.sub_round_edge_basis(k - 1) + \"CX\"", "lay.sub_round_edge_basis(k) + \"CX\""),
    m("pc3-tick", "C18", "        circuit.append_operation(\"TICK\", [])\n        moments.append(circuit)\n        k += 1\n\n        # Stabilizers", "        if k != 9:\n            circuit.append_operation(\"TICK\", [])\n        moments.append(circuit)\n        k += 1\n\n        # Stabilizers"),
    m("si-last-rotation", "C18", "        if k < 2:\n", "        if k < 1:\n"),
    m("si-h-missing", "C18", "    circuit.append_operation(\"H\", lay.measure_qubit_indices)\n    circuit.append_operation(\"TICK\", [])\n\n    for k in range(3):\n        circuit += _sub", "    circuit.append_operation(\"TICK\", [])\n\n    for k in range(3):\n        circuit += _sub"),
    m("si-reset-late", "C18", "if subround > 0:", "if subround > 3:"),
    m("em3-basis", "C18", "[\"XYZ\".index(basis)]", "[\"XZY\".index(basis)]"),
    m("em3-mixed-basis", "C18", "stim.target_combiner(), tp(lay.q2i[e.right])", "stim.target_combiner(), stim.target_z(lay.q2i[e.right])"),
    m("init-basis", "C18", "result.append_operation(f\"H_{init_basis}Z\", lay.data_qubit_indices)", "result.append_operation(f\"H_{init_basis}Z\", lay.data_qubit_indices_1st)"),
    m("final-basis", "C18", "obs_basis, obs_qubits = lay.obs_before_sub_round(lay.sub_rounds)", "obs_basis, obs_qubits = lay.obs_before_sub_round(lay.sub_rounds % 3)"),
    # ---- C19
    m("half-hex-colour", "C19", "for h in lay.round_hex_centers((sub_round - 1) % 3):", "for h in lay.round_hex_centers((sub_round + 1) % 3):"),
    m("first-edges-twice", "C19", "mtrack.add_group(*lay.second_edges_around_hex(h), ('1/2', h), group_key=h)", "mtrack.add_group(*lay.first_edges_around_hex(h), ('1/2', h), group_key=h)"),
    m("half-dropped", "C19", "mtrack.add_group(*lay.second_edges_around_hex(h), ('1/2', h), group_key=h)", "mtrack.add_group(*lay.second_edges_around_hex(h), group_key=h)"),
    m("no-prev", "C19", "mtrack.append_detector(h, Prev(h), out_circuit=moment", "mtrack.append_detector(h, Prev(h) if sub_round > 2 else h, out_circuit=moment"),
    m("x-init-detectors", "C19", "lay.obs_before_sub_round(0)[0] == 'X':", "lay.obs_before_sub_round(0)[0] == 'Z':"),
    m("obs-prev-pc3", "C19", "recover_value_set = [0, 1] if xor_vs_previous else [0]", "recover_value_set = [0, 1] if xor_vs_previous and sub_round > 2 else [0]") if False else
    m("pc3-no-xor", "C19", "xor_vs_previous = lay.style == \"PC3\"", "xor_vs_previous = False"),
    m("em3-xor", "C19", "xor_vs_previous = lay.style == \"PC3\"", "xor_vs_previous = lay.style in (\"PC3\", \"EM3_v2\")"),
    m("obs-skipped-round", "C19", "    if manually_accumulating_obs:\n", "    if manually_accumulating_obs and sub_round != 2:\n"),
    m("obs-index", "C19", "        mtrack.get_record_targets(*obs_qubits),\n        lay.obs_index)", "        mtrack.get_record_targets(*obs_qubits),\n        0)"),
    m("pc3-obs-last-colour", "C19", "    for k in range(3):\n        edges = mtrack", "    for k in range(2):\n        edges = mtrack"),
    m("obs-edges-all", "C19", "set(lay.obs_edges) & set(lay.round_edges(sub_round))", "set(lay.obs_edges) & set(lay.round_edges(sub_round + 1))"),
    m("final-other-basis", "C19", "for h in lay.round_hex_centers(\"XYZ\".index(other_basis)):", "for h in lay.round_hex_centers(\"XYZ\".index(last_measure_basis)):"),
    m("final-hex-missing", "C19", "    for h in lay.round_hex_centers(\"XYZ\".index(obs_basis)):\n        mtrack.add_group(*lay.qubits_around_hex(h), group_key=h)", "    for h in lay.round_hex_centers(\"XYZ\".index(obs_basis)):\n        if last_measure_basis == obs_basis:\n            break\n        mtrack.add_group(*lay.qubits_around_hex(h), group_key=h)"),
    m("final-edge-no-prev", "C19", "                e, Prev(e),\n", "                e,\n"),
    m("dummy-half", "C19", "half_init = (edge_init - 1) % 3", "half_init = (edge_init + 1) % 3"),
    m("dummy-hex", "C19", "mtrack.add_dummies(*lay.round_hex_centers(sub_round), obstacle=sub_round != edge_init)", "mtrack.add_dummies(*lay.round_hex_centers(sub_round), obstacle=True)"),
    m("dummy-half-edges", "C19", "mtrack.add_dummies(*[('1/2', e) for e in lay.round_edges(sub_round)])", "mtrack.add_dummies(*[('1/2', e) for e in lay.round_edges(sub_round)], obstacle=sub_round != edge_init)"),
    m("coords-swapped", "C19", "            mtrack.append_detector(\n                h, Prev(h),\n                out_circuit=result,\n                coords=[h.real, h.imag, 0],", "            mtrack.append_detector(\n                h, Prev(h),\n                out_circuit=result,\n                coords=[h.imag, h.real, 0],"),
    m("shift-missing", "C19", "    moment.append_operation(\"SHIFT_COORDS\", [], [0, 0, 1])\n", "    if lay.style != \"PC3\":\n        moment.append_operation(\"SHIFT_COORDS\", [], [0, 0, 1])\n"),
    m("edge-coords", "C19", "coords=(e.center.real, e.center.imag, 0)", "coords=(e.left.real, e.left.imag, 0)"),
    m("doubled-detector", "C19", "        mtrack.append_detector(h, Prev(h), out_circuit=moment, coords=[h.real, h.imag, 0])\n", "        mtrack.append_detector(h, Prev(h), out_circuit=moment, coords=[h.real, h.imag, 0])\n        if sub_round == 4:\n            mtrack.append_detector(h, Prev(h), out_circuit=moment, coords=[h.real, h.imag, 0])\n"),
    # ---- refactorings
    r("r-pairs-helper",
      ("    cnot_targets_1st: List[int] = []\n    cnot_targets_2nd: List[int] = []\n    for edge in lay.round_edges(sub_round):\n        qa, qb, qc = lay.q2i[edge.left], lay.q2i[edge.right], lay.q2i[edge.center]\n        cnot_targets_1st.append(qa)\n        cnot_targets_1st.append(qc)\n        cnot_targets_2nd.append(qb)\n        cnot_targets_2nd.append(qc)\n",
       "    es = lay.round_edges(sub_round)\n    cnot_targets_1st = [lay.q2i[q] for e in es for q in (e.left, e.center)]\n    cnot_targets_2nd = [lay.q2i[q] for e in es for q in (e.right, e.center)]\n")),
    r("r-em3-for",
      ("    k = 0\n    while k < n:\n        edges = lay.round_edges(k)\n        basis = lay.sub_round_edge_basis(k)\n        tp = [stim.target_x, stim.target_y, stim.target_z][\"XYZ\".index(basis)]\n        circuit = stim.Circuit()\n        circuit.append_operation(\"MPP\", [t for e in edges for t in [tp(lay.q2i[e.left]), stim.target_combiner(), tp(lay.q2i[e.right])]])\n",
       "    k = 0\n    while k < n:\n        edges = lay.round_edges(k)\n        basis = lay.sub_round_edge_basis(k)\n        tp = {\"X\": stim.target_x, \"Y\": stim.target_y, \"Z\": stim.target_z}[basis]\n        circuit = stim.Circuit()\n        ts = []\n        for e in edges:\n            ts += [tp(lay.q2i[e.left]), stim.target_combiner(), tp(lay.q2i[e.right])]\n        circuit.append_operation(\"MPP\", ts)\n")),
    r("r-fold-later", ("if k == 12:", "if k == 15:")),
    r("r-em3-fold-later", ("if k == 7:", "if k == 10:")),
    r("r-sd6-fold-later", ("while next_sub_round < 4 and", "while next_sub_round < 6 and")),
    r("r-obs-comp", ("    if manually_accumulating_obs:\n        moment.append_operation(\n            \"OBSERVABLE_INCLUDE\",\n            mtrack.get_record_targets(*(\n                    set(lay.obs_edges) & set(lay.round_edges(sub_round))\n            )),\n",
                     "    if manually_accumulating_obs:\n        path = set(lay.obs_edges)\n        moment.append_operation(\n            \"OBSERVABLE_INCLUDE\",\n            mtrack.get_record_targets(*[e for e in round_edges if e in path]),\n")),
    r("r-measure-loop", ("    mtrack.add_measurements(*(('1/2', e) for e in round_edges))\n", "    for e in round_edges:\n        mtrack.add_measurements(('1/2', e))\n")),
    r("r-groups-before-obs", ("    for e in round_edges:\n        recover_value_set = [0, 1] if xor_vs_previous else [0]\n        mtrack.add_group(*[Prev(('1/2', e), offset=t) for t in recover_value_set], group_key=e)\n",
                              "    for e in round_edges:\n        parts = [('1/2', e)]\n        if xor_vs_previous:\n            parts.append(Prev(('1/2', e)))\n        mtrack.add_group(*parts, group_key=e)\n")),
    r("r-sd6-step-loop", ("            loop_body = stim.Circuit()\n            loop_body += _sd6_pipeline_step(lay, next_sub_round, mtrack)\n            loop_body += _sd6_pipeline_step(lay, next_sub_round + 1, mtrack)\n            loop_body += _sd6_pipeline_step(lay, next_sub_round + 2, mtrack)\n",
                          "            loop_body = stim.Circuit()\n            for offset in range(3):\n                loop_body += _sd6_pipeline_step(lay, next_sub_round + offset, mtrack)\n")),
    r("r-dispatch", ("    if lay.style == \"SD6\":\n        result += generate_rounds_sd6(lay, mtrack)\n    elif lay.style == \"PC3\":\n        result += generate_rounds_pc3(lay, mtrack)\n    elif lay.style in [\"EM3\", \"EM3_v2\"]:\n        result += generate_rounds_em3(lay, mtrack)\n    elif lay.style == \"SI1000\":\n        result += generate_rounds_SI1000(lay, mtrack)\n    else:\n        raise NotImplementedError(lay.style)\n",
                     "    generators = {\n        \"SD6\": generate_rounds_sd6,\n        \"PC3\": generate_rounds_pc3,\n        \"EM3\": generate_rounds_em3,\n        \"EM3_v2\": generate_rounds_em3,\n        \"SI1000\": generate_rounds_SI1000,\n    }\n    if lay.style not in generators:\n        raise NotImplementedError(lay.style)\n    result += generators[lay.style](lay, mtrack)\n")),
    r("r-final-helper", ("    # Synthesize stabilizers from the six data measurements around hexes of the same basis.\n    for h in lay.round_hex_centers(\"XYZ\".index(obs_basis)):\n        mtrack.add_group(*lay.qubits_around_hex(h), group_key=h)\n        mtrack.append_detector(\n            h, Prev(h),\n            out_circuit=result,\n            coords=[h.real, h.imag, 0],\n        )\n",
                         "    def compare(center):\n        mtrack.append_detector(center, Prev(center), out_circuit=result, coords=(center.real, center.imag, 0))\n\n    same = lay.round_hex_centers(\"XYZ\".index(obs_basis))\n    for h in same:\n        mtrack.add_group(*lay.qubits_around_hex(h), group_key=h)\n    for h in same:\n        compare(h)\n")),
    r("r-pc3-moment-list", ("    while k < n + 2:\n        circuit = stim.Circuit()\n        if 0 <= k < n:\n            circuit.append_operation(lay.sub_round_edge_basis(k) + \"CX\",\n                                     [lay.q2i[q] for e in lay.round_edges(k) for q in [e.left, e.center]])\n        if 0 <= k - 1 < n:\n            circuit.append_operation(lay.sub_round_edge_basis(k - 1) + \"CX\",\n                                     [lay.q2i[q] for e in lay.round_edges(k - 1) for q in [e.right, e.center]])\n",
                           "    while k < n + 2:\n        circuit = stim.Circuit()\n        for j, side in ((k, \"left\"), (k - 1, \"right\")):\n            if 0 <= j < n:\n                targets = []\n                for e in lay.round_edges(j):\n                    targets.append(lay.q2i[e.left if side == \"left\" else e.right])\n                    targets.append(lay.q2i[e.center])\n                circuit.append_operation(f\"{lay.sub_round_edge_basis(j)}CX\", targets)\n")),
    r("r-si-range", ("    circuit = stim.Circuit()\n    circuit += generate_cycle_SI1000(0, lay, mtrack)\n    if n > 3:\n        circuit += generate_cycle_SI1000(3, lay, mtrack)\n    if n > 6:\n        circuit += generate_cycle_SI1000(6, lay, mtrack) * ((n - 6) // 3)\n",
                     "    cycles = n // 3\n    circuit = stim.Circuit()\n    for c in range(min(cycles, 2)):\n        circuit += generate_cycle_SI1000(3 * c, lay, mtrack)\n    if cycles > 2:\n        circuit += generate_cycle_SI1000(6, lay, mtrack) * (cycles - 2)\n")),
    r("r-init-order", ("        mtrack.add_dummies(*lay.round_edges(sub_round), obstacle=sub_round != edge_init)\n        mtrack.add_dummies(*[('1/2', e) for e in lay.round_edges(sub_round)])\n",
                       "        for e in lay.round_edges(sub_round):\n            mtrack.add_dummies(e, obstacle=sub_round != edge_init)\n            mtrack.add_dummies(('1/2', e))\n")),
    r("r-detector-explicit", ("        mtrack.append_detector(h, Prev(h), out_circuit=moment, coords=[h.real, h.imag, 0])\n    moment.append_operation(\"SHIFT",
                              "        targets = mtrack.get_record_targets(h, Prev(h))\n        if targets is not None:\n            moment.append_operation(\"DETECTOR\", targets, [h.real, h.imag, 0])\n    moment.append_operation(\"SHIFT")),
    r("r-extra-rotation-free", ("    if (lay.sub_rounds + 1) % 3 == 0:\n        result.append_operation(\"C_ZYX\", lay.data_qubit_indices)\n    elif (lay.sub_rounds + 2) % 3 == 0:\n        # C_XYZ because C_ZYX**2 == C_XYZ\n        result.append_operation(\"C_XYZ\", lay.data_qubit_indices)\n",
                                "    extra = -lay.sub_rounds % 3\n    if extra == 1:\n        result.append_operation(\"C_ZYX\", lay.data_qubit_indices)\n    if extra == 2:\n        result.append_operation(\"C_XYZ\", lay.data_qubit_indices)\n")),
]
