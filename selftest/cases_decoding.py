D = "decoding.py"
DISP = '''    if decoder == "pymatching":
        use_internal_decoder = False
        use_correlated_decoding = False
    elif decoder == "internal":
        use_internal_decoder = True
        use_correlated_decoding = False
    elif decoder == "internal_correlated":
        use_internal_decoder = True
        use_correlated_decoding = True
    else:
        raise NotImplementedError(f"{decoder=!r}")
'''
SPLIT = '''    if num_obs == 0:
        det_samples = det_obs_samples[:, :]
        obs_samples = det_obs_samples[:, :0]
    else:
        det_samples = det_obs_samples[:, :-num_obs]
        obs_samples = det_obs_samples[:, -num_obs:]
'''
COUNT = '''    all_corrects = np.all(predictions == obs_samples, axis=1)
    return np.count_nonzero(all_corrects)
'''
CALL = '''    decode_method = decode_using_internal_decoder if use_internal_decoder else decode_using_pymatching
    predictions = decode_method(
        det_samples=det_samples,
        circuit=model_circuit,
        use_correlated_decoding=use_correlated_decoding,
    )
'''
PYM = '''    for k in range(num_shots):
        expanded_det = np.resize(det_samples[k], num_dets + 1)
        expanded_det[-1] = 0
        predictions[k] = matching_graph.decode(expanded_det)
'''
SHOTS = '''            for det_sample in det_samples:
                print("shot", file=f, end="")
                for k in np.nonzero(det_sample)[0]:
                    print(f" D{k}", file=f, end="")
                print(file=f)
'''
READ = '''            for shot in range(num_shots):
                for obs_index in range(num_obs):
                    c = f.read(1)
                    assert c in '01'
                    predictions[shot, obs_index] = c == '1'
                assert f.read(1) == '\\n'
'''
ERR = '''                        dets: List[int] = []
                        frames: List[int] = []
                        t: stim.DemTarget
                        p = instruction.args_copy()[0]
                        for t in instruction.targets_copy():
                            if t.is_relative_detector_id():
                                dets.append(t.val + det_offset)
                            elif t.is_logical_observable_id():
                                frames.append(t.val)
                            elif t.is_separator():
                                # Treat each component of a decomposed error as an independent error.
                                # (Ideally we could configure some sort of correlated analysis; oh well.)
                                handle_error(p, dets, frames)
                                frames = []
                                dets = []
                        # Handle last component.
                        handle_error(p, dets, frames)
'''
SHIFT = '''                        det_offset += instruction.targets_copy()[0]
                        a = np.array(instruction.args_copy())
                        coords_offset[:len(a)] += a
'''
MERGE = '''        if g.has_edge(*dets):
            edge_data = g.get_edge_data(*dets)
            old_p = edge_data["error_probability"]
            old_frame_changes = edge_data["qubit_id"]
            # If frame changes differ, the code has distance 2; just keep whichever was first.
            if set(old_frame_changes) == set(frame_changes):
                p = p * (1 - old_p) + old_p * (1 - p)
                g.remove_edge(*dets)
        g.add_edge(*dets, weight=math.log((1 - p) / p), qubit_id=frame_changes, error_probability=p)
'''
PAD = '''    for k in range(num_detectors):
        g.add_node(k)
    g.add_node(num_detectors + 1)
    for k in range(num_detectors + 1):
        g.add_edge(k, num_detectors + 1, weight=9999999999)
    g.add_edge(num_detectors, num_detectors + 1, weight=9999999999, qubit_id=list(range(num_observables)))
'''
ALL = ["C09", "C10", "C11", "C12", "C13"]
CASES = [
 # ---- dispatch
 ("disp-table", ["C09", "C10"], "quiet", [(D, DISP, '''    if decoder not in ("pymatching", "internal", "internal_correlated"):
        raise NotImplementedError(f"{decoder=!r}")
    use_internal_decoder = decoder != "pymatching"
    use_correlated_decoding = decoder == "internal_correlated"
''')]),
 ("disp-dict", ["C09", "C10"], "quiet", [(D, DISP, '''    known = {
        "pymatching": (False, False),
        "internal": (True, False),
        "internal_correlated": (True, True),
    }
    if decoder not in known:
        raise NotImplementedError(f"{decoder=!r}")
    use_internal_decoder, use_correlated_decoding = known[decoder]
''')]),
 ("disp-helper", ["C09", "C10"], "quiet", [(D, DISP, '''    use_internal_decoder, use_correlated_decoding = _parse_decoder(decoder)
'''), (D, "def decode_using_pymatching(", '''def _parse_decoder(name):
    if name == "pymatching":
        return False, False
    if name == "internal":
        return True, False
    if name == "internal_correlated":
        return True, True
    raise NotImplementedError(f"decoder={name!r}")


def decode_using_pymatching(''')]),
 ("call-ifelse", ["C09", "C10"], "quiet", [(D, CALL, '''    if use_internal_decoder:
        predictions = decode_using_internal_decoder(model_circuit, det_samples, use_correlated_decoding)
    else:
        predictions = decode_using_pymatching(model_circuit, det_samples, use_correlated_decoding)
''')]),
 ("disp-startswith", ["C09"], "alarm", [(D, '    elif decoder == "internal_correlated":', '    elif decoder.startswith("internal"):')]),
 ("disp-default", ["C09"], "alarm", [(D, '''    else:
        raise NotImplementedError(f"{decoder=!r}")

    num_dets''', '''    else:
        use_internal_decoder = False
        use_correlated_decoding = False

    num_dets''')]),
 ("disp-corr-off", ["C09"], "alarm", [(D, '''        use_internal_decoder = True
        use_correlated_decoding = True
''', '''        use_internal_decoder = True
        use_correlated_decoding = False
''')]),
 ("disp-late-raise", ["C09"], "alarm", [(D, DISP, '''    use_internal_decoder = decoder in ("internal", "internal_correlated")
    use_correlated_decoding = decoder == "internal_correlated"
'''), (D, "    # Have the decoder produce", '''    if decoder not in ("pymatching", "internal", "internal_correlated"):
        raise NotImplementedError(f"{decoder=!r}")
    # Have the decoder produce''')]),
 ("fallback", ["C09"], "alarm", [(D, CALL, '''    try:
        predictions = (decode_using_internal_decoder if use_internal_decoder else decode_using_pymatching)(
            det_samples=det_samples, circuit=model_circuit, use_correlated_decoding=use_correlated_decoding)
    except RuntimeError:
        predictions = decode_using_pymatching(
            det_samples=det_samples, circuit=model_circuit, use_correlated_decoding=False)
''')]),
 ("pym-ignores-corr", ["C09", "C10"], "alarm", [(D, '''    if use_correlated_decoding:
        raise NotImplementedError("pymatching doesn't support correlated decoding")

''', '')]),
 ("internal-missing-pym", ["C09", "C11"], "alarm", [(D, '''        if path is None:
            raise RuntimeError(
                "You need an `internal_decoder.binary` file in the working directory to "
                "use `decoder=internal` or `decoder=internal_correlated`.")
''', '''        if path is None:
            return decode_using_pymatching(circuit, det_samples, False)
''')]),
 ("corr-flag-dropped", ["C09"], "alarm", [(D, '" -cheap_corr -edge_corr -node_corr"', '" -cheap_corr -edge_corr"')]),
 ("corr-always", ["C09"], "alarm", [(D, 'f"-ignore_distance_1_errors "', 'f"-ignore_distance_1_errors -node_corr "')]),
 ("corr-flags-list", ["C09", "C11"], "quiet", [(D, '''            command += " -cheap_corr -edge_corr -node_corr"
''', '''            for flag in ("cheap", "edge", "node"):
                command += f" -{flag}_corr"
''')]),
 # ---- scoring
 ("split-abs", ["C10"], "quiet", [(D, SPLIT, '''    det_samples = det_obs_samples[:, :num_dets]
    obs_samples = det_obs_samples[:, num_dets:]
''')]),
 ("split-sep", ["C10"], "quiet", [(D, "    det_obs_samples = circuit.compile_detector_sampler().sample(num_shots, append_observables=True)\n", ""),
     (D, SPLIT, "    det_samples, obs_samples = circuit.compile_detector_sampler().sample(shots=num_shots, separate_observables=True)\n")]),
 ("count-loop", ["C10"], "quiet", [(D, COUNT, '''    total = 0
    for prediction, actual in zip(predictions, obs_samples):
        if np.array_equal(prediction, actual):
            total += 1
    return total
''')]),
 ("count-sum", ["C10"], "quiet", [(D, COUNT, '''    return int(np.sum(np.all(predictions == obs_samples, axis=1)))
''')]),
 ("count-any", ["C10"], "quiet", [(D, COUNT, '''    wrong = np.any(predictions != obs_samples, axis=1)
    return num_shots - np.count_nonzero(wrong)
''')]),
 ("count-any-bug", ["C10"], "alarm", [(D, "np.all(predictions == obs_samples, axis=1)", "np.any(predictions == obs_samples, axis=1)")]),
 ("count-axis0", ["C10"], "alarm", [(D, "np.all(predictions == obs_samples, axis=1)", "np.all(predictions == obs_samples, axis=0)")]),
 ("count-first-obs", ["C10"], "alarm", [(D, "np.all(predictions == obs_samples, axis=1)", "predictions[:, 0] == obs_samples[:, 0]")]),
 ("split-off", ["C10"], "alarm", [(D, "        det_samples = det_obs_samples[:, :-num_obs]", "        det_samples = det_obs_samples[:, :num_dets - 1]")]),
 ("model-sampled", ["C10"], "alarm", [(D, "circuit.compile_detector_sampler().sample(", "model_circuit.compile_detector_sampler().sample(")]),
 ("model-ignored", ["C10"], "alarm", [(D, "circuit=model_circuit,", "circuit=circuit,")]),
 ("blind", ["C10"], "alarm", [(D, "        det_samples=det_samples,\n        circuit=model_circuit", "        det_samples=det_obs_samples[:, :num_dets],\n        circuit=model_circuit"),
     (D, "    assert predictions.shape == obs_samples.shape\n", "    assert predictions.shape == obs_samples.shape\n    predictions[:, 0] = obs_samples[:, 0]\n")]),
 ("drop-shots", ["C10"], "alarm", [(D, COUNT, '''    keep = np.any(det_samples, axis=1)
    all_corrects = np.all(predictions[keep] == obs_samples[keep], axis=1)
    return np.count_nonzero(all_corrects)
''')]),
 ("pym-append", ["C10"], "quiet", [(D, PYM, '''    for k in range(num_shots):
        predictions[k] = matching_graph.decode(np.append(det_samples[k], 0))
''')]),
 ("pym-enumerate", ["C10"], "quiet", [(D, PYM, '''    for k, row in enumerate(det_samples):
        padded = np.zeros(num_dets + 1, dtype=np.bool8)
        padded[:num_dets] = row
        predictions[k] = matching_graph.decode(padded)
''')]),
 ("pym-no-clear", ["C10"], "alarm", [(D, "        expanded_det[-1] = 0\n", "")]),
 ("pym-stale", ["C10"], "alarm", [(D, PYM, '''    for k in range(num_shots):
        expanded_det = np.resize(det_samples[k - 1], num_dets + 1)
        expanded_det[-1] = 0
        predictions[k] = matching_graph.decode(expanded_det)
''')]),
 ("pym-skip-quiet-shots", ["C10"], "alarm", [(D, "        predictions[k] = matching_graph.decode(expanded_det)", "        if k % 1024:\n            predictions[k] = matching_graph.decode(expanded_det)")]),
 # ---- exchange
 ("shots-join", ["C10", "C11"], "quiet", [(D, SHOTS, '''            for det_sample in det_samples:
                print("shot" + "".join(f" D{k}" for k in np.nonzero(det_sample)[0]), file=f)
''')]),
 ("shots-flatnonzero", ["C10", "C11"], "quiet", [(D, "np.nonzero(det_sample)[0]", "np.flatnonzero(det_sample)")]),
 ("shots-enumerate", ["C10", "C11"], "quiet", [(D, SHOTS, '''            for s in range(num_shots):
                f.write("shot")
                for k, fired in enumerate(det_samples[s]):
                    if fired:
                        f.write(f" D{k}")
                f.write("\\n")
''')]),
 ("shots-helper", ["C10", "C11"], "quiet", [(D, SHOTS, '''            _write_shots(det_samples, f)
'''), (D, "def decode_using_internal_decoder(", '''def _write_shots(det_samples, f):
    for det_sample in det_samples:
        print("shot", file=f, end="")
        for k in np.nonzero(det_sample)[0]:
            print(f" D{k}", file=f, end="")
        print(file=f)


def decode_using_internal_decoder(''')]),
 ("shots-skip-empty", ["C10", "C11"], "alarm", [(D, '                print("shot", file=f, end="")\n', '                if not np.any(det_sample):\n                    continue\n                print("shot", file=f, end="")\n')]),
 ("shots-off-by-one", ["C10", "C11"], "alarm", [(D, 'print(f" D{k}", file=f, end="")', 'print(f" D{k + 1}", file=f, end="")')]),
 ("shots-no-space", ["C11"], "alarm", [(D, 'print(f" D{k}", file=f, end="")', 'print(f"D{k}", file=f, end="")')]),
 ("model-undecomposed", ["C11"], "alarm", [(D, '''    error_model = circuit.detector_error_model(decompose_errors=True)

    with''', '''    error_model = circuit.detector_error_model()

    with''')]),
 ("model-flattened", ["C11"], "quiet", [(D, "print(error_model, file=f)", "f.write(str(error_model))\n            f.write('\\n')")]),
 ("call-nocheck", ["C11"], "alarm", [(D, "subprocess.check_output(command, shell=True)", "subprocess.call(command, shell=True)")]),
 ("call-run-check", ["C11"], "quiet", [(D, "subprocess.check_output(command, shell=True)", "subprocess.run(command, shell=True, check=True)")]),
 ("no-reraise", ["C11"], "alarm", [(D, "file=sys.stderr)\n            raise\n", "file=sys.stderr)\n")]),
 ("reraise-some", ["C11"], "alarm", [(D, "file=sys.stderr)\n            raise\n", "file=sys.stderr)\n            if use_correlated_decoding:\n                raise\n")]),
 ("read-lines", ["C11"], "alarm", [(D, "                assert f.read(1) == '\\n'\n", "                f.readline()\n")]),
 ("read-explicit", ["C11"], "quiet", [(D, READ, '''            for shot in range(num_shots):
                for obs_index in range(num_obs):
                    c = f.read(1)
                    if c not in ('0', '1'):
                        raise ValueError(c)
                    predictions[shot][obs_index] = c == '1'
                end = f.read(1)
                assert end == '\\n'
''')]),
 ("read-lenient-char", ["C11"], "alarm", [(D, "                    assert c in '01'\n", "")]),
 ("read-lenient-nl", ["C11"], "alarm", [(D, "assert f.read(1) == '\\n'", "assert f.read(1) in '\\n'")]),
 ("read-swapped", ["C10", "C11"], "alarm", [(D, "predictions[shot, obs_index] = c == '1'", "predictions[shot, num_obs - 1 - obs_index] = c == '1'")]),
 ("read-inverted", ["C10", "C11"], "alarm", [(D, "c == '1'", "c == '0'")]),
 ("path-loop", ["C11"], "quiet", [(D, '''        path = possible_dirs + "internal_decoder.binary"
        if pathlib.Path(path).exists():
            return path
''', '''        path = f"{possible_dirs}internal_decoder.binary"
        if not pathlib.Path(path).exists():
            continue
        return path
''')]),
 ("path-or", ["C11"], "alarm", [(D, "    return None\n\n\ndef decode_using_internal_decoder", "    return \"./internal_decoder.binary\"\n\n\ndef decode_using_internal_decoder")]),
 # ---- flattening
 ("flat-error-helper", ["C12"], "quiet", [(D, ERR, '''                        _report_components(instruction)
'''), (D, "    def _helper(m: stim.DetectorErrorModel, reps: int):", '''    def _report_components(instruction):
        p = instruction.args_copy()[0]
        dets = []
        frames = []
        for t in instruction.targets_copy():
            if t.is_separator():
                handle_error(p, dets, frames)
                dets, frames = [], []
            elif t.is_logical_observable_id():
                frames.append(t.val)
            else:
                dets.append(det_offset + t.val)
        handle_error(p, dets, frames)

    def _helper(m: stim.DetectorErrorModel, reps: int):''')]),
 ("flat-shift-helper", ["C12"], "quiet", [(D, SHIFT, '''                        _shift(instruction)
'''), (D, "    def _helper(m: stim.DetectorErrorModel, reps: int):", '''    def _shift(instruction):
        nonlocal det_offset
        det_offset = det_offset + instruction.targets_copy()[0]
        a = np.array(instruction.args_copy())
        coords_offset[:len(a)] += a

    def _helper(m: stim.DetectorErrorModel, reps: int):'''), (D, "        nonlocal coords_offset\n", "")]),
 ("flat-rename", ["C12"], "quiet", [(D, "_helper", "_walk"), (D, "reps: int", "times: int"), (D, "range(reps)", "range(times)")]),
 ("flat-no-nonlocal-arr", ["C12"], "quiet", [(D, "        nonlocal coords_offset\n", "")]),
 ("flat-order", ["C12"], "quiet", [(D, '''                if isinstance(instruction, stim.DemRepeatBlock):
                    _helper(instruction.body_copy(), instruction.repeat_count)
                elif isinstance(instruction, stim.DemInstruction):
''', '''                if isinstance(instruction, stim.DemRepeatBlock):
                    body = instruction.body_copy()
                    count = instruction.repeat_count
                    _helper(m=body, reps=count)
                elif isinstance(instruction, stim.DemInstruction):
''')]),
 ("flat-rep-minus", ["C12"], "alarm", [(D, "_helper(instruction.body_copy(), instruction.repeat_count)", "_helper(instruction.body_copy(), max(1, instruction.repeat_count - 1))")]),
 ("flat-reset-offset", ["C12"], "alarm", [(D, "                    _helper(instruction.body_copy(), instruction.repeat_count)\n", "                    saved = det_offset\n                    _helper(instruction.body_copy(), instruction.repeat_count)\n                    det_offset = saved\n")]),
 ("flat-clear", ["C12"], "alarm", [(D, "                                frames = []\n                                dets = []\n", "                                frames.clear()\n                                dets.clear()\n")]),
 ("flat-frames-kept", ["C12"], "alarm", [(D, "                                frames = []\n                                dets = []\n", "                                dets = []\n")]),
 ("flat-coord-abs", ["C12"], "alarm", [(D, "a + coords_offset[:len(a)])", "a)")]),
 ("flat-coord-det", ["C12"], "alarm", [(D, "handle_detector_coords(t.val + det_offset", "handle_detector_coords(t.val")]),
 ("flat-shift-set", ["C12"], "alarm", [(D, "coords_offset[:len(a)] += a", "coords_offset[:len(a)] = a")]),
 ("flat-no-last", ["C12"], "alarm", [(D, "                        # Handle last component.\n                        handle_error(p, dets, frames)\n", "                        if dets:\n                            handle_error(p, dets, frames)\n")]),
 ("flat-unknown", ["C12"], "alarm", [(D, '''                    elif instruction.type == "logical_observable":
                        pass
                    else:
                        raise NotImplementedError()
''', '')]),
 ("flat-obs-shift", ["C12"], "alarm", [(D, "frames.append(t.val)", "frames.append(t.val + det_offset)")]),
 # ---- graph
 ("edge-unpack", ["C13"], "quiet", [(D, MERGE, '''        a, b = dets
        if g.has_edge(a, b):
            data = g.get_edge_data(a, b)
            old_p = data["error_probability"]
            if set(data["qubit_id"]) == set(frame_changes):
                p = p * (1 - old_p) + old_p * (1 - p)
                g.remove_edge(a, b)
        g.add_edge(a, b, weight=math.log((1 - p) / p), qubit_id=frame_changes, error_probability=p)
''')]),
 ("edge-logs", ["C13"], "quiet", [(D, "weight=math.log((1 - p) / p)", "weight=math.log(1 - p) - math.log(p)")]),
 ("edge-helper", ["C13"], "quiet", [(D, "p = p * (1 - old_p) + old_p * (1 - p)", "p = _odd(p, old_p)"), (D, "def detector_error_model_to_nx_graph(", '''def _odd(p, q):
    return p + q - 2 * p * q


def detector_error_model_to_nx_graph(''')]),
 ("edge-early-return", ["C13"], "quiet", [(D, "        if p == 0:\n            return\n        if len(dets) == 0:", "        if p == 0 or not dets:\n            return\n        if len(dets) == 0:")]),
 ("edge-merge-helper", ["C13"], "quiet", [(D, MERGE, '''        _put(g, dets, p, frame_changes)
'''), (D, "def detector_error_model_to_nx_graph(", '''def _put(graph, dets, p, frame_changes):
''' + MERGE.replace("        g.", "    graph.").replace("        if g.", "    if graph.").replace("g.get", "graph.get").replace("g.remove", "graph.remove").replace("            ", "        ").replace("            ", "            ") + '''

def detector_error_model_to_nx_graph(''')]),
 ("edge-keep-first", ["C13"], "quiet", [(D, """                g.remove_edge(*dets)
""", """                g.remove_edge(*dets)
            else:
                return
""")]),
 ("edge-sum", ["C13"], "alarm", [(D, "p = p * (1 - old_p) + old_p * (1 - p)", "p = p + old_p")]),
 ("edge-or", ["C13"], "alarm", [(D, "p = p * (1 - old_p) + old_p * (1 - p)", "p = 1 - (1 - old_p) * (1 - p)")]),
 ("edge-no-frame-test", ["C13"], "alarm", [(D, "if set(old_frame_changes) == set(frame_changes):", "if True:")]),
 ("edge-frame-order", ["C13"], "alarm", [(D, "if set(old_frame_changes) == set(frame_changes):", "if old_frame_changes == frame_changes:")]),
 ("edge-weight", ["C13"], "alarm", [(D, "weight=math.log((1 - p) / p)", "weight=-math.log(p)")]),
 ("edge-boundary", ["C13"], "alarm", [(D, "dets = [dets[0], boundary_node]", "dets = [dets[0], boundary_node + 1]")]),
 ("edge-many", ["C13"], "alarm", [(D, '''            raise NotImplementedError(
                f"Error with more than 2 symptoms can't become an edge or boundary edge: {dets!r}.")
''', '''            dets = dets[:2]
''')]),
 ("edge-prob-stale", ["C13"], "alarm", [(D, "qubit_id=frame_changes, error_probability=p)", "qubit_id=frame_changes, error_probability=min(p, 0.5))")]),
 ("pad-from", ["C13"], "quiet", [(D, PAD, '''    g.add_nodes_from(range(num_detectors))
    spare = num_detectors + 1
    g.add_node(spare)
    for k in range(num_detectors):
        g.add_edge(k, spare, weight=9999999999)
    g.add_edge(num_detectors, spare, weight=9999999999, qubit_id=list(range(num_observables)))
''')]),
 ("pad-edges-from", ["C13"], "quiet", [(D, PAD, '''    g.add_edges_from(((k, num_detectors + 1) for k in range(num_detectors + 1)), weight=9999999999)
    g.add_edge(num_detectors, num_detectors + 1, weight=9999999999, qubit_id=[o for o in range(num_observables)])
''')]),
 ("pad-helper", ["C13"], "quiet", [(D, PAD, '''    _pad(g, num_detectors, num_observables)
'''), (D, "def detector_error_model_to_pymatching_graph(", "def _pad(g, num_detectors, num_observables):\n" + PAD + "\n\ndef detector_error_model_to_pymatching_graph(")]),
 ("pad-chain", ["C13"], "alarm", [(D, "        g.add_edge(k, num_detectors + 1, weight=9999999999)", "        g.add_edge(k, k + 1, weight=9999999999)")]),
 ("pad-boundary", ["C13"], "alarm", [(D, "    for k in range(num_detectors + 1):\n        g.add_edge(k, num_detectors + 1, weight=9999999999)", "    for k in range(num_detectors):\n        g.add_edge(k, num_detectors, weight=9999999999)")]),
 ("pad-obs", ["C13"], "alarm", [(D, "qubit_id=list(range(num_observables))", "qubit_id=list(range(num_observables - 1))")]),
 ("pad-short", ["C13"], "alarm", [(D, "    for k in range(num_detectors + 1):\n", "    for k in range(1, num_detectors + 1):\n")]),
 ("pad-light", ["C13"], "alarm", [(D, "        g.add_edge(k, num_detectors + 1, weight=9999999999)", "        g.add_edge(k, num_detectors + 1, weight=1)")]),
]
