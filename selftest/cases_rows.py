F = "collect_data.py"
REC = '''            record = ",".join(str(e) for e in [
                problem.desc.data_width,
                problem.desc.data_height,
                problem.desc.rounds,
                problem.desc.noise,
                problem.desc.circuit_style,
                problem.desc.preserved_observable,
                problem.desc.code_distance,
                problem.desc.num_qubits,
                num_next_shots,
                num_correct,
                t1 - t0,
                problem.desc.decoder,
                CSV_HEADER_VERSION,
            ])
            if out_path is not None:
                with open(out_path, "a") as f:
                    print(record, file=f)
            print(record, flush=True)

'''
HEAD = '''    print(CSV_HEADER, flush=True)
    if out_path is not None:
        if discard_previous_data or not pathlib.Path(out_path).exists():
            with open(out_path, "w") as f:
                print(CSV_HEADER, file=f)
'''
REC2 = '''        record = ",".join(str(e) for e in [
            problem.desc.data_width,
            problem.desc.data_height,
            problem.desc.rounds,
            problem.desc.noise,
            problem.desc.circuit_style,
            "-",
            problem.desc.code_distance,
            problem.desc.num_qubits,
            num_samples,
            num_samples - num_detections,
            t1 - t0,
            "detection_fraction",
            CSV_HEADER_VERSION,
        ])
        if out_path is not None:
            with open(out_path, "a") as f:
                print(record, file=f)
        print(record, flush=True)
'''
LOOP = '''    for problem in problems:
        num_seen_errors = 0
'''
HELP = '''

def _emit(record, out_path):
    if out_path is not None:
        with open(out_path, "a") as f:
            print(record, file=f)
    print(record, flush=True)


def _start_file(out_path, discard):
    print(CSV_HEADER, flush=True)
    if out_path is None:
        return
    if pathlib.Path(out_path).exists() and not discard:
        return
    with open(out_path, "w") as f:
        f.write(CSV_HEADER + "\\n")


def _row(desc, observable, shots, correct, seconds, decoder):
    return ",".join(map(str, (desc.data_width, desc.data_height, desc.rounds, desc.noise, desc.circuit_style,
                     observable, desc.code_distance, desc.num_qubits, shots, correct, seconds, decoder, CSV_HEADER_VERSION)))
'''
ALL = ["C01", "C03", "C04"]
A = "paper/aggregate_csv_data.py"
CASES = [
 ("helpers", ALL, "quiet", [(F, REC, '''            _emit(_row(problem.desc, problem.desc.preserved_observable, num_next_shots, num_correct, t1 - t0, problem.desc.decoder), out_path)

'''), (F, REC2, '''        _emit(_row(problem.desc, "-", num_samples, num_samples - num_detections, t1 - t0, "detection_fraction"), out_path)
'''), (F, HEAD, "    _start_file(out_path, discard_previous_data)\n"), (F, None, HELP)]),
 ("fstr", ALL, "quiet", [(F, REC, '''            desc = problem.desc
            record = (f"{desc.data_width},{desc.data_height},{desc.rounds},{desc.noise},{desc.circuit_style},"
                      f"{desc.preserved_observable},{desc.code_distance},{desc.num_qubits},{num_next_shots},{num_correct},"
                      f"{t1 - t0},{desc.decoder},{CSV_HEADER_VERSION}")
            print(record, flush=True)
            if out_path is not None:
                with open(out_path, "a") as f:
                    f.write(record + "\\n")

''')]),
 ("dict", ALL, "quiet", [(F, REC, '''            values = {
                "data_width": problem.desc.data_width,
                "data_height": problem.desc.data_height,
                "rounds": problem.desc.rounds,
                "noise": problem.desc.noise,
                "circuit_style": problem.desc.circuit_style,
                "preserved_observable": problem.desc.preserved_observable,
                "code_distance": problem.desc.code_distance,
                "num_qubits": problem.desc.num_qubits,
                "num_shots": num_next_shots,
                "num_correct": num_correct,
                "total_processing_seconds": t1 - t0,
                "decoder": problem.desc.decoder,
                "version": CSV_HEADER_VERSION,
            }
            record = ",".join(str(values[column]) for column in CSV_HEADER.split(","))
            if out_path is not None:
                with open(out_path, "a") as f:
                    print(record, file=f)
            print(record, flush=True)

''')]),
 ("swap", ["C01"], "alarm", [(F, REC, REC.replace("problem.desc.data_width,\n                problem.desc.data_height", "problem.desc.data_height,\n                problem.desc.data_width"))]),
 ("round", ["C01"], "alarm", [(F, REC, REC.replace("t1 - t0", "round(t1 - t0, 3)"))]),
 ("noiseg", ["C01"], "alarm", [(F, REC, REC.replace("problem.desc.noise", "f'{problem.desc.noise:.6g}'"))]),
 ("errs", ["C01"], "alarm", [(F, REC, REC.replace("num_correct,", "num_next_shots - num_correct,"))]),
 ("cum", ["C01"], "alarm", [(F, REC, REC.replace("num_next_shots,", "total_shots + num_next_shots,"))]),
 ("t0", ["C01"], "alarm", [(F, "            t0 = time.monotonic()\n            num_correct = sample", "            num_correct = sample"), (F, "        total_shots = 0\n        while True:\n", "        total_shots = 0\n        t0 = time.monotonic()\n        while True:\n")]),
 ("stdoutonly", ["C01"], "alarm", [(F, REC, REC.replace("print(record, file=f)", "print(record.replace('honeycomb_', ''), file=f)"))]),
 ("frac_obs", ["C01"], "alarm", [(F, REC2, REC2.replace('"-"', "problem.desc.preserved_observable"))]),
 ("frac_det", ["C01"], "alarm", [(F, REC2, REC2.replace("num_samples - num_detections", "num_detections"))]),
 ("frac_size", ["C01"], "quiet", [(F, "math.prod(samples.shape)", "samples.size")]),
 ("hdr_noflag", ["C03"], "alarm", [(F, HEAD, HEAD.replace("discard_previous_data or not pathlib", "not discard_previous_data or not pathlib"))]),
 ("hdr_always", ["C03"], "alarm", [(F, HEAD, HEAD.replace('''        if discard_previous_data or not pathlib.Path(out_path).exists():
            with open(out_path, "w") as f:
                print(CSV_HEADER, file=f)
''', '''        with open(out_path, "w" if discard_previous_data else "a") as f:
            print(CSV_HEADER, file=f)
'''))]),
 ("hdr_exist", ["C03"], "alarm", [(F, HEAD, HEAD.replace("not pathlib.Path(out_path).exists()", "pathlib.Path(out_path).exists()"))]),
 ("hdr_perproblem", ["C03"], "alarm", [(F, LOOP, '''    for problem in problems:
        if out_path is not None and discard_previous_data:
            with open(out_path, "w") as f:
                print(CSV_HEADER, file=f)
        num_seen_errors = 0
''')]),
 ("keepopen", ["C03"], "alarm", [(F, LOOP, '''    out = open(out_path, "a") if out_path is not None else None
    for problem in problems:
        num_seen_errors = 0
'''), (F, REC, REC.replace('''                with open(out_path, "a") as f:
                    print(record, file=f)
''', '''                print(record, file=out)
'''))]),
 ("wmode", ["C03"], "alarm", [(F, REC, REC.replace('open(out_path, "a")', 'open(out_path, "w")'))]),
 ("agg_swap", ["C01"], "alarm", [(A, "shot_data.num_shots,\n            shot_data.num_correct", "shot_data.num_correct,\n            shot_data.num_shots")]),
 ("agg_noise", ["C01"], "alarm", [(A, "desc.noise,", "'%.4f' % desc.noise,")]),
 ("agg_miss", ["C01"], "alarm", [(A, "            desc.num_qubits,\n", "")]),
 ("agg_ref", ["C01"], "quiet", [(A, '''    all_data.data = {k: v for k, v in sorted(all_data.data.items())}

    print(CSV_HEADER)
    for desc, shot_data in all_data.data.items():
''', '''    print(CSV_HEADER)
    for desc in sorted(all_data.data):
        shot_data = all_data.data[desc]
''')]),
 ("agg_filter", ["C01"], "alarm", [(A, "    for desc, shot_data in all_data.data.items():\n", "    for desc, shot_data in all_data.data.items():\n        if shot_data.num_errors == 0:\n            continue\n")]),
]
