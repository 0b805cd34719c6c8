LF, TF, DF, PL, PU, MC = ("paper/main_render_lambda_figure.py", "paper/main_render_threshold_figure.py", "paper/main_render_detection_fraction_figure.py", "plotting.py",
                          "probability_util.py", "paper/main_collect_all.py")
LAMB = '''            lambda_xs = []
            lambda_ys = []
            lambda_ys_low = []
            lambda_ys_high = []
            noises = sorted(groups.keys())
            if not noises:
                continue
            for k, noise in enumerate(noises):
                group = groups[noise]
                if group.appears_to_be_suppressing_errors:
                    l1, l2, l3 = group.projected_lambda_range()
                    lambda_xs.append(noise)
                    lambda_ys_low.append(l1)
                    lambda_ys.append(l2)
                    lambda_ys_high.append(l3)
                    if group.has_low_confidence_extrapolation:
                        poor_xs.append(noise)
                        poor_ys.append(l2)
'''
LABEL = '''            rep = groups[noises[0]].rep
            label = rep.circuit_style
            if label.endswith("_v2"):
                label = label[:-3]
            if label.endswith("_" + name):
                label = label[:-len(name) - 1]
            label = label.capitalize()
            if "correlated" in rep.decoder:
                label += " (Correlated)"
            else:
                label += " (Standard)"
            ax.plot(lambda_xs, lambda_ys, marker="ov*s"[case_i], label=label, zorder=100 - i)
            ax.fill_between(lambda_xs, lambda_ys_low, lambda_ys_high, alpha=0.3)

        have_any_poor |= bool(poor_ys)
        if have_any_poor:
            ax.scatter(poor_xs, poor_ys, s=200, color="red", zorder=100, alpha=0.3)

        ax.set_xlabel("Physical Error Rate")
        ax.set_ylabel("Lambda Factor")
'''
CASES = [
    ("lambda skip first", ["C32", "C34"], "quiet", [(LF, LAMB, LAMB.replace('''                if group.appears_to_be_suppressing_errors:
''', '''                if not group.appears_to_be_suppressing_errors:
                    continue
                if True:
'''))]),
    ("lambda items", ["C32", "C34"], "quiet", [(LF, LAMB, LAMB.replace('''            for k, noise in enumerate(noises):
                group = groups[noise]
''', '''            for noise, group in sorted(groups.items()):
'''))]),
    ("lambda empty first", ["C32", "C34"], "quiet", [(LF, LAMB, '''            if len(groups) == 0:
                continue
            noises = sorted(groups)
            points = []
            for noise in noises:
                group = groups[noise]
                if group.appears_to_be_suppressing_errors:
                    points.append((noise, group.projected_lambda_range(), group.has_low_confidence_extrapolation))
            lambda_xs = [x for x, _, _ in points]
            lambda_ys_low = [r[0] for _, r, _ in points]
            lambda_ys = [r[1] for _, r, _ in points]
            lambda_ys_high = [r[2] for _, r, _ in points]
            poor_xs += [x for x, _, poor in points if poor]
            poor_ys += [r[1] for _, r, poor in points if poor]
''')]),
    ("lambda label helper", ["C32", "C34"], "quiet", [(LF, LABEL, LABEL[:LABEL.index("            label = rep")] + "            label = lambda_label(rep.circuit_style, rep.decoder, name)\n" + LABEL[LABEL.index("            ax.plot"):]),
        (LF, "def plot_lambda_combo(", '''def lambda_label(style: str, decoder: str, noise_name: str) -> str:
    if style.endswith("_v2"):
        style = style[:-len("_v2")]
    suffix = f"_{noise_name}"
    if style.endswith(suffix):
        style = style[:-len(suffix)]
    kind = "Correlated" if "correlated" in decoder else "Standard"
    return f"{style.capitalize()} ({kind})"


def plot_lambda_combo(''')]),
    ("lambda poor flag", ["C32"], "quiet", [(LF, LABEL, LABEL.replace('''        have_any_poor |= bool(poor_ys)
''', '''        if len(poor_ys) > 0:
            have_any_poor = True
'''))]),
    ("lambda wrong range order", ["C32"], "alarm", [(LF, LAMB, LAMB.replace("l1, l2, l3 = group", "l1, l3, l2 = group"))]),
    ("lambda drops ranges of poor", ["C32"], "alarm", [(LF, LAMB, LAMB.replace("                    if group.has_low", "                    elif group.has_low") if False else LAMB.replace("                if group.appears_to_be_suppressing_errors:", "                if group.appears_to_be_suppressing_errors and not group.has_low_confidence_extrapolation:"))]),
    ("lambda label of last noise", ["C32"], "alarm", [(LF, '            ax.plot(lambda_xs, lambda_ys, marker="ov*s"[case_i], label=label, zorder=100 - i)', '            ax.plot(lambda_xs, lambda_ys, marker="ov*s"[case_i], label=rep.circuit_style, zorder=100 - i)')]),
    ("threshold panel data", ["C32", "C34"], "quiet", [(TF, '''            used.add((row, col))
            style_data = all_groups.get(style_obs_decoder, ProblemShotData({}))
            ax: plt.Axes = axs[row][col]
''', '''            used.add((row, col))
            if style_obs_decoder in all_groups:
                style_data = all_groups[style_obs_decoder]
            else:
                style_data = ProblemShotData({})
''')]),
    ("threshold row label", ["C32", "C34"], "quiet", [(TF, '''        if obs == "H":
            obs = "Horizontal"
        if obs == "V":
            obs = "Vertical"
        style = style.split("_")[0]
        style = style.capitalize()
        if "correlated" in decoder:
            style += " (Correlated)"
        else:
            style += " (Standard)"
        axs[k][0].set_ylabel(f"{style}\\n{obs} Observable\\nCode Cell Error Rate")
''', '''        obs = {"H": "Horizontal", "V": "Vertical"}.get(obs, obs)
        code, *_ = style.split("_")
        kind = " (Correlated)" if "correlated" in decoder else " (Standard)"
        axs[k][0].set_ylabel("\\n".join([code.capitalize() + kind, obs + " Observable", "Code Cell Error Rate"]))
''')]),
    ("threshold outer labels", ["C32", "C34"], "quiet", [(TF, '''    for row in range(nrows):
        for col in range(ncols):
            if (row + 1, col) in used:
                axs[row][col].set_xlabel("")
            if (row - 1, col) in used:
                axs[row][col].set_title("")
            if (row, col - 1) in used:
                axs[row][col].set_ylabel("")
''', '''    for row, col in ((r, c) for r in range(nrows) for c in range(ncols)):
        here = axs[row][col]
        below, above, left = (row + 1, col), (row - 1, col), (row, col - 1)
        if below in used:
            here.set_xlabel("")
        if above in used:
            here.set_title("")
        if left in used:
            here.set_ylabel("")
''')]),
    ("threshold titles all blanked", ["C32"], "alarm", [(TF, "            if (row - 1, col) in used:\n", "            if (row, col) in used:\n")]),
    ("detection series by comprehension", ["C32", "C34"], "quiet", [(DF, '''            xs = []
            ys = []
            for k, v in case_data.data.items():
                xs.append(k.code_distance)
                ys.append(v.logical_error_rate)
            order = p2i[noise]
''', '''            records = list(case_data.data.items())
            xs = [desc.code_distance for desc, _ in records]
            ys = [shots.logical_error_rate for _, shots in records]
            order = p2i[noise]
''')]),
    ("detection noise order list", ["C32", "C34"], "quiet", [(DF, '''p2i = {p: i for i, p in enumerate(sorted(set(e.noise for e in all_data.data.keys())))}''', '''all_noises = {e.noise for e in all_data.data}
    p2i = dict(zip(sorted(all_noises), range(len(all_noises))))''')]),
    ("detection rate of first", ["C32"], "alarm", [(DF, "                ys.append(v.logical_error_rate)", "                ys.append(v.num_errors / v.num_shots if k.rounds else 0)")]),
    ("plot rates helper", ["C31", "C34"], "quiet", [(PL, '''        def cor(p: float) -> float:
            return total_error_to_per_piece_error(p, pieces=cells)
''', '''        cor = functools.partial(total_error_to_per_piece_error, pieces=cells)
'''), (PL, "import math\n", "import functools\nimport math\n")]),
    ("plot enumerate groups", ["C31", "C34"], "quiet", [(PL, '''    order = 0
    d: DecodingProblemDesc
    for key, vals in data.grouped_by(lambda e: e.with_changes(noise=0)).items():
''', '''    groups = data.grouped_by(lambda e: e.with_changes(noise=0))
    for order, (key, vals) in enumerate(groups.items()):
'''), (PL, "        order += 1\n", "")]),
    ("plot sorted records", ["C31", "C34"], "quiet", [(PL, '''        v2 = {k.noise: v for k, v in vals.data.items()}
        for noise in sorted(v2.keys()):
            shot_data = v2[noise]
''', '''        by_noise = {k.noise: v for k, v in vals.data.items()}
        for noise, shot_data in sorted(by_noise.items(), key=lambda e: e[0]):
''')]),
    ("plot error count test", ["C31", "C34"], "quiet", [(PL, "            if shot_data.num_correct < shot_data.num_shots:\n", "            if shot_data.num_errors > 0:\n")]),
    ("plot no zero skip", ["C31"], "alarm", [(PL, "            if shot_data.num_correct < shot_data.num_shots:\n", "            if shot_data.num_correct <= shot_data.num_shots:\n")]),
    ("plot floor cells", ["C25"], "alarm", [(PL, "int(math.ceil(key.rounds / key.code_distance))", "int(math.floor(key.rounds / key.code_distance))")]),
    ("fit cost local", ["C30", "C34"], "quiet", [(PU, "    return np.sum((intercept + slope*xs - ys)**2)", "    residuals = ys - (slope * xs + intercept)\n    return np.sum(residuals * residuals)")]),
    ("fit lambda", ["C30", "C34"], "quiet", [(PU, '''    def err(slope: float) -> float:
        return least_squares_cost(xs=xs2, ys=ys2, intercept=0, slope=slope)

    (best_slope,), _ = leastsq(func=err, x0=0.0)
''', '''    solution = leastsq(func=lambda slope: least_squares_cost(xs=xs2, ys=ys2, intercept=0, slope=slope), x0=0.0)
    best_slope, = solution[0]
''')]),
    ("fit range helper", ["C30", "C34"], "quiet", [(PU, '''    low_y = binary_intercept(start_x=base_y, step=-1, target_y=base_cost + cost_increase, func=cost_for_y, atol=1e-5)
    high_y = binary_intercept(start_x=base_y, step=1, target_y=base_cost + cost_increase, func=cost_for_y, atol=1e-5)
    return low_y, high_y
''', '''    def edge(direction: int) -> float:
        return binary_intercept(start_x=base_y, step=direction, target_y=base_cost + cost_increase, func=cost_for_y, atol=1e-5)

    return edge(-1), edge(1)
''')]),
    ("fit range loop", ["C30", "C34"], "quiet", [(PU, '''    low_slope = binary_intercept(start_x=fit.slope, step=-1, target_y=base_cost + cost_increase, func=cost_for_slope, atol=1e-5)
    high_slope = binary_intercept(start_x=fit.slope, step=1, target_y=base_cost + cost_increase, func=cost_for_slope, atol=1e-5)
    return low_slope, fit.slope, high_slope
''', '''    limit = base_cost + cost_increase
    low_slope, high_slope = [
        binary_intercept(start_x=fit.slope, step=step, target_y=limit, func=cost_for_slope, atol=1e-5)
        for step in (-1, +1)
    ]
    return low_slope, fit.slope, high_slope
''')]),
    ("fit required point sign", ["C30"], "alarm", [(PU, "    intercept = required_y - required_x * best_slope", "    intercept = required_y + required_x * best_slope")]),
    ("collection namespace", ["C33", "C34"], "quiet", [(MC, '''    args = vars(parser.parse_args())
    out_path = args.get('out_file', None)
    problem_id = args.get('problem_id', None)
    max_shots = args.get('max_shots', None)
    max_errors = args.get('max_errors', None)
    surface_dir = args.get('surface_code_problems_directory')
    case_reduction = args.get('case_reduction') or 1
    max_batch_size = args.get('max_batch_size', None)
    collect_data(surface_dir=surface_dir,
                 problem_id=problem_id,
                 case_reduction=case_reduction,
                 out_path=out_path,
                 max_shots=max_shots,
                 max_errors=max_errors,
                 max_batch_size=max_batch_size)
''', '''    args = parser.parse_args()
    collect_data(surface_dir=args.surface_code_problems_directory,
                 problem_id=args.problem_id,
                 case_reduction=args.case_reduction or 1,
                 out_path=args.out_file,
                 max_shots=args.max_shots,
                 max_errors=args.max_errors,
                 max_batch_size=args.max_batch_size)
''')]),
    ("collection defaults up front", ["C33", "C34"], "quiet", [(MC, '''        max_batch=max_batch_size if max_batch_size is not None else 2**15,
        max_shots=max_shots if max_shots is not None else (10**8 // case_reduction),
''', '''        max_batch=max_batch_size,
        max_shots=max_shots,
'''), (MC, '''    collect_simulated_experiment_data(
        problems,
''', '''    if max_batch_size is None:
        max_batch_size = 1 << 15
    if max_shots is None:
        max_shots = 100_000_000 // case_reduction
    collect_simulated_experiment_data(
        problems,
''')]),
    ("collection option loop", ["C33", "C34"], "quiet", [(MC, '''    parser.add_argument('--problem_id', type=int, required=False)
    parser.add_argument('--case_reduction', type=int, required=False)
    parser.add_argument('--max_shots', type=int, required=False)
    parser.add_argument('--max_errors', type=int, required=False)
    parser.add_argument('--max_batch_size', type=int, required=False)
''', '''    for name in ['problem_id', 'case_reduction', 'max_shots', 'max_errors', 'max_batch_size']:
        parser.add_argument('--' + name, type=int)
''')]),
    ("collection slice", ["C33", "C34"], "quiet", [(MC, "        problems = [problems[problem_id]]", "        chosen = problems[problem_id]\n        problems = [chosen]")]),
    ("collection surface first", ["C33"], "alarm", [(MC, "    problems = honeycomb_problems() + surface_code_problems(surface_dir)", "    problems = surface_code_problems(surface_dir) + honeycomb_problems()")]),
    ("collection zero batch", ["C33"], "alarm", [(MC, "max_batch=max_batch_size if max_batch_size is not None else 2**15", "max_batch=max_batch_size or 2**15")]),
    ("collection default option", ["C33"], "alarm", [(MC, "'--max_errors', type=int, required=False", "'--max_errors', type=int, default=1000")]),
]
