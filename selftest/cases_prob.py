P = "probability_util.py"
C = "collect_data.py"
L = "paper/main_render_lambda_figure.py"
PL = "plotting.py"
BS = '''    while max_x > min_x + 1:
        med_x = (min_x + max_x) // 2
        out = func(med_x)
        if out < target:
            min_x = med_x
        elif out > target:
            max_x = med_x
        else:
            return med_x
    fmax = func(max_x)
    fmin = func(min_x)
    dmax = 0 if fmax == target else fmax - target
    dmin = 0 if fmin == target else fmin - target
    return max_x if abs(dmax) < abs(dmin) else min_x
'''
COMBO = '''            if p1 and p2:
                cells = int(math.ceil(self.rep.rounds / self.rep.code_distance))
                p1 = total_error_to_per_piece_error(p1, cells)
                p2 = total_error_to_per_piece_error(p2, cells)
                p_either = 1 - (1 - p1) * (1 - p2)
                xs.append(d)
                ys.append(p_either)
'''
MASK = '''    result[p_clipped != 0] += np.log(p_clipped[p_clipped != 0]) * hits
    result[p_clipped != 1] += np.log1p(-p_clipped[p_clipped != 1]) * misses
'''
PIECE = '''    randomize_rate = 2*error_rate
    round_randomize_rate = 1 - (1 - randomize_rate)**(1 / pieces)
    round_error_rate = round_randomize_rate / 2
    return round_error_rate
'''
CASES = [
 # refactorings
 ("bs-style", ["C07"], "quiet", [(P, BS, '''    while max_x - min_x > 1:
        mid = min_x + (max_x - min_x) // 2
        value = func(mid)
        if value == target:
            return mid
        if value > target:
            max_x = mid
        else:
            min_x = mid
    hi, lo = func(max_x), func(min_x)
    gap_hi = hi - target if hi != target else 0
    gap_lo = lo - target if lo != target else 0
    if abs(gap_hi) < abs(gap_lo):
        return max_x
    return min_x
''')]),
 ("bs-helper", ["C07"], "quiet", [(P, '''    dmax = 0 if fmax == target else fmax - target
    dmin = 0 if fmin == target else fmin - target
    return max_x if abs(dmax) < abs(dmin) else min_x
''', '''    return max_x if _gap(fmax, target) < _gap(fmin, target) else min_x


def _gap(f, target):
    if f == target:
        return 0
    return abs(f - target)
''')]),
 ("bounds-helper", ["C07"], "quiet", [(C, '''        return low / self.num_shots, high / self.num_shots
''', '''        n = self.num_shots
        return (low / n, high / n)
'''), (C, "        actual_errors = self.num_shots - self.num_correct\n        log_max", "        actual_errors = self.num_errors\n        log_max"),
  (C, '''        low = binary_search(
            func=lambda exp_err: log_binomial(p=exp_err / (acc * self.num_shots), n=self.num_shots, hits=actual_errors),
''', '''        def ll(e):
            return log_binomial(p=e / (acc * self.num_shots), n=self.num_shots, hits=actual_errors)

        low = binary_search(
            func=ll,
'''), (C, "func=lambda exp_err: -log_binomial(p=exp_err / (acc * self.num_shots), n=self.num_shots, hits=actual_errors)", "func=lambda e: -ll(e)")]),
 ("mask-vars", ["C26", "C07"], "quiet", [(P, MASK, '''    nonzero = p_clipped != 0
    nonone = p_clipped != 1
    result[nonzero] += hits * np.log(p_clipped[nonzero])
    result[nonone] += misses * np.log1p(-p_clipped[nonone])
''')]),
 ("where", ["C26", "C07"], "quiet", [(P, MASK, '''    result += np.where(p_clipped != 0, np.log(p_clipped) * hits, 0)
    result += np.where(p_clipped == 1, 0, np.log1p(-p_clipped) * misses)
''')]),
 ("minmax", ["C26"], "quiet", [(P, "p_clipped = np.clip(p, 0, 1)", "p_clipped = np.minimum(np.maximum(p, 0), 1)")]),
 ("fact-range", ["C26"], "quiet", [(P, "sum(math.log(k) for k in range(1, n + 1))", "sum(math.log(k) for k in range(2, n + 1))")]),
 ("fact-loop", ["C26"], "quiet", [(P, "        return sum(math.log(k) for k in range(1, n + 1))\n", "        total = 0\n        for k in range(1, n + 1):\n            total += math.log(k)\n        return total\n")]),
 ("fact-algebra", ["C26"], "quiet", [(P, "(n + 0.5) * math.log(n) - n + math.log(2 * np.pi) / 2", "n * math.log(n) - n + 0.5 * math.log(n) + 0.5 * math.log(2 * math.pi)")]),
 ("piece-inline", ["C25"], "quiet", [(PL, PIECE, "    return (1 - (1 - 2 * error_rate) ** (1 / pieces)) / 2\n")]),
 ("piece-norec", ["C25"], "quiet", [(PL, '''        return 1 - total_error_to_per_piece_error(1 - error_rate, pieces)
    assert 0 <= error_rate <= 0.5
''', '''        return 1 - _low_half(1 - error_rate, pieces)
    return _low_half(error_rate, pieces)


def _low_half(error_rate, pieces):
    assert 0 <= error_rate <= 0.5
''')]),
 ("plot-cor", ["C25"], "quiet", [(PL, '''        def cor(p: float) -> float:
            return total_error_to_per_piece_error(p, pieces=cells)

''', '''        cor = lambda rate: total_error_to_per_piece_error(rate, cells)
'''), (PL, 'ax.set_title(title)\n    ax.grid()', 'ax.grid()\n    ax.set_title(title)'), (PL, "zorder=100 - order, ", "zorder=200 - order, ")]),
 ("plot-sorted-items", ["C25"], "quiet", [(PL, '''        for noise in sorted(v2.keys()):
            shot_data = v2[noise]
''', '''        for noise in sorted(v2):
            shot_data = v2[noise]
''')]),
 ("combo-algebra", ["C27", "C25"], "quiet", [(L, COMBO, '''            if p1 and p2:
                cells = int(math.ceil(self.rep.rounds / self.rep.code_distance))
                q1 = total_error_to_per_piece_error(p1, cells)
                q2 = total_error_to_per_piece_error(p2, cells)
                xs.append(d)
                ys.append(q1 + q2 - q1 * q2)
''')]),
 ("combo-continue", ["C27", "C25"], "quiet", [(L, COMBO, '''            if not p1 or not p2:
                continue
            cells = math.ceil(self.rep.rounds / self.rep.code_distance)
            ok1 = 1 - total_error_to_per_piece_error(p1, cells)
            ok2 = 1 - total_error_to_per_piece_error(p2, cells)
            xs.append(d)
            ys.append(1 - ok1 * ok2)
''')]),
 ("combo-hoist", ["C27", "C25"], "quiet", [(L, "        xs = []\n        ys = []\n        for d in distances:", "        cells = int(math.ceil(self.rep.rounds / self.rep.code_distance))\n        xs, ys = [], []\n        for d in distances:"), (L, "                cells = int(math.ceil(self.rep.rounds / self.rep.code_distance))\n", "")]),
 ("groups-setdefault", ["C27"], "quiet", [(L, '''            if key.noise not in groups:
                groups[key.noise] = LambdaGroup(key.noise, key, {}, {})
            g = groups[key.noise]
''', '''            g = groups.setdefault(key.noise, LambdaGroup(key.noise, key, {}, {}))
''')]),
 ("groups-if", ["C27"], "quiet", [(L, '''            d = g.distance_error_pairs_h if key.preserved_observable in "HX" else g.distance_error_pairs_v
            assert key.code_distance not in d, key
''', '''            if key.preserved_observable in "HX":
                d = g.distance_error_pairs_h
            else:
                d = g.distance_error_pairs_v
            if key.code_distance in d:
                raise ValueError(key)
''')]),
 ("lambda-exp", ["C27"], "quiet", [(L, "return 1 / math.exp(s) ** 2", "return math.exp(-2 * s)")]),
 ("q-algebra", ["C27"], "quiet", [(L, '''            q += 1
            q *= (d / self.rep.code_distance) ** 2
            q -= 1
''', '''            scale = d / self.rep.code_distance
            q = (q + 1) * scale * scale - 1
''')]),
 ("dist-inline", ["C27"], "quiet", [(L, '''        d = int(math.ceil(self.projected_distance(target_error)))
        return self._d_to_q(d, style)
''', '''        return self._d_to_q(math.ceil(self.projected_distance(target_error)), style)
''')]),
 # mutations
 ("bs-side", ["C07"], "alarm", [(P, "if out < target:", "if out <= target:")]),
 ("bs-nearest", ["C07"], "alarm", [(P, "return max_x if abs(dmax) < abs(dmin) else min_x", "return min_x")]),
 ("bs-stop", ["C07"], "alarm", [(P, "while max_x > min_x + 1:", "while max_x > min_x + 2:")]),
 ("high-limit", ["C07"], "alarm", [(C, "max_x=self.num_shots * acc) / acc", "max_x=2 * actual_errors * acc) / acc")]),
 ("low-min", ["C07"], "alarm", [(C, "            min_x=0,", "            min_x=1,")]),
 ("nolog", ["C07"], "alarm", [(C, "log_max_likelihood + math.log(desired_ratio_vs_max_likelihood)", "log_max_likelihood + math.log10(desired_ratio_vs_max_likelihood)")]),
 ("acc", ["C07"], "alarm", [(C, "        acc = 100\n", "        acc = 10\n")]),
 ("hits-miss", ["C26", "C07"], "alarm", [(P, "    if misses:\n        result[p_clipped == 1]", "    if hits:\n        result[p_clipped == 1]")]),
 ("unmasked", ["C26", "C07"], "alarm", [(P, "    result[p_clipped != 0] += np.log(p_clipped[p_clipped != 0]) * hits\n", "    result += np.log(p_clipped) * hits\n")]),
 ("inplace", ["C26"], "alarm", [(P, "p_clipped = np.clip(p, 0, 1)", "p_clipped = np.clip(p, 0, 1, out=p)")]),
 ("noclip", ["C26"], "alarm", [(P, "p_clipped = np.clip(p, 0, 1)", "p_clipped = np.clip(p, 0, 2)")]),
 ("fact20", ["C26"], "alarm", [(P, "range(1, n + 1))", "range(1, n))")]),
 ("fact19", ["C26"], "alarm", [(P, "    if n < 20:", "    if n < 19:")]),
 ("stirling", ["C26"], "alarm", [(P, "math.log(2 * np.pi) / 2", "math.log(np.pi) / 2")]),
 ("intdtype", ["C26"], "alarm", [(P, "dtype=np.float32", "dtype=np.int32")]),
 ("piece2", ["C25"], "alarm", [(PL, "error_rate > 0.5:\n        return 1 - total_error_to_per_piece_error(1 - error_rate, pieces)", "error_rate > 0.5:\n        return total_error_to_per_piece_error(1 - error_rate, pieces)")]),
 ("piece-noassert", ["C25"], "alarm", [(PL, "    assert 0 <= error_rate <= 0.5\n", "")]),
 ("piece-floor", ["C25"], "alarm", [(PL, "int(math.ceil(key.rounds / key.code_distance))", "int(key.rounds / key.code_distance)")]),
 ("plot-high", ["C25"], "alarm", [(PL, "ys_high.append(cor(high))", "ys_high.append(high)")]),
 ("combo-cells", ["C27", "C25"], "alarm", [(L, "math.ceil(self.rep.rounds / self.rep.code_distance)", "math.ceil(self.rep.rounds / d)")]),
 ("combo-sum", ["C27"], "alarm", [(L, "p_either = 1 - (1 - p1) * (1 - p2)", "p_either = p1 + p2")]),
 ("combo-or", ["C27"], "alarm", [(L, "            if p1 and p2:", "            if p1 or p2:")]),
 ("groups-overwrite", ["C27"], "alarm", [(L, "            assert key.code_distance not in d, key\n", "")]),
 ("groups-obs", ["C27"], "alarm", [(L, 'key.preserved_observable in "HX"', 'key.preserved_observable in "HZ"')]),
 ("fit-log10", ["C27"], "alarm", [(L, "return linregress(xs, [math.log(y) for y in ys])", "return linregress(xs, [math.log10(y) for y in ys])")]),
 ("q-round", ["C27"], "alarm", [(L, "d = int(math.ceil(d / 4)) * 4", "d = int(round(d / 4)) * 4")]),
 ("swap-xy", ["C27"], "alarm", [(L, "least_squares_output_range(xs=ys, ys=xs,", "least_squares_output_range(xs=xs, ys=ys,")]),
 ("dist-floor", ["C27"], "alarm", [(L, "d = int(math.ceil(self.projected_distance(target_error)))", "d = int(self.projected_distance(target_error))")]),
]
