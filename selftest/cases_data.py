F = "collect_data.py"
GB = '''        result = {}
        for k, v in self.data.items():
            result.setdefault(key(k), ProblemShotData({})).data[k] = v
        return {k: result[k] for k in sorted(result.keys())}
'''
MB = '''        result: Dict[Any, 'ShotData'] = {}
        for k, v in self.data.items():
            d = result.setdefault(key(k), ShotData())
            d.num_shots += v.num_shots
            d.num_correct += v.num_correct
            d.total_processing_seconds += v.total_processing_seconds
        return {k: result[k] for k in sorted(result.keys())}
'''
FI = '''        result = ProblemShotData({})
        for k, v in self.data.items():
            if predicate(k):
                result.data[k] = v
        return result
'''
RD = '''                val = result.data.setdefault(key, ShotData())
                val.num_shots += int(row["num_shots"])
                val.num_correct += int(row["num_correct"])
                val.total_processing_seconds += float(row["total_processing_seconds"])
    return result'''
RDALL = '''    result = ProblemShotData({})
    for path in paths:
        with open(path, "r") as f:
            for row in csv.DictReader(f):
                key = DecodingProblemDesc(
                    code_distance=int(row["code_distance"]),
                    num_qubits=int(row["num_qubits"]),
                    data_width=int(row["data_width"]),
                    data_height=int(row["data_height"]),
                    rounds=int(row["rounds"]),
                    noise=float(row["noise"]),
                    circuit_style=row["circuit_style"],
                    preserved_observable=row["preserved_observable"],
                    decoder=row["decoder"],
                )
''' + RD
FIN = '''        if self.shot_data.num_shots >= self.max_shots:
            return True
        if self.shot_data.num_errors >= self.max_errors:
            return True
        if self.shot_data.logical_error_rate >= self.threshold_circuit_breaker and self.shot_data.num_shots >= 10:
            return True
        return False
'''
RT = '''        if self.finished:
            return 0
        times = [float('inf')]
        if self.shot_data.num_shots:
            times.append(self.remaining_shots * self.shot_data.total_processing_seconds / self.shot_data.num_shots)
        if self.shot_data.num_errors:
            times.append(self.remaining_errors * self.shot_data.total_processing_seconds / self.shot_data.num_errors)
        return min(times)
'''
CASES = [
 ("gb_ifnotin", ["C05"], "quiet", [(F, GB, '''        groups = {}
        for desc, shots in self.data.items():
            name = key(desc)
            if name not in groups:
                groups[name] = ProblemShotData(data={})
            groups[name].data[desc] = shots
        return {k: groups[k] for k in sorted(groups)}
''')]),
 ("gb_dd", ["C05"], "quiet", [(F, GB, '''        import collections
        groups = collections.defaultdict(lambda: ProblemShotData({}))
        for desc in self.data:
            groups[key(desc)].data[desc] = self.data[desc]
        return dict(sorted(groups.items(), key=lambda kv: kv[0]))
''')]),
 ("gb_helper", ["C05"], "quiet", [(F, GB, '''        result = {}
        for k, v in self.data.items():
            _group_for(result, key(k)).data[k] = v
        ordered = sorted(result)
        return {name: result[name] for name in ordered}
'''), (F, None, '''

def _group_for(groups, name):
    g = groups.get(name)
    if g is None:
        g = ProblemShotData({})
        groups[name] = g
    return g
''')]),
 ("gb_unsorted", ["C05"], "alarm", [(F, GB, GB.replace("sorted(result.keys())", "result.keys()"))]),
 ("gb_keyasval", ["C05"], "alarm", [(F, GB, GB.replace(".data[k] = v", ".data[key(k)] = v"))]),
 ("mb_overwrite", ["C05"], "alarm", [(F, MB, MB.replace("d.num_correct +=", "d.num_correct ="))]),
 ("mb_firsttime", ["C05"], "alarm", [(F, MB, MB.replace("d.total_processing_seconds += v.total_processing_seconds", "d.total_processing_seconds = max(d.total_processing_seconds, v.total_processing_seconds)"))]),
 ("mb_helper", ["C05"], "quiet", [(F, MB, '''        totals: Dict[Any, 'ShotData'] = {}
        for desc, part in self.data.items():
            name = key(desc)
            if name not in totals:
                totals[name] = ShotData()
            _accumulate(totals[name], part)
        return {name: totals[name] for name in sorted(totals)}
'''), (F, None, '''

def _accumulate(total, part):
    total.total_processing_seconds += part.total_processing_seconds
    total.num_correct = total.num_correct + part.num_correct
    total.num_shots += part.num_shots
''')]),
 ("mb_new", ["C05"], "quiet", [(F, MB, '''        result: Dict[Any, 'ShotData'] = {}
        for k, v in self.data.items():
            g = key(k)
            old = result.get(g, ShotData())
            result[g] = ShotData(
                num_shots=old.num_shots + v.num_shots,
                num_correct=old.num_correct + v.num_correct,
                total_processing_seconds=old.total_processing_seconds + v.total_processing_seconds)
        return {k: result[k] for k in sorted(result.keys())}
''')]),
 ("fi_comp", ["C05"], "quiet", [(F, FI, '''        return ProblemShotData({k: v for k, v in self.data.items() if predicate(k)})
''')]),
 ("fi_continue", ["C05"], "quiet", [(F, FI, '''        kept = {}
        for k in self.data.keys():
            if not predicate(k):
                continue
            kept[k] = self.data[k]
        return ProblemShotData(kept)
''')]),
 ("fi_not", ["C05"], "alarm", [(F, FI, FI.replace("if predicate", "if not predicate"))]),
 ("rd_ifnotin", ["C02"], "quiet", [(F, RD, '''                if key not in result.data:
                    result.data[key] = ShotData()
                val = result.data[key]
                val.num_correct += int(row["num_correct"])
                val.num_shots += int(row["num_shots"])
                val.total_processing_seconds += float(row["total_processing_seconds"])
    return result''')]),
 ("rd_genhelper", ["C02"], "quiet", [(F, RDALL, '''    result = ProblemShotData({})
    for row in _rows(paths):
        val = result.data.setdefault(_desc_of_row(row), ShotData())
        val.num_shots += int(row["num_shots"])
        val.num_correct += int(row["num_correct"])
        val.total_processing_seconds += float(row["total_processing_seconds"])
    return result


def _rows(paths):
    for path in paths:
        with open(path) as f:
            yield from csv.DictReader(f)


def _desc_of_row(row):
    return DecodingProblemDesc(
        data_width=int(row["data_width"]),
        data_height=int(row["data_height"]),
        code_distance=int(row["code_distance"]),
        num_qubits=int(row["num_qubits"]),
        rounds=int(row["rounds"]),
        noise=float(row["noise"]),
        circuit_style=row["circuit_style"],
        preserved_observable=row["preserved_observable"],
        decoder=row["decoder"],
    )
''')]),
 ("rd_datalocal", ["C02"], "quiet", [(F, RDALL, RDALL.replace("result = ProblemShotData({})", "data: Dict[DecodingProblemDesc, ShotData] = {}").replace("result.data.", "data.").replace("return result", "return ProblemShotData(data)"))]),
 ("rd_helper_add", ["C02"], "quiet", [(F, RD, '''                shots = result.data.setdefault(key, ShotData())
                _add_row(shots, row)
    return result


def _add_row(shots: ShotData, row: Dict[str, str]) -> None:
    shots.num_shots += int(row["num_shots"])
    shots.num_correct += int(row["num_correct"])
    shots.total_processing_seconds += float(row["total_processing_seconds"])
''')]),
 ("rd_perfile", ["C02"], "alarm", [(F, RDALL, RDALL.replace("for path in paths:", "for path in sorted(set(paths)):"))]),
 ("rd_skip", ["C02"], "alarm", [(F, RD, '''                if int(row["num_shots"]) == 0:
                    continue
''' + RD)]),
 ("rd_skipversion", ["C02"], "alarm", [(F, RD, '''                if row["version"] != str(CSV_HEADER_VERSION):
                    continue
''' + RD)]),
 ("rd_swap", ["C02"], "alarm", [(F, RDALL, RDALL.replace('data_width=int(row["data_width"])', 'data_width=int(row["data_height"])'))]),
 ("rd_noisemiss", ["C02"], "alarm", [(F, RDALL, RDALL.replace('noise=float(row["noise"])', 'noise=round(float(row["noise"]), 4)'))]),
 ("rd_newobj", ["C02"], "alarm", [(F, RD, RD.replace("result.data.setdefault(key, ShotData())", "result.data[key] = ShotData()").replace("val = result.data[key] = ShotData()", "val = ShotData()\n                result.data[key] = val"))]),
 ("fin_or", ["C08"], "quiet", [(F, FIN, '''        d = self.shot_data
        too_many_shots = d.num_shots >= self.max_shots
        too_many_errors = d.num_errors >= self.max_errors
        hopeless = d.num_shots >= 10 and d.logical_error_rate >= self.threshold_circuit_breaker
        return too_many_shots or too_many_errors or hopeless
''')]),
 ("fin_nested", ["C08"], "quiet", [(F, FIN, '''        if self.shot_data.num_shots >= 10:
            if self.shot_data.logical_error_rate >= self.threshold_circuit_breaker:
                return True
        return any([self.shot_data.num_errors >= self.max_errors, not self.shot_data.num_shots < self.max_shots])
''')]),
 ("fin_gt", ["C08"], "alarm", [(F, FIN, FIN.replace("num_errors >=", "num_errors >"))]),
 ("fin_11", ["C08"], "alarm", [(F, FIN, FIN.replace(">= 10", "> 10"))]),
 ("fin_order", ["C08"], "alarm", [(F, FIN, FIN.replace("and self.shot_data.num_shots >= 10", "and self.shot_data.num_errors >= 10"))]),
 ("rt_rewrite", ["C08"], "quiet", [(F, RT, '''        if self.finished:
            return 0
        best = float('inf')
        d = self.shot_data
        if d.num_shots != 0:
            seconds_per_shot = d.total_processing_seconds / d.num_shots
            best = min(best, seconds_per_shot * self.remaining_shots)
        if d.num_errors != 0:
            seconds_per_error = d.total_processing_seconds / d.num_errors
            best = min(best, seconds_per_error * self.remaining_errors)
        return best
''')]),
 ("rt_max", ["C08"], "alarm", [(F, RT, RT.replace("min(times)", "max(times)"))]),
 ("rt_swap", ["C08"], "alarm", [(F, RT, RT.replace("self.remaining_errors * self.shot_data.total_processing_seconds / self.shot_data.num_errors", "self.remaining_errors * self.shot_data.total_processing_seconds / self.shot_data.num_shots"))]),
 ("ler", ["C08"], "quiet", [(F, '''        if self.num_shots == 0:
            return 1
        return (self.num_shots - self.num_correct) / self.num_shots
''', '''        if not self.num_shots:
            return 1
        return 1 - self.num_correct / self.num_shots
''')]),
 ("ler0", ["C08"], "alarm", [(F, '''        if self.num_shots == 0:
            return 1
''', '''        if self.num_shots == 0:
            return 0
''')]),
]
WC = '''        return DecodingProblemDesc(
            data_width=self.data_width if data_width is None else data_width,
            data_height=self.data_height if data_height is None else data_height,
            code_distance=self.code_distance if code_distance is None else code_distance,
            num_qubits=self.num_qubits if num_qubits is None else num_qubits,
            rounds=self.rounds if rounds is None else rounds,
            noise=self.noise if noise is None else noise,
            circuit_style=self.circuit_style if circuit_style is None else circuit_style,
            preserved_observable=self.preserved_observable if preserved_observable is None else preserved_observable,
            decoder=self.decoder if decoder is None else decoder,
        )
'''
CASES += [
 ("wc_or", ["C06"], "alarm", [(F, WC, WC.replace("self.noise if noise is None else noise", "noise or self.noise"))]),
 ("wc_swap", ["C06"], "alarm", [(F, WC, WC.replace("self.rounds if rounds is None", "self.num_qubits if rounds is None"))]),
 ("wc_replace", ["C06"], "quiet", [(F, WC, '''        changes = {
            'data_width': data_width,
            'data_height': data_height,
            'code_distance': code_distance,
            'num_qubits': num_qubits,
            'rounds': rounds,
            'noise': noise,
            'circuit_style': circuit_style,
            'preserved_observable': preserved_observable,
            'decoder': decoder,
        }
        return dataclasses.replace(self, **{k: v for k, v in changes.items() if v is not None})
''')]),
 ("wc_helper", ["C06"], "quiet", [(F, WC, WC.replace("self.noise if noise is None else noise", "_pick(noise, self.noise)").replace("self.rounds if rounds is None else rounds", "_pick(rounds, self.rounds)")), (F, None, '''

def _pick(new, old):
    if new is not None:
        return new
    return old
''')]),
 ("wc_nofreeze", ["C06"], "alarm", [(F, "@dataclasses.dataclass(frozen=True, unsafe_hash=True, order=True)\nclass DecodingProblemDesc", "@dataclasses.dataclass(unsafe_hash=True, order=True)\nclass DecodingProblemDesc")]),
 ("wc_nohash", ["C06"], "quiet", [(F, "@dataclasses.dataclass(frozen=True, unsafe_hash=True, order=True)\nclass DecodingProblemDesc", "@dataclasses.dataclass(frozen=True, order=True)\nclass DecodingProblemDesc")]),
 ("wc_nocmp", ["C06"], "alarm", [(F, "    num_qubits: int\n    rounds: int", "    num_qubits: int = dataclasses.field(compare=False)\n    rounds: int = 0")]),
]
