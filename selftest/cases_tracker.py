F = "measure_tracker.py"
P = ["C16"]
MTS = '''        result = frozenset()
        for k in keys:
            t = 1
            if isinstance(k, Prev):
                t += k.offset
                k = k.v
            h = self.history[k]
            assert t <= len(h), f"Didn't add a dummy or an obstacle for {k!r}"
            v = self.history[k][-t]
            if v is None:
                return None
            result ^= v
        return result
'''
GRT = '''        t0 = self.t
        if for_time_after_measurement is not None:
            t0, = self.history[for_time_after_measurement][-1]
            t0 += 1
        times = self.measurement_time_set(*keys)
        if times is None:
            return None
        return [stim.target_rec(t - t0) for t in sorted(times)]
'''
CASES = [
    ("lookup-helper", P, "quiet", [(F, MTS, '''        result = frozenset()
        for k in keys:
            v = self._entry(k)
            if v is None:
                return None
            result = result ^ v
        return result

    def _entry(self, k):
        steps = 1
        if isinstance(k, Prev):
            steps = 1 + k.offset
            k = k.v
        h = self.history[k]
        if len(h) < steps:
            raise AssertionError(f"Didn't add a dummy or an obstacle for {k!r}")
        return h[-steps]
''')]),
    ("lookup-symdiff", P, "quiet", [(F, "            result ^= v\n", "            result = result.symmetric_difference(v)\n")]),
    ("lookup-mutable", P, "quiet", [(F, "        result = frozenset()\n", "        result = set()\n"), (F, "        return result\n", "        return frozenset(result)\n")]),
    ("add-order", P, "quiet", [(F, '''            self.history[key].append(frozenset([self.t]))
            self.t += 1
''', '''            now = self.t
            self.t = now + 1
            self.history[key].append(frozenset({now}))
''')]),
    ("add-enumerate", P, "quiet", [(F, '''            self.history[key].append(frozenset([self.t]))
            self.t += 1
''', '''            self.history[key].append(frozenset([self.t]))
            self.t = self.t + 1
''')]),
    ("record-sorted", P, "quiet", [(F, GRT, '''        times = self.measurement_time_set(*keys)
        if for_time_after_measurement is None:
            t0 = self.t
        else:
            (last,) = self.history[for_time_after_measurement][-1]
            t0 = last + 1
        result = None
        if times is not None:
            result = []
            for t in sorted(times):
                result.append(stim.target_rec(t - t0))
        return result
''')]),
    ("detector-nested", P, "quiet", [(F, '''        if targets is None:
            return
        out_circuit.append_operation("DETECTOR", targets, coords)''', '''        if targets is not None:
            out_circuit.append_operation("DETECTOR", targets, coords)''')]),
    ("prev-if", P, "quiet", [(F, '''        self.v = v
        self.offset = offset
        if isinstance(v, Prev):
            self.offset += v.offset
            self.v = v.v
''', '''        if isinstance(v, Prev):
            offset = offset + v.offset
            v = v.v
        self.v = v
        self.offset = offset
''')]),
    ("dummies-inline", P, "quiet", [(F, '''        v = None if obstacle else frozenset()
        for key in keys:
            assert key is not None
            assert not isinstance(key, Prev)
            self.history[key].append(v)
''', '''        for key in keys:
            assert key is not None and not isinstance(key, Prev)
            if obstacle:
                self.history[key].append(None)
            else:
                self.history[key].append(frozenset())
''')]),
    ("setdefault", P, "quiet", [(F, "            h = self.history[k]\n", "            h = self.history.setdefault(k, [])\n")]),
    # ------------------------------------------------------------------
    ("m-union", P, "alarm", [(F, "result ^= v", "result |= v")]),
    ("m-skip-obstacle", P, "alarm", [(F, "            if v is None:\n                return None\n", "            if v is None:\n                continue\n")]),
    ("m-clamp", P, "alarm", [(F, '''            assert t <= len(h), f"Didn't add a dummy or an obstacle for {k!r}"\n''', '''            assert h, f"Didn't add a dummy or an obstacle for {k!r}"
            t = min(t, len(h))
''')]),
    ("m-wrap", P, "alarm", [(F, '''            assert t <= len(h), f"Didn't add a dummy or an obstacle for {k!r}"\n''', ""), (F, "self.history[k][-t]", "self.history[k][-t % max(1, len(h))]")]),
    ("m-prev-not-nested", P, "alarm", [(F, "            self.offset += v.offset\n", "            self.offset = max(offset, v.offset)\n")]),
    ("m-dedupe", P, "alarm", [(F, "        for k in keys:\n            t = 1", "        for k in dict.fromkeys(keys):\n            t = 1")]),
    ("m-hoisted-time", P, "alarm", [(F, "        for key in keys:\n            assert key is not None\n            assert not isinstance(key, Prev)\n            self.history[key].append(frozenset([self.t]))", "        now = self.t\n        for key in keys:\n            assert key is not None\n            assert not isinstance(key, Prev)\n            self.history[key].append(frozenset([now]))")]),
    ("m-group-time", P, "alarm", [(F, "        self.history[group_key].append(self.measurement_time_set(*keys))", "        self.history[group_key].append(self.measurement_time_set(*keys))\n        self.t += 1")]),
    ("m-dummy-time", P, "alarm", [(F, "            self.history[key].append(v)\n", "            self.history[key].append(v)\n            self.t += obstacle\n")]),
    ("m-group-obstacle", P, "alarm", [(F, "append(self.measurement_time_set(*keys))", "append(self.measurement_time_set(*keys) or frozenset())")]),
    ("m-empty-detector", P, "alarm", [(F, "        if targets is None:\n            return\n", "        if not targets:\n            return\n")]),
    ("m-after-off", P, "alarm", [(F, "            t0 += 1\n", "")]),
    ("m-after-first", P, "alarm", [(F, "self.history[for_time_after_measurement][-1]", "self.history[for_time_after_measurement][0]")]),
    ("m-coords", P, "alarm", [(F, '"DETECTOR", targets, coords)', '"DETECTOR", targets, [c for c in coords if c])')]),
    ("m-cache", P, "alarm", [(F, "        result = frozenset()\n        for k in keys:", "        if keys in self.cache:\n            return self.cache[keys]\n        result = frozenset()\n        for k in keys:"), (F, "        self.t = 0\n", "        self.t = 0\n        self.cache = {}\n"), (F, "            result ^= v\n        return result", "            result ^= v\n        self.cache[keys] = result\n        return result")]),
]
