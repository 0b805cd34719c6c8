F = "noise.py"
FLUSH = '''            # Apply idle depolarization rules.
            idle_qubits = sorted(qs - used_qubits)
            if used_qubits and idle_qubits and self.idle > 0:
                current_moment_post.append_operation("DEPOLARIZE1", idle_qubits, self.idle)
            idle_qubits = sorted(qs - measured_or_reset_qubits)
            if measured_or_reset_qubits and idle_qubits and self.measure_reset_idle > 0:
                current_moment_post.append_operation("DEPOLARIZE1", idle_qubits, self.measure_reset_idle)
'''
TOUCH = '''                touched_qubits = {
                    t.value
                    for t in op.targets_copy()
                    if t.is_x_target or t.is_y_target or t.is_z_target or t.is_qubit_target
                }
                if op.name in ANNOTATION_OPS:
                    touched_qubits.clear()
'''
CLEAR = '''            used_qubits.clear()
            current_moment_pre.clear()
            current_moment_mid.clear()
            current_moment_post.clear()
            measured_or_reset_qubits.clear()
'''
RM = '''            elif op.name in RESET_OPS or op.name in MEASURE_OPS:
                if op.name in RESET_OPS:
                    post.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
                if op.name in MEASURE_OPS:
                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
'''
ERRS = '''    errors = []
    for first_target in first_targets:
        for second_target in second_targets:
            for measure_target in measure_targets:
                error = []
                if first_target != "I":
                    error.append(first_target)
                if second_target != "I":
                    error.append(second_target)
                if measure_target != "I":
                    error.append(measure_target)

                if len(error) > 0:
                    errors.append(error)

    for error in errors:
        circuit.append_operation("CORRELATED_ERROR", error, ind_p)
'''
GADGET1 = '''    if t1.is_x_target:
        circuit.append_operation('XCX', [t1.value, ancilla])
    if t1.is_y_target:
        circuit.append_operation('YCX', [t1.value, ancilla])
    if t1.is_z_target:
        circuit.append_operation('ZCX', [t1.value, ancilla])
    if t2.is_x_target:
        circuit.append_operation('XCX', [t2.value, ancilla])
    if t2.is_y_target:
        circuit.append_operation('YCX', [t2.value, ancilla])
    if t2.is_z_target:
        circuit.append_operation('ZCX', [t2.value, ancilla])
'''
PICK = '''                if op.name in self.noisy_gates:
                    p = self.noisy_gates[op.name]
                elif self.any_clifford_1 is not None and op.name in ANY_CLIFFORD_1_OPS:
                    p = self.any_clifford_1
                elif self.any_clifford_2 is not None and op.name in ANY_CLIFFORD_2_OPS:
                    p = self.any_clifford_2
                elif op.name in ANNOTATION_OPS:
                    p = 0
                else:
                    raise NotImplementedError(repr(op))
'''
Q = ["C14", "C15"]
CASES = [
    ("idle-loop", Q, "quiet", [(F, FLUSH, '''            for touched, strength in [(used_qubits, self.idle), (measured_or_reset_qubits, self.measure_reset_idle)]:
                others = sorted(q for q in qs if q not in touched)
                if touched and others and strength > 0:
                    current_moment_post.append_operation("DEPOLARIZE1", others, strength)
''')]),
    ("idle-helper", Q, "quiet", [(F, FLUSH, '''            self._idle(current_moment_post, qs, used_qubits, self.idle)
            self._idle(current_moment_post, qs, measured_or_reset_qubits, self.measure_reset_idle)
'''), (F, "    def noisy_circuit(self,\n", '''    @staticmethod
    def _idle(out, qs, busy, strength):
        if not busy or strength <= 0:
            return
        rest = sorted(qs - busy)
        if rest:
            out.append_operation("DEPOLARIZE1", rest, strength)

    def noisy_circuit(self,
''')]),
    ("touch-loop", Q, "quiet", [(F, TOUCH, '''                touched_qubits = set()
                if op.name not in ANNOTATION_OPS:
                    for t in op.targets_copy():
                        if t.is_qubit_target or t.is_x_target or t.is_y_target or t.is_z_target:
                            touched_qubits.add(t.value)
''')]),
    ("clear-order", Q, "quiet", [(F, CLEAR, '''            measured_or_reset_qubits.clear()
            used_qubits.clear()
            for part in (current_moment_post, current_moment_mid, current_moment_pre):
                part.clear()
''')]),
    ("fresh-buffers", Q, "quiet", [(F, CLEAR, '''            used_qubits = set()
            measured_or_reset_qubits = set()
            current_moment_pre = stim.Circuit()
            current_moment_mid = stim.Circuit()
            current_moment_post = stim.Circuit()
'''), (F, "            nonlocal result\n", "            nonlocal result, used_qubits, measured_or_reset_qubits, current_moment_pre, current_moment_mid, current_moment_post\n")]),
    ("reset-measure-split", Q, "quiet", [(F, RM, '''            elif op.name in RESET_OPS:
                flip = "Z_ERROR" if op.name == "RX" else "X_ERROR"
                post.append_operation(flip, targets, p)
            elif op.name in MEASURE_OPS:
                flip = "Z_ERROR" if op.name == "MX" else "X_ERROR"
                pre.append_operation(flip, targets, p)
''')]),
    ("product", Q, "quiet", [(F, ERRS, '''    for combo in itertools.product(first_targets, second_targets, measure_targets):
        error = [t for t in combo if t != "I"]
        if error:
            circuit.append_operation("CORRELATED_ERROR", error, ind_p)
'''), (F, "import dataclasses\n", "import dataclasses\nimport itertools\n")]),
    ("gadget-helper", Q, "quiet", [(F, GADGET1, '''    for t in [t1, t2]:
        circuit.append_operation(_controlled(t), [t.value, ancilla])
'''), (F, "def parity_measurement_with", '''def _controlled(t):
    if t.is_x_target:
        return "XCX"
    if t.is_y_target:
        return "YCX"
    return "CX"


def parity_measurement_with''')] ) if False else ("gadget-loop", Q, "quiet", [(F, GADGET1, '''    for t in [t1, t2]:
        if t.is_x_target:
            circuit.append_operation('XCX', [t.value, ancilla])
        if t.is_y_target:
            circuit.append_operation('YCX', [t.value, ancilla])
        if t.is_z_target:
            circuit.append_operation('CX', [t.value, ancilla])
''')]),
    ("pick-helper", Q, "quiet", [(F, PICK, "                p = self._strength(op)\n"), (F, "    def noisy_circuit(self,\n", '''    def _strength(self, op):
        if op.name in self.noisy_gates:
            return self.noisy_gates[op.name]
        if op.name in ANY_CLIFFORD_1_OPS and self.any_clifford_1 is not None:
            return self.any_clifford_1
        if op.name in ANY_CLIFFORD_2_OPS and self.any_clifford_2 is not None:
            return self.any_clifford_2
        if op.name not in ANNOTATION_OPS:
            raise NotImplementedError(repr(op))
        return 0

    def noisy_circuit(self,
''')]),
    ("continue-first", Q, "quiet", [(F, '''            if isinstance(op, stim.CircuitRepeatBlock):
                flush()
                result += self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
            elif isinstance''', '''            if isinstance(op, stim.CircuitRepeatBlock):
                flush()
                body = self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla)
                result += body * op.repeat_count
                continue
            if isinstance''')]),
    ("sd6-dict", ["C15"], "quiet", [(F, '''        return NoiseModel(
            any_clifford_1=p,
            idle=p,
            measure_reset_idle=0,
            noisy_gates={
                "CX": p,
                "R": p,
                "M": p,
            },
        )''', '''        return NoiseModel(idle=p, measure_reset_idle=0, any_clifford_1=p, noisy_gates={g: p for g in ["CX", "R", "M"]})''')]),
    ("mpp-any", Q, "quiet", [(F, "assert len(targets) % 3 == 0 and all(t.is_combiner for t in targets[1::3]), repr(op)", "assert len(targets) % 3 == 0\n                assert not any(not t.is_combiner for t in targets[1::3])")]),
    # ------------------------------------------------------------------ ideal circuit
    ("m-flush-late", Q, "alarm", [(F, '''                flush()
                result += self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
''', '''                body = self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla)
                result += body * op.repeat_count
                flush()
''')]),
    ("m-ancilla-body", ["C14"], "alarm", [(F, "op.body_copy(), qs=qs, ancilla=ancilla)", "op.body_copy(), qs=qs)")]),
    ("m-no-args", ["C14"], "alarm", [(F, "        args = op.gate_args_copy()\n        if p > 0:", "        args = op.gate_args_copy() if op.name != 'SHIFT_COORDS' else [0, 0, 1]\n        if p > 0:")]),
    ("m-no-final-flush", Q, "alarm", [(F, "        flush()\n\n        return result", "        return result")]),
    ("m-flush-when-used", Q, "alarm", [(F, "            if not current_moment_mid:\n", "            if not used_qubits:\n")]),
    ("m-tick-only-after-ops", ["C14"], "alarm", [(F, '''                    flush()
                    result.append_operation("TICK", [])
''', '''                    if current_moment_mid:
                        flush()
                        result.append_operation("TICK", [])
''')]),
    ("m-skip-unknown", ["C14"], "alarm", [(F, '''                else:
                    raise NotImplementedError(repr(op))
                pre, mid''', '''                else:
                    p = 0
                pre, mid''')]),
    ("m-inverted", ["C14"], "alarm", [(F, "t1.is_inverted_result_target != t2.is_inverted_result_target", "t1.is_inverted_result_target or t2.is_inverted_result_target")]),
    ("m-gadget-order", ["C14"], "alarm", [(F, "t2=targets[k + 2],", "t2=targets[k + 1],")]),
    ("m-ancilla-reuse", ["C14"], "alarm", [(F, "            ancilla = circuit.num_qubits\n", "            ancilla = circuit.num_qubits - 1\n")]),
    ("m-repeat-count", ["C14"], "alarm", [(F, "* op.repeat_count", "* max(op.repeat_count - 1, 1)")]),
    # ------------------------------------------------------------------ noise
    ("m-used-kept", ["C15"], "alarm", [(F, "            used_qubits.clear()\n            current", "            current")]),
    ("m-collapsed-kept", ["C15"], "alarm", [(F, "            measured_or_reset_qubits.clear()\n", "")]),
    ("m-used-kept-ok", ["C14"], "quiet", [(F, "            used_qubits.clear()\n            current", "            current")]),
    ("m-idle-body-qubits", ["C15"], "alarm", [(F, "op.body_copy(), qs=qs, ancilla=ancilla)", "op.body_copy(), ancilla=ancilla)")]),
    ("m-ry-basis", ["C15"], "alarm", [(F, '''                    post.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)''', '''                    post.append_operation("X_ERROR" if op.name == "R" else "Z_ERROR", targets, p)''')]),
    ("m-mx-basis", ["C15"], "alarm", [(F, '''                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)''', '''                    pre.append_operation("X_ERROR", targets, p)''')]),
    ("m-after-measure", ["C15"], "alarm", [(F, "            result += current_moment_pre\n            result += current_moment_mid\n", "            result += current_moment_mid\n            result += current_moment_pre\n")]),
    ("m-after-measure-ok", ["C14"], "quiet", [(F, "            result += current_moment_pre\n            result += current_moment_mid\n", "            result += current_moment_mid\n            result += current_moment_pre\n")]),
    ("m-annotation-idle", ["C15"], "alarm", [(F, "                if op.name in ANNOTATION_OPS:\n                    touched_qubits.clear()\n", "")]),
    ("m-share", ["C15"], "alarm", [(F, "mix_probability, 5)", "mix_probability, 4)")]),
    ("m-si-idle", ["C15"], "alarm", [(F, "measure_reset_idle=2 * p,", "measure_reset_idle=p,")]),
    ("m-em3-half", ["C15"], "alarm", [(F, '"R": p/2,', '"R": p,')]),
    ("m-mpp-arg", ["C15"], "alarm", [(F, "                    args = [p]\n", "")]),
    ("m-mpp-arg-ok", ["C14"], "quiet", [(F, "                    args = [p]\n", "")]),
    ("m-reset-idle-used", ["C15"], "alarm", [(F, "if measured_or_reset_qubits and idle_qubits and", "if used_qubits and idle_qubits and")]),
    ("m-idle-ancilla", ["C15"], "alarm", [(F, "qs = set(range(circuit.num_qubits))", "qs = set(range(circuit.num_qubits + 1))")]),
    ("m-touch-x", ["C15"], "alarm", [(F, "if t.is_x_target or t.is_y_target or t.is_z_target or t.is_qubit_target", "if t.is_x_target or t.is_z_target or t.is_qubit_target")]),
    ("m-clifford2-first", ["C15"], "alarm", [(F, '                if op.name in self.noisy_gates:\n                    p = self.noisy_gates[op.name]\n                elif self.any_clifford_1 is not None', '                if op.name in self.noisy_gates:\n                    p = self.noisy_gates[op.name]\n                elif self.any_clifford_1')]),
    ("m-block-last", ["C14", "C15"], "quiet", [(F, """            if isinstance(op, stim.CircuitRepeatBlock):
                flush()
                result += self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
            elif isinstance(op, stim.CircuitInstruction):
""", """            if isinstance(op, stim.CircuitInstruction):
"""), (F, """            else:
                raise NotImplementedError(repr(op))
        flush()

        return result""", """            elif isinstance(op, stim.CircuitRepeatBlock):
                flush()
                result += self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
            else:
                raise NotImplementedError(repr(op))
        flush()

        return result""")]),
    ("m-block-continue", ["C14", "C15"], "quiet", [(F, """                result += self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
            elif isinstance(op, stim.CircuitInstruction):
""", """                result += self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
                continue
            if isinstance(op, stim.CircuitInstruction):
""")]),
]
