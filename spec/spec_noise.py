"""Reference definitions for noise insertion (not executed)."""
from typing import Optional, Set, Tuple

import stim

from noise import NoiseModel, parity_measurement_with_correlated_measurement_noise as _gadget

CLIFFORD_1 = {"C_XYZ", "C_ZYX", "H", "H_YZ", "I"}
CLIFFORD_2 = {"CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ"}
RESET = {"R", "RX", "RY"}
MEASURE = {"M", "MX", "MY"}
ANNOTATION = {"OBSERVABLE_INCLUDE", "DETECTOR", "SHIFT_COORDS", "QUBIT_COORDS", "TICK"}


def SD6(p: float) -> 'NoiseModel':
    return NoiseModel(idle=p, measure_reset_idle=0, noisy_gates={"CX": p, "R": p, "M": p}, any_clifford_1=p, any_clifford_2=None,
                      use_correlated_parity_measurement_errors=False)


def PC3(p: float) -> 'NoiseModel':
    return NoiseModel(idle=p, measure_reset_idle=0, noisy_gates={"R": p, "M": p}, any_clifford_1=p, any_clifford_2=p,
                      use_correlated_parity_measurement_errors=False)


def EM3_v1(p: float) -> 'NoiseModel':
    return NoiseModel(idle=p, measure_reset_idle=0, noisy_gates={"R": p, "M": p, "MPP": p}, any_clifford_1=p, any_clifford_2=None,
                      use_correlated_parity_measurement_errors=False)


def EM3_v2(p: float) -> 'NoiseModel':
    return NoiseModel(idle=p, measure_reset_idle=0, noisy_gates={"R": p / 2, "M": p / 2, "MPP": p}, any_clifford_1=0, any_clifford_2=0,
                      use_correlated_parity_measurement_errors=True)


def SI1000(p: float) -> 'NoiseModel':
    return NoiseModel(idle=p / 10, measure_reset_idle=2 * p, noisy_gates={"CZ": p, "R": 2 * p, "M": 5 * p}, any_clifford_1=p / 10, any_clifford_2=None,
                      use_correlated_parity_measurement_errors=False)


def gadget(*, t1: stim.GateTarget, t2: stim.GateTarget, ancilla: int, mix_probability: float) -> stim.Circuit:
    """Parity of two Paulis through the extra qubit; with probability mix_probability a uniformly random one of
    {I, X, Y, Z} x {I, X, Y, Z} x {no flip, flip} happens just before it is read out."""
    each = 0.5 - 0.5 * (1 - mix_probability) ** (1 / 16)
    c = stim.Circuit()
    c.append_operation("R", [ancilla])
    for t in (t1, t2):
        if t.is_x_target:
            c.append_operation("XCX", [t.value, ancilla])
        if t.is_y_target:
            c.append_operation("YCX", [t.value, ancilla])
        if t.is_z_target:
            c.append_operation("CX", [t.value, ancilla])
    paulis1 = [[], [stim.target_x(t1.value)], [stim.target_y(t1.value)], [stim.target_z(t1.value)]]
    paulis2 = [[], [stim.target_x(t2.value)], [stim.target_y(t2.value)], [stim.target_z(t2.value)]]
    flips = [[], [stim.target_x(ancilla)]]
    for a in paulis1:
        for b in paulis2:
            for f in flips:
                if a + b + f:
                    c.append_operation("CORRELATED_ERROR", a + b + f, each)
    if t1.is_inverted_result_target == t2.is_inverted_result_target:
        c.append_operation("M", [ancilla])
    else:
        c.append_operation("M", [stim.target_inv(ancilla)])
    return c


def noisy_op(self: NoiseModel, op: stim.CircuitInstruction, p: float, ancilla: int) -> Tuple[stim.Circuit, stim.Circuit, stim.Circuit]:
    """Noise before the operation, the operation, noise after it."""
    pre = stim.Circuit()
    mid = stim.Circuit()
    post = stim.Circuit()
    targets = op.targets_copy()
    if p > 0:
        if op.name in CLIFFORD_1:
            post.append_operation("DEPOLARIZE1", targets, p)
        elif op.name in CLIFFORD_2:
            post.append_operation("DEPOLARIZE2", targets, p)
        elif op.name == "RX":
            post.append_operation("Z_ERROR", targets, p)
        elif op.name in RESET:
            post.append_operation("X_ERROR", targets, p)
        elif op.name == "MX":
            pre.append_operation("Z_ERROR", targets, p)
        elif op.name in MEASURE:
            pre.append_operation("X_ERROR", targets, p)
        elif op.name == "MPP":
            if len(targets) % 3 != 0:
                raise AssertionError()
            if not all(t.is_combiner for t in targets[1::3]):
                raise AssertionError()
            if not (op.gate_args_copy() == [] or op.gate_args_copy() == [0]):
                raise AssertionError()
            if self.use_correlated_parity_measurement_errors:
                for k in range(0, len(targets), 3):
                    mid += _gadget(t1=targets[k], t2=targets[k + 2], ancilla=ancilla, mix_probability=p)
            else:
                pre.append_operation("DEPOLARIZE2", [t.value for t in targets if not t.is_combiner], p)
                mid.append_operation("MPP", targets, [p])
            return pre, mid, post
        else:
            raise NotImplementedError()
    mid.append_operation(op.name, targets, op.gate_args_copy())
    return pre, mid, post


def noisy_circuit(self: NoiseModel, circuit: stim.Circuit, *, qs: Optional[Set[int]] = None, ancilla: Optional[int] = None) -> stim.Circuit:
    if ancilla is None:
        ancilla = circuit.num_qubits
    if qs is None:
        qs = set(range(circuit.num_qubits))
    result = stim.Circuit()
    pre = stim.Circuit()
    mid = stim.Circuit()
    post = stim.Circuit()
    used: Set[int] = set()
    collapsed: Set[int] = set()

    def end_of_step():
        nonlocal result
        if mid:
            if used and qs - used and self.idle > 0:
                post.append_operation("DEPOLARIZE1", sorted(qs - used), self.idle)
            if collapsed and qs - collapsed and self.measure_reset_idle > 0:
                post.append_operation("DEPOLARIZE1", sorted(qs - collapsed), self.measure_reset_idle)
            result += pre
            result += mid
            result += post
            pre.clear()
            mid.clear()
            post.clear()
            used.clear()
            collapsed.clear()

    for op in circuit:
        if isinstance(op, stim.CircuitRepeatBlock):
            end_of_step()
            result += noisy_circuit(self, op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
        elif isinstance(op, stim.CircuitInstruction):
            if op.name == "TICK":
                end_of_step()
                result.append_operation("TICK", [])
            else:
                if op.name in self.noisy_gates:
                    p = self.noisy_gates[op.name]
                elif self.any_clifford_1 is not None and op.name in CLIFFORD_1:
                    p = self.any_clifford_1
                elif self.any_clifford_2 is not None and op.name in CLIFFORD_2:
                    p = self.any_clifford_2
                elif op.name in ANNOTATION:
                    p = 0
                else:
                    raise NotImplementedError()
                a, b, c = self.noisy_op(op, p, ancilla)
                pre += a
                mid += b
                post += c
                if op.name not in ANNOTATION:
                    touched = {t.value for t in op.targets_copy() if t.is_x_target or t.is_y_target or t.is_z_target or t.is_qubit_target}
                    used |= touched
                    if op.name in MEASURE or op.name in RESET:
                        collapsed |= touched
        else:
            raise NotImplementedError()
    end_of_step()
    return result
