PROPERTY = "C14"
NEEDS = "a time step that holds nothing but annotations (detectors or coordinate shifts between two ticks)"
BREAKS = "annotations of a step without operations slide past the tick that ended the step"
EDITS = [("noise.py", '''            if not current_moment_mid:
                return
''', '''            if not current_moment_mid or not (used_qubits or measured_or_reset_qubits or op.name != "TICK"):
                return
''')]
DEMO = '''import sys
import stim
from noise import NoiseModel
c = stim.Circuit("""
    R 0
    TICK
    M 0
    TICK
    DETECTOR(0, 0, 0) rec[-1]
    SHIFT_COORDS(0, 0, 1)
    TICK
    M 0
    DETECTOR(0, 0, 0) rec[-1]
""")
got = NoiseModel.SD6(0).noisy_circuit(c)
print(got)
sys.exit(0 if got == c else 1)
'''
