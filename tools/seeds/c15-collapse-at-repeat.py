PROPERTY = "C15"
NEEDS = "a model with measure-reset idling and a step with measurements or resets that ends at a repeat block instead of a tick"
BREAKS = "qubits collapsed before the repeat block still count as collapsed in the step after it and get no measure-reset idle noise there"
EDITS = [("noise.py", '''            current_moment_post.clear()
            measured_or_reset_qubits.clear()
''', '''            current_moment_post.clear()
'''), ("noise.py", '''                    flush()
                    result.append_operation("TICK", [])
''', '''                    flush()
                    measured_or_reset_qubits.clear()
                    result.append_operation("TICK", [])
''')]
DEMO = '''import sys
import stim
from noise import NoiseModel
c = stim.Circuit("""
    R 0 1
    REPEAT 2 {
        CZ 0 1
        TICK
    }
    M 0
""")
got = NoiseModel.SI1000(0.001).noisy_circuit(c)
print(got)
tail = str(got).split("}")[-1]
sys.exit(0 if "DEPOLARIZE1(0.002) 1" in tail else 1)
'''
