PROPERTY = "C10"
NEEDS = "a circuit with two observables where one is predicted correctly and another is not"
BREAKS = "shots whose detectors stayed silent are counted by their first observable only, so a shot with a wrong second observable counts as correct"
EDITS = [("decoding.py", '''    all_corrects = np.all(predictions == obs_samples, axis=1)
''', '''    corrects = predictions == obs_samples
    quiet = ~np.any(det_samples, axis=1)
    all_corrects = np.all(corrects, axis=1)
    if num_obs:
        all_corrects[quiet] = corrects[quiet, 0]
''')]
DEMO = '''import sys
import stim
from decoding import sample_decode_count_correct
c = stim.Circuit("""
    X_ERROR(0.01) 0
    X_ERROR(1) 2
    M 0 1 2
    DETECTOR rec[-3]
    DETECTOR rec[-2]
    OBSERVABLE_INCLUDE(0) rec[-2]
    OBSERVABLE_INCLUDE(1) rec[-1]
""")
# The second observable is flipped in every shot by an error that no detector sees; it is never predicted.
m = stim.Circuit("""
    X_ERROR(0.01) 0 1
    M 0 1 2
    DETECTOR rec[-3]
    DETECTOR rec[-2]
    OBSERVABLE_INCLUDE(0) rec[-2]
    OBSERVABLE_INCLUDE(1) rec[-1]
""")
n = sample_decode_count_correct(circuit=c, model_circuit=m, num_shots=100, decoder="pymatching")
print(n)
sys.exit(0 if n == 0 else 1)
'''
