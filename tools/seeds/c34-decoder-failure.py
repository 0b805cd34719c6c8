PROPERTY = "C34"
NEEDS = "an internal decoder that fails"
BREAKS = "when the internal decoder fails, saving the failing case itself fails, because the shots are copied with a method text files do not have"
EDITS = [("decoding.py", '''                with open("repro.dets", "w") as f2:
                    print(f.read(), file=f2)''', '''                with open("repro.dets", "w") as f2:
                    f2.writelines(f.readall())''')]
DEMO = '''import os, stat, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import stim
from decoding import sample_decode_count_correct
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    with open("internal_decoder.binary", "w") as f:
        print("#!/bin/sh\\nexit 3", file=f)
    os.chmod("internal_decoder.binary", 0o755)
    c = stim.Circuit.generated("repetition_code:memory", distance=3, rounds=2, before_round_data_depolarization=0.1)
    try:
        sample_decode_count_correct(circuit=c, num_shots=5, decoder="internal")
    except subprocess.CalledProcessError as e:
        ok = e.returncode == 3 and os.path.exists("repro.dets")
    except Exception as e:
        print(repr(e))
        ok = False
    os.chdir("/")
sys.exit(0 if ok else 1)
'''
