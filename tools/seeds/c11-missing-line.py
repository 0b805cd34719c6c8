PROPERTY = "C11"
NEEDS = "a decoder process that stops writing on a shot boundary before all shots are answered, without failing"
BREAKS = "output that ends early is read as no-flip predictions for the remaining shots"
EDITS = [("decoding.py", '''        with open(out_file, "r") as f:
            for shot in range(num_shots):
                for obs_index in range(num_obs):
                    c = f.read(1)
                    assert c in '01'
                    predictions[shot, obs_index] = c == '1'
                assert f.read(1) == '\\n'
''', '''        with open(out_file, "r") as f:
            for shot, line in enumerate(f):
                assert shot < num_shots
                assert len(line) == num_obs + 1 and line[-1] == '\\n'
                for obs_index in range(num_obs):
                    c = line[obs_index]
                    assert c in '01'
                    predictions[shot, obs_index] = c == '1'
''')]
DEMO = '''import sys, os, tempfile, pathlib, shutil
import stim
import decoding
here = os.getcwd()
d = tempfile.mkdtemp()
os.chdir(d)
def run(body):
    p = pathlib.Path("internal_decoder.binary")
    p.write_text("""#!/bin/bash
while [ $# -gt 0 ]; do case $1 in -dets_fname) dets=$2;; -out) out=$2;; esac; shift; done
""" + body)
    p.chmod(0o755)
    c = stim.Circuit("X_ERROR(0.1) 0\\nM 0\\nDETECTOR rec[-1]\\nOBSERVABLE_INCLUDE(0) rec[-1]")
    return decoding.sample_decode_count_correct(circuit=c, num_shots=5, decoder="internal")
try:
    run("""sed 's/.*/0/' "$dets" > "$out"\\n""")
    failed = False
    try:
        run("""sed 's/.*/0/' "$dets" | head -3 > "$out"\\n""")
    except Exception as e:
        failed = True
finally:
    os.chdir(here)
    shutil.rmtree(d)
print("fails closed:", failed)
sys.exit(0 if failed else 1)
'''
