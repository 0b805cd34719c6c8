PROPERTY = "C09"
NEEDS = "the internal decoder binary present, no model circuit, and decoder internal_correlated on a circuit whose error model needs no decomposition"
BREAKS = "the correlation flags are dropped when the error model has no separators, so the decoder named internal_correlated runs uncorrelated"
EDITS = [("decoding.py", '''        if use_correlated_decoding:
            command +=''', '''        if use_correlated_decoding and "^" in str(error_model):
            command +=''')]
DEMO = '''import sys, os, tempfile, pathlib, shutil
import stim, numpy as np
import decoding
here = os.getcwd()
d = tempfile.mkdtemp()
os.chdir(d)
try:
    p = pathlib.Path("internal_decoder.binary")
    p.write_text("""#!/bin/bash
echo "$@" > seen.txt
while [ $# -gt 0 ]; do case $1 in -dets_fname) dets=$2;; -out) out=$2;; esac; shift; done
sed 's/.*/0/' "$dets" > "$out"
""")
    p.chmod(0o755)
    c = stim.Circuit("X_ERROR(0.1) 0\\nM 0\\nDETECTOR rec[-1]\\nOBSERVABLE_INCLUDE(0) rec[-1]")
    decoding.sample_decode_count_correct(circuit=c, num_shots=5, decoder="internal_correlated")
    a = pathlib.Path("seen.txt").read_text()
    decoding.sample_decode_count_correct(circuit=c, num_shots=5, decoder="internal")
    b = pathlib.Path("seen.txt").read_text()
finally:
    os.chdir(here)
    shutil.rmtree(d)
print(a, b)
sys.exit(0 if "-cheap_corr" in a and "-cheap_corr" not in b else 1)
'''
