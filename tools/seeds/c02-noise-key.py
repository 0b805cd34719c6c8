PROPERTY = "C02"
NEEDS = "recorded files with rows for two noise strengths that agree to nine decimals"
BREAKS = "read_recorded_data rounds the noise while building the key, so rows of distinct problems are merged and attributed to a noise strength nobody ran"
EDITS = [("collect_data.py", 'noise=float(row["noise"]),', 'noise=round(float(row["noise"]), 9),')]
DEMO = '''import os, tempfile, sys
from collect_data import read_recorded_data, CSV_HEADER
d = tempfile.mkdtemp()
p = d + "/a.csv"
row = "4,6,10,{},SD6,V,4,72,100,90,1.5,pymatching,1\\n"
cols = CSV_HEADER.split(",")
def mk(noise, shots):
    v = dict(data_width=4, data_height=6, rounds=10, noise=noise, circuit_style="SD6", preserved_observable="V", code_distance=4,
             num_qubits=72, num_shots=shots, num_correct=90, total_processing_seconds=1.5, decoder="pymatching", version=1)
    return ",".join(str(v.get(c, 1)) for c in cols) + "\\n"
with open(p, "w") as f:
    f.write(CSV_HEADER + "\\n" + mk(1.1e-10, 100) + mk(1.2e-10, 200))
got = read_recorded_data(p).data
os.remove(p); os.rmdir(d)
print(got)
sys.exit(0 if sorted(v.num_shots for v in got.values()) == [100, 200] and sorted(k.noise for k in got) == [1.1e-10, 1.2e-10] else 1)
'''
