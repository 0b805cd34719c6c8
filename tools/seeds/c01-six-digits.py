PROPERTY = "C01"
NEEDS = "aggregating records whose summed processing time (or noise) has more than six significant digits"
BREAKS = "aggregated rows are written with six significant digits, losing part of the recorded values"
F = "paper/aggregate_csv_data.py"
EDITS = [(F, "def main():\n", '''def csv_field(value) -> str:
    """Plain text of a value, without exponents or a trailing point for whole numbers."""
    if isinstance(value, float):
        return format(value, "g")
    return str(value)


def main():
'''), (F, 'print(",".join(str(e) for e in [', 'print(",".join(csv_field(e) for e in [')]
DEMO = '''import contextlib, io, os, sys, tempfile
from collect_data import CSV_HEADER
import paper.aggregate_csv_data as agg
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.csv")
    with open(p, "w") as f:
        print(CSV_HEADER, file=f)
        print("4,6,12,0.001,honeycomb_SD6,V,4,60,1000,990,12345.25,internal,2", file=f)
        print("4,6,12,0.001,honeycomb_SD6,V,4,60,1000,980,12345.5,internal,2", file=f)
    sys.argv = ["agg", p]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        agg.main()
row = out.getvalue().strip().splitlines()[-1].split(",")
print(row)
sys.exit(0 if row[8:11] == ["2000", "1970", "24690.75"] and row[3] == "0.001" else 1)
'''
