#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import ast, json, pathlib

root = pathlib.Path(__file__).resolve().parent.parent
NA = {
    "C28": "Determinism and graph-likeness of every generated circuit is a statement about stabilizer states and error propagation of the circuits that come out, for all sizes; no dataflow over the generator's source bounds it (the structural parts that can be decided are C16-C20).",
    "C29": "Fault distance is the result of a minimum-weight search over error mechanisms of concrete circuits; the source of the generator does not determine it by any static argument in reach.",
}
NOTE = ("Sound with respect to the abstract evaluator hca/ and its library models: every path of the analysed functions is evaluated over symbolic "
        "inputs and each obligation must be discharged in every case, otherwise it is reported. Trusts the library models, exact (not floating point) arithmetic and type annotations.")
checks, na = [], []
for line in (root / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    f = root / "checks" / (p["id"].lower() + ".py")
    if not f.exists():
        na.append({"property": p["id"], "reason": NA.get(p["id"], "No static check built for this property yet.")})
        continue
    tech = next(ast.literal_eval(n.value) for n in ast.parse(f.read_text()).body if isinstance(n, ast.Assign) and n.targets[0].id == "TECHNIQUE")
    checks.append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p['id']}",
                   "technique": "static analysis: " + tech, "level": "other", "level_note": NOTE})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q hca checks spec", "checks": checks, "not_applicable": na,
           "notes": "All checks are one static analyser (hca/) over the syntax tree of /repo/src; /repo is parsed anew on every run and never executed. No hooks."},
          open(root / "MANIFEST.json", "w"), indent=1)
