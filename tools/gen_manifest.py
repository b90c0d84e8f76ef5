#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness files and the lists below."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
na = {}
notes = {}
try:
    notes = json.load(open(here + "/harness/notes.json"))
except FileNotFoundError:
    pass
checks, missing = [], []
for p in props:
    i = p["id"]
    if i in na:
        continue
    if not glob.glob(f"{here}/harness/{i}.go") + glob.glob(f"{here}/harness/{i}_*.go"):
        missing.append(i)
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash tools/check.sh {i} quick",
        "thorough_cmd": f"bash tools/check.sh {i} thorough",
        "technique": "symbolic execution of the Go SSA of the real code, assertions decided by z3 over all inputs within bounds; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": notes.get(i, "Holds for every input within the bounds stated in the evidence; trusts the SSA semantics of the engine, the models of the operating system in /verif/rt and z3."),
    })
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()] +
                       [{"property": k, "reason": "the check is not finished yet"} for k in missing],
     "notes": "No hooks in /repo: harnesses are laid over the working tree at build time (packages overlay for the engine, go test -overlay for the native replay)."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", "missing", missing)
