#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the definitions in props/*.json (one file per property) and
not_applicable.json.  Run after adding a property; the generated files are committed."""
import glob, json, os
V = os.path.dirname(os.path.abspath(__file__))
props, checks = [], []
for p in sorted(glob.glob(f"{V}/props/*.json")):
    d = json.load(open(p))
    note = d.pop("level_note")
    tech = d.pop("technique", "symbolic execution of the compiled IR with an SMT solver, bounded; counterexamples replayed natively")
    claimed = d.pop("claimed", True)
    props.append(d)
    if claimed:
        checks.append({"property": d["id"], "quick_cmd": f"python3 vf.py check {d['id']} quick",
                       "thorough_cmd": f"python3 vf.py check {d['id']} thorough", "technique": tech,
                       "level": "model_checking", "level_note": note})
na = json.load(open(f"{V}/not_applicable.json"))
for d in na:
    props.append(d["prop"])
with open(f"{V}/properties.jsonl", "w") as f:
    for d in props:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 vf.py setup", "checks": checks,
           "not_applicable": [{"property": d["prop"]["id"], "reason": d["reason"]} for d in na],
           "notes": "Engine: engine/ (symbolic executor for LLVM IR on Z3/cvc5); driver: vf.py; harnesses: harness/."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(props), "properties,", len(checks), "checks")
