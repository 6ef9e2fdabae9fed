#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the current go/ssa of the code under test with Z3 deciding every branch and assertion; counterexamples replayed on the compiled code"
notes = json.load(open(os.path.join(here, "levels.json")))
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    n = notes.get(p)
    if n and "note" in n:
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                       "technique": TECH, "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": p, "reason": (n or {}).get("na", "not built yet: the check for this property is still being written")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
