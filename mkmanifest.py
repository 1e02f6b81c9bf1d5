#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
c = json.load(open(H + "/checks.json"))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in c["properties"]:
        k = c["properties"][i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
            "technique": k.get("technique", "contract-based deductive verification: contracts on the Go functions, translated mechanically from the current source to Verus, discharged by Verus/Z3"),
            "level": k.get("level", "proof"),
            "level_note": k["note"] + " Trusted: the translator gover, Verus and Z3, the models of standard library functions, the Go compiler."})
    else:
        na.append({"property": i, "reason": c["not_applicable"][i]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: contracts live in /verif/spec, keyed by function, loop and closure ordinals. See DESIGN.md."},
          open(H + "/MANIFEST.json", "w"), indent=1)
