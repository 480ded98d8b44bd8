#!/usr/bin/env python3
"""regenerate MANIFEST.json from properties.jsonl and the scenario files present"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/scen/%s.py" % i.lower()):
        checks.append({
            "property": i,
            "quick_cmd": "./check.py %s --tier quick" % i,
            "thorough_cmd": "./check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the instrumented /repo source (own engine in sx/), assertions decided by z3 "
                         "over all values within the stated bounds; counterexamples replayed on the real code",
            "level": "model_checking",
            "level_note": "exhaustive over symbolic inputs/schedules within the bounds listed per scenario in the evidence file; "
                          "ctypes, struct, re and the crypto primitives are modelled, path witnesses are replayed on the real ones",
        })
    else:
        na.append({"property": i, "reason": "check not built"})
m = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks in /repo; fix: commits are listed in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
