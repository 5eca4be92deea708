#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and jobs.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
import jobs, props

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in props.PROPS:
    i = p["id"]
    if i not in jobs.PROPERTIES:
        na.append({"property": i, "reason": props.NOT_APPLICABLE[i]})
        continue
    s = jobs.PROPERTIES[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "symbolic execution of the crate's LLVM IR with Z3 deciding every branch and assertion, "
                     "against a reference; native replay of counterexamples",
        "level": "model_checking",
        "level_note": "Holds for all inputs within these bounds: %s. Outside: %s. Trusts rustc's LLVM IR, the symbolic "
                      "executor in symex/ (sampled paths are replayed natively), Z3, and the reference." % (s.bounds, s.outside),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the harness uses only the public API. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
