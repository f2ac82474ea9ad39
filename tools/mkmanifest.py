#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules that exist (development tool)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    f = os.path.join(V, "pbt", "props", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    m = importlib.import_module("pbt.props." + pid.lower())
    checks.append({"property": pid, "quick_cmd": f"./check.sh {pid} quick", "thorough_cmd": f"./check.sh {pid} thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": getattr(m, "TECHNIQUE", "property-based testing (Hypothesis): generated programs against an explicit oracle, with shrinking"),
                   "level": m.LEVEL, "level_note": getattr(m, "NOTE", m.RULE + " Trusts rustc, std and the generator's model of valid Rust; absence of violations is evidence over the explored cases, not a proof.")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks only use the public crate. Everything is rebuilt from /repo's working tree by content hash."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
