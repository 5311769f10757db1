#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "exploration"; M = "model_checking"; X = "fault_enumeration"
# id: (level, technique, note)
CLAIMS = json.load(open(os.path.join(V, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
hooks = CLAIMS.pop("_hooks", None)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS and "technique" in CLAIMS[i]:
        c = CLAIMS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": c["technique"],
            "level": c["level"],
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": CLAIMS.get(i, {}).get("reason", "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
if hooks:
    m["hooks"] = hooks
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
