#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below (kept in step with properties.jsonl)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claims = json.load(open(os.path.join(root, "tools", "claims.json")))
checks, na = [], []
for p in props:
    c = claims.get(p["id"])
    if c:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} quick",
            "thorough_cmd": f"python3 check.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["note"],
        })
    else:
        na.append({"property": p["id"], "reason": "check still being built"})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "hooks": json.load(open(os.path.join(root, "tools", "hooks.json"))),
    "checks": checks,
    "not_applicable": na,
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
