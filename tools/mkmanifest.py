#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, "tools", "claims.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": T.get("notes", "")}
for p in props:
    c = T["claims"].get(p)
    if c:
        m["checks"].append({"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough",
                            "evidence_file": f"evidence/{p}.json", "technique": c["technique"], "level": "other", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": T["na"].get(p, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
