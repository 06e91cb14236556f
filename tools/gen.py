#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and the checks present."""
import json, os, re, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from props import P

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["over_text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]} if p["state"] else {}),
                **({"observe_at": p["observe_at"]} if p["observe_at"] else {}),
            },
        }) + "\n")
checks, na = [], []
for p in P:
    have = os.path.exists(os.path.join(here, "checks", p["id"].lower() + ".py"))
    if p["claimed"] and have:
        checks.append({
            "property": p["id"], "quick_cmd": "./check " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        })
    else:
        na.append({"property": p["id"], "reason": p["reason"] or "no check built yet"})
m = {
    "version": 1, "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the checks observe through interfaces the code already has", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "Every check is ./check <ID>; VERIF_SEED seeds every random choice; see DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(checks), "checks")
