#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P, NA, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks = []
for p in P:
    if p["id"] in NA:
        continue
    assert os.path.exists(os.path.join(root, "checks", p["id"].lower() + ".py")), p["id"]
    c = "python3-vt engine/check.py " + p["id"]
    checks.append({
        "property": p["id"], "quick_cmd": c + " --tier quick", "thorough_cmd": c + " --tier thorough",
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["tech"], "level": "other", "level_note": p["note"]})
man = {
    "version": 1,
    "setup_cmd": "python3-vt engine/facts.py",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": NOTES,
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
print(len(P), "properties,", len(checks), "checks,", len(NA), "not applicable")
