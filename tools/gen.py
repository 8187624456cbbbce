#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
from props import PROPS, NOT_APPLICABLE  # noqa: E402

TECH = {
    "inputs": "bounded exhaustive enumeration of inputs of the real code against a reference model",
    "histories": "bounded exhaustive exploration of operation histories of the real code against a reference state machine",
    "fault_sequences": "exhaustive fault injection",
    "configurations": "exhaustive enumeration of configurations",
    "schedules": "every iteration order of the hash maps under a controlled hash seed",
}
with open("properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p.get("observe", []),
                "hook_needed": None,
            },
        }) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": p.get("tech") or "explicit-state model checking of the implementation: " + TECH[p["over"][0]],
        "level": "model_checking",
        "level_note": p["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "bash check.sh build",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
}
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
