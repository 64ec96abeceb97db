#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from lib/proptext.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib")]
import proptext  # noqa: E402
import props  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(proptext.P + proptext.NA, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}}) + "\n")
checks = []
for p in proptext.P:
    assert p["id"] in props.PROPS, p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p.get("level", "proof"), "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in proptext.NA],
     "notes": "Contract-based deductive verification with Verus of functions extracted from /repo on every run; see DESIGN.md. No hooks in /repo."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
