#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (run by hand after editing props.py)."""
import json, os
import props
from props import PROPS
import layer_a

V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS.values():
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks = []
for p in PROPS.values():
    tech, note = layer_a.describe(p["id"])
    c = dict(
        property=p["id"],
        quick_cmd=f"python3 check.py {p['id']} --tier quick",
        thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
        technique=tech,
        level=p["level"],
        level_note=note,
    )
    th = layer_a.theorems(p["id"])
    if th:
        c["theorems"] = th
    checks.append(c)
m = dict(
    version=1,
    setup_cmd="python3 setup.py",
    checks=checks,
    not_applicable=[],
    notes="See DESIGN.md. No hooks in /repo: only fix: commits (KNOWN_FINDINGS.txt).",
)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
