#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "harness", "py"))
import props  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    s = props.PROPS.get(i)
    if not s:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --thorough" % i,
        "technique": s.technique,
        "level": s.level,
        "level_note": s.note,
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hook is needed in /repo: the monitors only use the command line tool, the generated code and the public packages.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
