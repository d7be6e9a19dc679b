#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta/props.py."""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE  # noqa: E402
root = os.path.dirname(here)

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w}
                                      for n, w in p["mech"]]},
        }) + "\n")
        assert len(p["title"]) <= 80, p["id"]
manifest = {
    "version": 1,
    "setup_cmd": "python3 check.py --selftest",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]}
                       for p in NOT_APPLICABLE],
    "notes": "Every check parses /repo/src/tespy on each run and never "
             "imports or runs it; no hooks in /repo.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
