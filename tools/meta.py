#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS  # noqa

root = os.path.dirname(here)
NOT_APPLICABLE = []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["pid"]
        d = {"id": p["pid"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p["observe"], "hook_needed": None}}
        if p["state"]:
            d["anchors"]["state"] = list(p["state"])
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    checks.append({"property": p["pid"], "quick_cmd": "./run.sh %s --tier quick" % p["pid"],
                   "thorough_cmd": "./run.sh %s --tier thorough" % p["pid"],
                   "evidence_file": "evidence/%s.json" % p["pid"], "technique": p["technique"],
                   "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./run.sh selftest",
     "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "Pure-Python project: a check imports featuretools from /repo's working tree, so nothing has to be rebuilt."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties")
