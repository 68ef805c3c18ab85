#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from registry.py (run by hand after editing it)."""
import json, os
from registry import PROPS, NOT_CLAIMED
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for pid in sorted(list(PROPS) + list(NOT_CLAIMED)):
        p = PROPS.get(pid) or NOT_CLAIMED[pid]
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [dict(zip(("name", "where"), m.split(" @ "))) for m in p["mech"]], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, pid
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                 "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for pid, p in sorted(PROPS.items())],
     "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in sorted(NOT_CLAIMED.items())],
     "notes": "No hooks: the checks compile /repo's sources unchanged together with the harnesses in /verif/harness. All fix: commits are recorded in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
