#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
from props import P
NA = {}
try:
    from props import NOT_APPLICABLE as NA
except ImportError:
    pass
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]
checks, na = [], []
for p in P:
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
    elif not os.path.exists(os.path.join(root, "jv", "checks", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "check not built yet"})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "jajapy is pure Python; checks import /repo's working tree directly (JV_REPO overrides the path). No hooks in /repo: "
              "multiprocessing.Pool and cpu_count are replaced from outside before jajapy is imported. Seeds: VERIF_SEED. "
              "JV_SCALE scales the time budget of a check."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
