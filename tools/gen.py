#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []


def P(id, title, statement, over, text, why, files, mech, obs, level="other", technique=None, note=None, na=None):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": obs, "hook_needed": None}})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": "python3 checks/%s.py" % id, "thorough_cmd": "python3 checks/%s.py --tier thorough" % id,
                       "technique": technique, "level": level, "level_note": note})


exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 tools/selfcheck.py", "checks": CHECKS, "not_applicable": NA,
               "notes": "Every check is a static analysis of /repo's working tree; see DESIGN.md."}, f, indent=1)
    f.write("\n")
