"""Writes MANIFEST.json from props.py (run by hand after changing it)."""
import json
import os

import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for i in ids:
    p = props.PROPS.get(i)
    if p is None:
        na.append({"property": i, "reason": props.NOT_APPLICABLE[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3-vt sa/check.py %s" % i,
        "thorough_cmd": "python3-vt sa/check.py %s --tier thorough" % i,
        "technique": p["technique"],
        "level": p["level"],
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "python3-vt sa/build.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
