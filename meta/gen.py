#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta/props/*.json (one file per property)."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(H, "meta/props/*.json"))):
    j = json.load(open(f))
    props.append({k: j[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    assert len(j["title"]) <= 80, j["id"]
    if "not_applicable" in j:
        na.append({"property": j["id"], "reason": j["not_applicable"]})
    else:
        checks.append({"property": j["id"], "quick_cmd": "./check %s --tier quick" % j["id"],
                       "thorough_cmd": "./check %s --tier thorough" % j["id"],
                       "technique": j["technique"], "level": "other", "level_note": j["level_note"]})
with open(os.path.join(H, "properties.jsonl"), "w") as o:
    for p in props:
        o.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: the checks read /repo's sources only."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
