"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
from techniques import TECH
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in check.CHECKS and p in TECH:
        t = TECH[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p,
                       "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": t["technique"], "level": t["level"], "level_note": t["note"]})
    else:
        na.append({"property": p, "reason": TECH.get(p, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through public interfaces."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
