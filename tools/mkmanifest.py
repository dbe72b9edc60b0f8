"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, D)
from vf import props

NOTES = {}
exec(open(os.path.join(D, "tools", "levels.py")).read())
checks, missing = [], []
for l in open(os.path.join(D, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in props.BODY:
        lv, tech, note = NOTES[p]
        assert props.LEVEL[p] == lv, p
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": tech, "level": lv, "level_note": note})
    else:
        missing.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 -m vf.build", "checks": checks, "not_applicable": missing,
     "notes": "No hooks in /repo: the unmodified binary is observed and disturbed through an LD_PRELOAD shim and a scripted S3 server."}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in missing])
