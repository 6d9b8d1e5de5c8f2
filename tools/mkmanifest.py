"""regenerates MANIFEST.json from the table below"""
import json, os
V = "/verif"
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
T = {}
exec(open(f"{V}/tools/claims.py").read(), {"T": T})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and "level" in T[i]:
        checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick", "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
                       "technique": T[i]["technique"], "level": T[i]["level"], "level_note": T[i]["note"]})
    else:
        na.append({"property": i, "reason": T.get(i, {}).get("na", "not claimed yet: its contracts and bounded cases are still being built")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Every check generates its obligations from /repo/src on each run (pyvc symbolic execution of the current source + z3/cvc5) and runs bounded cases on the real code."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
