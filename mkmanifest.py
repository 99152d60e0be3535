"""Writes MANIFEST.json from plans.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
props = [json.loads(l) for l in open("properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i not in plans.PLANS:
        continue
    d = plans.PLANS[i]
    note = d.get("note") or "Held on the executions explored; reach comes from workload diversity. " + " ".join("Trusts: " + a + "." for a in d.get("assumptions", []))
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                   "technique": d["technique"], "level": d["level"], "level_note": note})
na = [{"property": k, "reason": v} for k, v in plans.NOT_APPLICABLE.items()]
for p in props:
    if p["id"] not in plans.PLANS and p["id"] not in plans.NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors observe the real code at its boundaries. Every check rebuilds from /repo's working tree into /verif/target."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
