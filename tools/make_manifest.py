"""write MANIFEST.json from properties.jsonl and the check modules that exist"""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "level_notes.py")).read())
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    path = os.path.join(ROOT, "checks", pid.lower() + ".py")
    if not os.path.exists(path) or pid in UNCLAIMED:
        na.append({"property": pid, "reason": UNCLAIMED.get(pid, "check not built yet")})
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    checks.append({"property": pid, "quick_cmd": f"./check.sh {pid} --tier quick",
                   "thorough_cmd": f"./check.sh {pid} --tier thorough",
                   "evidence_file": f"evidence/{pid}.json",
                   "technique": TECH.get(pid, "Quint specification; generated behaviours replayed into the real code"),
                   "level": consts.get("LEVEL", "model_checking"),
                   "level_note": NOTES.get(pid, DEFAULT)})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Quint specifications in spec/, conformance drivers in checks/, harness in vt/. No hooks in /repo."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
