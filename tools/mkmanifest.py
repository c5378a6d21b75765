import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
NOTE = json.load(open(ROOT + "/tools/levels.json")) if os.path.exists(ROOT + "/tools/levels.json") else {}
checks = []
for p in props:
    i = p["id"]
    n = NOTE.get(i, {})
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                   "technique": n.get("technique", "contracts on the real functions; obligations by symbolic execution, normal forms and z3; run-time contracts as bounded stand-in"),
                   "level": n.get("level", "exploration"), "level_note": n.get("note", "run-time contracts only so far (bounded)")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the verified text is imported from /repo/src on every run. Fix commits are listed in known_findings.txt."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks))
