"""Writes MANIFEST.json from the list of properties, tools/levels.json and baseline.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
lev = json.load(open(os.path.join(H, "tools", "levels.json")))
checks = []
for p in props:
    i = p["id"]
    l = lev.get(i, {})
    checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i}", thorough_cmd=f"python3-vt check.py {i} --thorough",
        evidence_file=f"evidence/{i}.json", technique=l.get("technique", "contract-based deductive verification (weakest-precondition style VCs from the real Python source, z3), bounded stand-in where out of reach"),
        level=l.get("level", "other"), level_note=l.get("note", "")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[], notes="See DESIGN.md."), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
