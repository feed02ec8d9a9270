"""Writes MANIFEST.json from the list of checks (run by hand)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
exec(open(f"{HERE}/techniques.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{HERE}/checks/{i}.py") and i in TECH:
        level, tech, note = TECH[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
               notes="Specifications: spec/*.tla (TLA+, checked with TLC). Each check builds tg from /repo's working tree, "
                     "records what it does, and lets TLC decide the record against the specification. See DESIGN.md."),
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
