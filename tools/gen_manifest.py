#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry per implemented check, everything else under not_applicable."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CHECKS = {}
def chk(id, technique, level, note): CHECKS[id] = (technique, level, note)
exec(open(os.path.join(V, "tools", "checks_table.py")).read())
NA = {}
exec(open(os.path.join(V, "tools", "na_table.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "Static analysis of clang 18 IR/AST built from /repo's working tree; see DESIGN.md. known_findings.json lists accepted findings and fixed defects."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 checks/%s.py" % i, "thorough_cmd": "python3 checks/%s.py --thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed yet: the machinery for it is being built")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
