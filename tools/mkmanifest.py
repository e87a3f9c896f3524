#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the check modules present"""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
checks, na = [], []
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)
    f = f"{V}/checks/{p['id']}.py"
    if p["id"] in NA:
        na.append(dict(property=p["id"], reason=NA[p["id"]]))
        continue
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="no check has been built for this property yet"))
        continue
    meta = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "META":
            for k in n.value.keywords:
                meta[k.arg] = ast.literal_eval(k.value)
    checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                       technique=meta.get("technique", "contract-based deductive verification: relational contracts discharged by symbolic execution of the emitted code and z3/cvc5"),
                       level=meta.get("level", "translation_validation"), level_note=meta["explanation"]))
json.dump(dict(version=1, setup_cmd="/opt/veriftools/pyvenv/bin/python3 -c 'import z3, cvc5'", checks=checks, not_applicable=na,
               notes="see DESIGN.md; known defects of the code are in known_findings.jsonl; ./check <id> quick|thorough [task filter]; ./replay <file> re-runs a recorded violation"),
          open(f"{V}/MANIFEST.json", "w"), indent=1)
