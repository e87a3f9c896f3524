#!/usr/bin/env python3
"""rewrites the generated part of DESIGN.md (per-property sections, findings, planted bugs) from the check modules, the last evidence and the records"""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/mkdesign.py from here on -->"
out = [MARK, "", "## Properties", ""]
na = {x["property"]: x["reason"] for x in json.load(open(f"{V}/MANIFEST.json"))["not_applicable"]}
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)
    out += [f"### {p['id']} {p['title']}", ""]
    if p["id"] in na:
        out += [f"Not applicable: {na[p['id']]}", ""]
        continue
    meta = {}
    for n in ast.parse(open(f"{V}/checks/{p['id']}.py").read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "META":
            meta = {k.arg: ast.literal_eval(k.value) for k in n.value.keywords}
    out += [f"*Level*: {meta.get('level', 'translation_validation')}.  *How*: {meta['explanation']}", ""]
    out += ["*Oracle*: " + meta.get("oracle", "the same source executed by CPython (symbolic runtime for primitive operations; plain CPython for replay)") + ".  "
            "*Why tests cannot*: " + p["why_tests_cant"], ""]
    if meta.get("assumptions"):
        out += ["*Assumptions of this check*: " + "; ".join(meta["assumptions"]) + ".", ""]
    f = f"{V}/evidence/{p['id']}.json"
    if os.path.exists(f):
        e = json.load(open(f)); c = e["coverage"]
        bs = c["bounds"]
        out += [f"*Quick run*: {c['programs']} tasks, {c['discharged']} of {c['obligations']} unbounded and {c['discharged_bounded']} of {c['obligations_bounded']} bounded obligations discharged, "
                f"{c['undecided_count']} undecided, {len(c['functions_under_contract'])} functions of opshin exercised, about {10 * round(e['wall_s'] / 10 + .5):.0f} s on 8 cores."
                + (" Bounds: " + "; ".join(bs[:6]) + (" ..." if len(bs) > 6 else "") + "." if bs else " No bounds."), ""]
ks = []
for l in open(f"{V}/known_findings.jsonl"):
    ks.append(json.loads(l))
out += ["## Genuine defects found", "", "Repaired (`fix:` commits in /repo; the check reports them again if they return):", ""]
out += [f"* {k['property']} `{k.get('commit')}` {k['what'].split(' ', 3)[-1]}" for k in ks if k["status"] == "fixed"]
out += ["", "Known and not repaired (KNOWN-FINDING lines; each identified by the program that shows it):", ""]
seen = set()
for k in ks:
    if k["status"] == "known" and (k["property"], k["what"]) not in seen:
        seen.add((k["property"], k["what"]))
        out.append(f"* {k['property']} {k['what']}")
out += ["", "## Planted bugs", "", "Each has been applied to a copy of /repo; the quick check named catches it (exit 1 with a concrete failing input unless noted).", "", "| bug | breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f))
    out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'] + ' quick')} |")
s = open(f"{V}/DESIGN.md").read().split(MARK)[0].replace("@@PROPERTIES@@", "").rstrip() + "\n\n"
open(f"{V}/DESIGN.md", "w").write(s + "\n".join(out) + "\n")
