#!/usr/bin/env python3
"""append an entry to known_findings.jsonl:  kf.py PROP known|fixed ID PROG_OR_COMMIT WHAT"""
import json, sys
p, st, i, x, what = sys.argv[1:6]
e = dict(property=p, status=st, id=i)
e["prog" if st == "known" else "commit"] = x
e["what"] = what if st == "known" else f"fixed: property={p} {x} {what}"
open("/verif/known_findings.jsonl", "a").write(json.dumps(e) + "\n")
