"""Replays a recorded violation: finds the task of the check again and evaluates the recorded input on the real code."""
import importlib
import json
import sys


def main(path):
    sys.setrecursionlimit(100000)
    v = json.load(open(path))
    print(json.dumps({k: v[k] for k in v if k != "program"}, indent=1)[:3000])
    if v.get("program"):
        print(v["program"])
    if not v.get("inputs") or not v.get("program"):
        print("no concrete input recorded; the failed obligation is", v.get("obligation"))
        return 1
    from . import prog as PG
    mod = importlib.import_module(f"checks.{v['property']}")
    p = None
    for q in mod.progs("quick") + mod.progs("thorough"):
        if q.src == v["program"]:
            p = q
            break
    if p is None:
        p = PG.Prog("replay", v["program"])
    ok, desc = PG.compare_concrete(p, v["config"], [PG.data_unjson(x) for x in v["inputs"]])
    print("agree" if ok else "STILL FAILS", json.dumps(desc, default=str)[:2000])
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
