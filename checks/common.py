"""Helpers to write schematic programs."""
from vf.prog import Prog, Result
from vf.runner import Task, prog_tasks

IMP = "from typing import Dict, List, Union\nfrom dataclasses import dataclass\nfrom pycardano import Datum as Anything, PlutusData\n"
PRE = "from typing import Dict, List, Union\nfrom opshin.prelude import *\n"
TYP = "from typing import Dict, List, Union\n"


def ind(body, n=4):
    return "".join(" " * n + l + "\n" for l in body.strip("\n").split("\n"))


def fn(sig, ret, body, hdr=""):
    """validator source from a signature, a return type and a body (or a single expression)"""
    if "\n" not in body and not body.startswith(("return ", "assert ", "if ", "for ", "while ", "def ")):
        body = "return " + body
    return f"{hdr}def validator({sig}) -> {ret}:\n{ind(body)}"


def P(name, sig, ret, body, hdr="", **kw):
    if ("List" in sig + ret + body or "Dict" in sig + ret + body or "Union" in sig + ret + body) and "import" not in hdr:
        hdr = TYP + hdr
    return Prog(name, fn(sig, ret, body, hdr), **kw)


def merge(r, q):
    """add the results q to the results r"""
    for k in ("obl", "violations", "undecided", "samples", "touched", "bounds", "known"):
        getattr(r, k).extend(getattr(q, k))
    for k in ("paths", "replays", "solver_s", "queries", "wall"):
        setattr(r, k, getattr(r, k) + getattr(q, k))
    for k, v in q.backends.items():
        r.backends[k] = r.backends.get(k, 0) + v
    r.complete = r.complete and q.complete
    r.touched = sorted(set(r.touched))


def grouped(ps, tier, seed, size=12):
    """several small programs per task (most of them are rejected at once)"""
    from vf.prog import verify
    out = []
    for i in range(0, len(ps), size):
        chunk = ps[i:i + size]

        def go(chunk=chunk):
            r = Result(f"{chunk[0].name} ..")
            for p in chunk:
                merge(r, verify(p, tier, seed))
            return r
        out.append(Task(f"{chunk[0].name} .. {chunk[-1].name}", go, timeout=240, weight=2))
    return out
