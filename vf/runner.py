"""Runs the tasks of one property in parallel child processes, writes evidence, reports violations."""
import importlib
import json
import os
import pickle
import resource
import select
import signal
import struct
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Task:
    def __init__(self, name, fn, timeout=90, weight=1):
        self.name, self.fn, self.timeout, self.weight = name, fn, timeout, weight


def prog_tasks(progs, tier, seed):
    from .prog import verify

    def mk(p):
        return Task(p.name, lambda: verify(p, tier, seed), timeout=(p.time_limit * 2 + 120) * (4 if tier == "thorough" else 1))
    return [mk(p) for p in progs]


def _child(task, wfd):
    from .prog import Result
    out = {}

    def main():
        try:
            r = task.fn()
            out["r"] = r
        except BaseException as e:
            r = Result(task.name)
            r.undecided.append((task.name, f"{type(e).__name__}: {e}"))
            r.complete = False
            r.error = traceback.format_exc()[-3000:]
            out["r"] = r
    sys.setrecursionlimit(250000)
    threading.stack_size(768 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    b = pickle.dumps(out["r"].__dict__)
    with os.fdopen(wfd, "wb") as f:
        f.write(struct.pack("<Q", len(b)))
        f.write(b)


def run_tasks(tasks, jobs=8, deadline=None, stop=None):
    """-> list of result dicts, in task order"""
    sys.stdout.flush()
    results = {}
    pending = sorted(range(len(tasks)), key=lambda i: -tasks[i].weight)
    running = {}
    while pending or running:
        while pending and len(running) < jobs:
            i = pending.pop(0)
            if deadline and time.time() > deadline:
                results[i] = dict(name=tasks[i].name, obl=[], violations=[], undecided=[(tasks[i].name, "not started: time budget of the check used up")], complete=False)
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    if not os.environ.get('VF_STDERR'):
                        os.dup2(dn, 2)
                    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                    _child(tasks[i], w)
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (i, pid, time.time(), bytearray())
        if not running:
            break
        rd, _, _ = select.select(list(running), [], [], 0.5)
        now = time.time()
        for fd in list(running):
            i, pid, st, buf = running[fd]
            done = False
            if fd in rd:
                b = os.read(fd, 1 << 20)
                if b:
                    buf += b
                else:
                    done = True
            elif now - st > tasks[i].timeout or (deadline and now > deadline + 30):
                os.kill(pid, signal.SIGKILL)
                done = True
            if done:
                os.close(fd)
                del running[fd]
                _, status = os.waitpid(pid, 0)
                if len(buf) >= 8 and len(buf) - 8 == struct.unpack("<Q", bytes(buf[:8]))[0]:
                    results[i] = pickle.loads(bytes(buf[8:]))
                    if stop and stop(results[i]):
                        for _, q, _, _ in running.values():
                            os.kill(q, signal.SIGKILL)
                            os.waitpid(q, 0)
                        return list(results.values())
                else:
                    why = f"task ended without a result (time limit {tasks[i].timeout}s or memory), status {status}"
                    results[i] = dict(name=tasks[i].name, obl=[], violations=[], undecided=[(tasks[i].name, why)], complete=False)
    return [results[i] for i in range(len(tasks))]


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l and not l.startswith("#"):
                j = json.loads(l)
                if j.get("property") == prop and j.get("status") == "known":
                    out.append(j)
    return out


def match_known(v, known):
    for k in known:
        name = v.get("prog", v.get("obligation", "").split("@")[0])
        if k.get("prog") is not None and name != k["prog"] and not (isinstance(k["prog"], list) and name in k["prog"]):
            continue
        if k.get("config") is not None and k["config"] != v.get("config"):
            continue
        if k.get("kind") is not None and k["kind"] != v.get("kind"):
            continue
        return k
    return None


def main(prop, tier=None, only=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(f"checks.{prop}")
    tasks = mod.tasks(tier, seed)
    if only:
        tasks = [t for t in tasks if only in t.name]
    budget = 780 if tier == "quick" else 6 * 3600
    known = load_known(prop)
    stop = (lambda r: any(match_known(v, known) is None for v in r.get("violations", []))) if os.environ.get("VF_FAST") else None   # development aid
    res = run_tasks(tasks, jobs=int(os.environ.get("VF_JOBS", "8")), deadline=t0 + budget, stop=stop)
    viol, seen_known = [], {}
    for r in res:
        for v in r.get("violations", []):
            k = match_known(v, known)
            if k:
                seen_known[k["id"]] = k
            else:
                viol.append(v)
    # known findings are demonstrated by the check module itself (they must be seen to be reported)
    obl = [o for r in res for o in r.get("obl", [])]
    disc = [o for o in obl if o[1] == "valid"]
    undecided = [u for r in res for u in r.get("undecided", [])]
    bounded = [o for o in obl if o[3]]
    touched = sorted({f for r in res for f in r.get("touched", [])})
    backends = {}
    for o in disc:
        backends[o[2]] = backends.get(o[2], 0) + 1
    bounds = sorted({b for r in res for b in r.get("bounds", [])})
    samples = [dict(s, program=r["name"]) for r in res for s in r.get("samples", [])][:8]
    meta = getattr(mod, "META", {})
    cov = dict(
        obligations=len([o for o in obl if not o[3]]), discharged=len([o for o in disc if not o[3]]),
        counting="obligations and discharged count the unbounded obligations only; those about inputs of bounded shape are counted apart, as bounded",
        obligations_bounded=len(bounded), discharged_bounded=len([o for o in disc if o[3]]),
        discharged_by_backend=backends,
        checker_cmd=f"cd /verif && ./check {prop} {tier}",
        trusted_base=meta.get("trusted", []) + TRUSTED,
        programs=len(tasks),
        disagreements_checked=sum(r.get("replays", 0) for r in res),
        evaluations=len(obl) + sum(r.get("replays", 0) for r in res),
        distinct_nontrivial=len({o[0] for o in obl}),
        rule=meta.get("rule", "one obligation per (schematic program or function under contract, feasible path, compiler configuration); distinct by that triple; "
                              "paths are feasible by a solver check, so none is vacuous"),
        samples=samples or [o[0] for o in obl[:5]],
        paths=sum(r.get("paths", 0) for r in res),
        solver_queries=sum(r.get("queries", 0) for r in res),
        solver_s=round(sum(r.get("solver_s", 0) for r in res), 2),
        bounds=bounds,
        functions_under_contract=touched,
        undecided=[list(u) for u in undecided][:200],
        undecided_count=len(undecided),
        explanation=meta.get("explanation", ""),
        tasks_with_incomplete_exploration=[r["name"] for r in res if not r.get("complete", True)],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=meta.get("level", "translation_validation"), coverage=cov,
              assumptions=ASSUMPTIONS + meta.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    evid = os.environ.get("VF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evid, exist_ok=True)
    if not only:
        with open(os.path.join(evid, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for r in res:
        if r.get("error") and os.environ.get("VF_DEBUG"):
            print("ERROR in task", r["name"], r["error"][-int(os.environ.get("VF_ERRLEN", "300")):])
    if os.environ.get("VF_DEBUG"):
        for u in undecided:
            print("UNDECIDED", u)
        for r in sorted(res, key=lambda r: -r.get("wall", 0))[:int(os.environ.get("VF_SLOW", "8"))]:
            print("SLOW", r["name"], round(r.get("wall", 0), 1), "paths", r.get("paths"))
    print(f"{prop} {tier}: {len(tasks)} tasks, {len(disc)}/{len(obl)} obligations discharged "
          f"({len([o for o in disc if not o[3]])} unbounded, {len([o for o in disc if o[3]])} bounded), {len(undecided)} undecided, "
          f"{cov['disagreements_checked']} concrete cross-checks, {cov['functions_under_contract'] and len(touched)} functions of the compiler exercised, {ev['wall_s']}s")
    if viol:
        rd = os.path.join(evid, "replay")
        os.makedirs(rd, exist_ok=True)
        viol.sort(key=lambda v: not v.get("replayed"))
        for i, v in enumerate(viol[:int(os.environ.get("VF_MAXV", "20"))]):
            p = os.path.join(rd, f"{prop}-{i}.json")
            v["property"] = prop
            with open(p, "w") as f:
                json.dump(v, f, indent=1, default=str)
            tail = "" if v.get("replayed") else " no-failing-input-found"
            if i < int(os.environ.get("VF_MAXV", "12")):
                print(f"  obligation: {v.get('obligation')}  detail: {str(v.get('detail'))[:300]} {str(v.get('inputs'))[:200]}")
            print(f"VIOLATION property={prop} replay={p}{tail}")
        return 1
    if not obl or not disc:
        print("no obligation was generated and discharged: the check is vacuous")
        return 2
    if not only and tier == "quick":
        exp = getattr(mod, "MIN_DISCHARGED", 1)
        if len(disc) < exp and not undecided:
            print(f"only {len(disc)} obligations (expected at least {exp})")
            return 2
    return 0


TRUSTED = [
    "CPython 3.12 (executes the source side: control flow, scoping, dataclasses)",
    "vf/pysem.py: primitive operations of the source language on symbolic values (cross-checked against native CPython on concrete points of every run)",
    "vf/uplcsem.py: semantics of UPLC terms and builtins (cross-checked against the uplc package's machine on concrete points of every run)",
    "z3 and cvc5",
    "vf/abi.py: the documented type-to-data mapping",
]
ASSUMPTIONS = [
    "integers are mathematical on both sides (Python int and UPLC integer are both unbounded)",
    "script execution budget and memory limits are not modelled",
    "cryptographic hashes, signature checks, CBOR serialisation and (for texts of unknown length) UTF-8 are the same uninterpreted function on both sides",
]
