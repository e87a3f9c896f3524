"""C20 determinism: frame and order-independence contracts of the compiler, program by program."""
import glob, importlib, json, os, random, subprocess, sys, time
from .common import *
from vf.prog import Result, TOUCHED, _monitor_on, REPO
from vf.bridgesym import exec_source

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

META = dict(level="other", technique="frame and order-independence contracts: inductive contract of the shared pattern cache, frame condition of compile checked per program, iteration order of sets taken as demonic choice (bounded), runs with different hash seeds and histories (bounded)",
            explanation="Contract of compile: the emitted bytes are a function of (source, settings) and compile leaves all mutable state reachable from the compiler's modules as it was (frame), apart from caches. By induction over histories the frame makes "
            "the result independent of what was compiled before, for the programs and settings listed. Frame: a structural digest of every mutable object reachable from the modules of opshin, taken right after the compilation of a fixed program, before and after each compilation under test; the only cache that may grow is that of make_pattern, whose invariant is checked for every new entry. "
            "Caches: make_pattern (opshin/util.py, current text) is put under the invariant `cache[k] composes to a term that prints as k`, for an arbitrary structure and an arbitrary earlier content of the cache; memoised whole scripts are compared with uncached compilation, also after parameters were applied. "
            "Iteration order: the compiler's modules are loaded with every set replaced by one whose iteration order over seed- or address-dependent elements is an arbitrary permutation, and the bytes must not change (bounded: sampled permutations). "
            "In addition separate processes with different hash seeds compile the programs in different orders, in between rejected programs and programs that reuse the same names for different things, and all bytes are compared. Bounded: the enumerated programs, seeds and orders; a frame condition that fails without a difference of bytes is reported as undecided.",
            assumptions=["functools.lru_cache returns the value computed for an equal key", "state hidden in C extensions (ast, cbor2, frozenlist) is not part of the frame digest",
                         "memo tables inside pluthon and uplc do not change results (their effect is covered by the comparison of histories only)"])

VARS = "abcdefghkmnpqrstuvwxyz"


def hand():
    out = []
    names = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "lam", "mu", "nu"]
    asg = "\n".join(f"{n} = {i}" for i, n in enumerate(names))
    tot = " + ".join(names)
    out.append(("many variables, loop", fn("a: int, b: List[int]", "int", asg + "\nwhile alpha < a:\n    " + "\n    ".join(f"{n} = {n} + {m}" for n, m in zip(names, names[1:])) + "\nfor q in b:\n    " + "\n    ".join(f"{n} = {m} + q" for n, m in zip(names, names[2:])) + f"\nreturn {tot}", "from typing import List, Dict\n")))
    out.append(("many variables, branches", fn("a: int, b: int", "int", "if a < b:\n" + ind(asg) + "\nelif a == b:\n" + ind(asg.replace("= 1", "= 7")) + "\nelse:\n" + ind("\n".join(f"{n} = a" for n in reversed(names))) + f"\nreturn {tot}")))
    out.append(("mutual recursion", fn("a: int", "int", asg + "\n" + "\n".join(
        f"def f{i}(x: int) -> int:\n    return {names[i]} if x <= 0 else f{(i + 1) % 6}(x - 1) + {names[(i * 5) % 13]} + g{i}(x)\ndef g{i}(y: int) -> int:\n    return y + {names[(i * 3) % 13]}" for i in range(6)) + "\nreturn f0(a) + f3(a)")))
    out.append(("module level functions", "\n".join(f"{n} = {i}" for i, n in enumerate(names)) + "\n" + "\n".join(
        f"def h{i}(x: int) -> int:\n    return {names[i]} * x" + (f" + h{i - 1}(x)" if i else "") for i in range(8)) + "\n" + fn("a: int", "int", "return h7(a) + h3(a)")))
    hdr = "from dataclasses import dataclass\nfrom typing import Dict, List, Union\nfrom pycardano import Datum as Anything, PlutusData\n"
    cls = hdr + "\n".join(f"@dataclass()\nclass {n.title()}(PlutusData):\n    CONSTR_ID = {i}\n" + "\n".join(f"    {m}: {t}" for m, t in list(zip(names, ["int", "bytes", "List[int]"] * 3))[:i + 1]) for i, n in enumerate(names[:5])) + "\n"
    U = "Union[" + ", ".join(n.title() for n in names[:5]) + ", int, bytes]"
    out.append(("union dispatch", cls + fn(f"a: {U}", "int", "\n".join(f"{'if' if i == 0 else 'elif'} isinstance(a, {n.title()}):\n    r = a.alpha + {i}" for i, n in enumerate(names[:5])) + "\nelif isinstance(a, int):\n    r = a\nelse:\n    r = len(a)\nreturn r")))
    out.append(("union functions", cls + f"def k(x: {U}) -> int:\n    return 3 if isinstance(x, int) else (4 if isinstance(x, bytes) else 5)\ndef l(x: Union[int, bytes], y: Union[Alpha, Beta, bytes]) -> int:\n    return k(x) + (1 if isinstance(y, bytes) else y.alpha)\n" + fn("a: int, b: bytes", "int", "return k(a) + k(b) + k(Alpha(a)) + l(a, b) + l(b, Beta(a, b)) + l(a, Alpha(a))")))
    # the same names for different things
    for i, (t, body, h) in enumerate([("int", "return helper(a) + len(lst)", "def helper(x: int) -> int:\n    return x + 1\nlst = [1, 2]\n"), ("bytes", "return len(helper(a)) + len(lst)", "def helper(x: bytes) -> bytes:\n    return x + b'1'\nlst = [b'1']\n"),
                                      ("int", "return helper(a) - lst", "def helper(x: int) -> int:\n    return x * 2\nlst = 4\n"), ("int", "return helper(a)", "def helper(x: int) -> int:\n    return 0 if x <= 0 else helper(x - 1)\n"),
                                      ("int", "return helper(A(a, 1)).y", "from dataclasses import dataclass\nfrom pycardano import PlutusData\n@dataclass()\nclass A(PlutusData):\n    x: int\n    y: int\ndef helper(x: A) -> A:\n    return x\n"),
                                      ("int", "return helper(A(1, a)).y", "from dataclasses import dataclass\nfrom pycardano import PlutusData\n@dataclass()\nclass A(PlutusData):\n    y: int\n    x: int\ndef helper(x: A) -> A:\n    return x\n"),
                                      ("int", "return helper(A(a)).y + A(2).y", "from dataclasses import dataclass\nfrom pycardano import PlutusData\n@dataclass()\nclass A(PlutusData):\n    CONSTR_ID = 7\n    y: int\ndef helper(x: A) -> A:\n    return x\n")]):
        out.append((f"same names {i}", h + fn(f"a: {t}", "int", body)))
    for i, (e, r) in enumerate([("[1, 2, 3]", "x[a]"), ("[b'1', b'2']", "len(x[a])"), ("{1: 2, 3: 4}", "x[a]"), ("{b'x': 2, b'y': 4}", "x[b'x'] + a"), ("'abc'", "len(x.encode()) + a"), ("[[1], [2]]", "x[a][0]")]):
        out.append((f"constants {i}", fn("a: int", "int", f"x = {e}\nreturn {r}")))
        out.append((f"constants at module level {i}", f"x = {e}\n" + fn("a: int", "int", f"return {r}")))
    out.append(("texts and builtins", "from opshin.std.builtins import *\nfrom opshin.std.hashlib import sha256, sha3_256, blake2b\n" + fn("a: int, b: bytes", "str", "c = sha256(b).digest() + sha3_256(b).digest() + blake2b(b).digest()\nx = [str(i) for i in range(a) if i > 2]\nreturn f'{a} {b} {c} {x}' + str(all([a > i for i in range(a)])) + hex(a) + ','.join(x) if False else f'{a} {b} {c} {x}' + hex(a)")))
    out.append(("operators and dunders", hdr + "@dataclass()\nclass V(PlutusData):\n    CONSTR_ID = 1\n    x: int\n    y: int\n    def __add__(self, o: 'V') -> 'V':\n        return V(self.x + o.x, self.y + o.y)\n    def __eq__(self, o: 'V') -> bool:\n        return self.x == o.x\n    def norm(self) -> int:\n        return self.x ** 2 + self.y ** 2\n" + fn("a: V, b: V", "int", "return (a + b).norm() if a == b else a.norm() // b.norm()")))
    out.append(("dictionaries", fn("a: Dict[int, bytes]", "int", "s = 0\nfor k, v in a.items():\n    s += k + len(v)\nfor k2 in a.keys():\n    s += k2\nfor v2 in a.values():\n    s += len(v2)\nreturn s + len(a.get(1, b''))", "from typing import Dict, List\n")))
    # rejected at different stages
    for i, s in enumerate(["def validator(a: int) -> int:\n    return a + b''", "def validator(a: int) -> int:\n    return", "def validator(a: int -> int", "import foo\n" + fn("a: int", "int", "return a"), fn("a: int", "int", "x = undefined_thing\nreturn a"),
                           "def helper(x: int) -> bytes:\n    return x\nlst = 3\n" + fn("a: int", "int", "return helper(a)")]):
        out.append((f"rejected {i}", s))
    return out


def corpus(tier, seed):
    out = [(n, s, c) for n, s in hand() for c in ("O0", "O3eu" if "union" in n else "O3")]
    rng = random.Random(seed)
    fam = []
    for k in list(range(1, 16)) + [18, 19]:
        try:
            ps = importlib.import_module(f"checks.C{k:02d}").progs("quick")
        except Exception:
            continue
        take = 3 if tier == "quick" else 40
        for p in rng.sample(ps, min(take, len(ps))):
            fam.append((f"C{k:02d} {p.name}", p.src, rng.choice(["O2", "O3", "DEF"] if k in (12, 13, 14) else ["O0", "O1", "O2", "O3", "DEF", "O2eu", "O0cf", "O2fa3"])))
    for f in sorted(glob.glob(REPO + "/examples/smart_contracts/*.py")):
        s = open(f).read()
        if "def validator" in s and (tier != "quick" or os.path.basename(f) in ("gift.py", "assert_sum.py")):
            fam.append((os.path.basename(f), s, "O2"))
    rng.shuffle(fam)
    return out + fam


def work(ops, hashseed, demonic=None, frame=False, warm=1, timeout=240):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, "-m", "vf.detworker"], input=json.dumps(dict(ops=ops, demonic=demonic, frame=frame, warm=warm, probe=WARM[1][1])), capture_output=True, text=True, cwd=VERIF, env=env, timeout=timeout)
    if p.returncode or not p.stdout:
        raise RuntimeError("worker: " + p.stderr[-400:])
    return json.loads(p.stdout)


WARM = [("w", fn("a: int", "int", "x = [a, 2]\nreturn x[0] + len(b'12')"), "O3"), ("w", fn("a: bytes", "str", "return f'{a}'"), "O0")]


def group_task(gi, items, tier, seed):
    def go():
        t0 = time.time()
        res = Result(f"group {gi}")
        rng = random.Random(f"{seed} {gi}")
        nat, dem = (3, 2) if tier == "quick" else (12, 12)
        seen = {}           # (src, cfg) -> {digest: [(hashseed, demonic, ops before)]}
        warm = [[s, c, "direct"] for _, s, c in WARM]
        for k in range(nat + dem):
            order = list(items)
            if k:
                rng.shuffle(order)
            d = None if k < nat else rng.randrange(1 << 30)
            hs = rng.randrange(1 << 20) if k else 0
            modes = ["direct"] if k != 1 else ["cached", "params", "direct"]
            ops = [[s, c, m] for m in modes for _, s, c in order]
            w = warm if k == 0 else []
            r = work(w + ops, hs, d, frame=k == 0, warm=len(w))
            if not r["repo"].startswith(os.path.realpath(REPO)):
                raise RuntimeError(f"compiled with {r['repo']}")
            out = r["res"][len(w):]
            for j, (op, o) in enumerate(zip(ops, out)):
                seen.setdefault((op[0], op[1]), {}).setdefault(tuple(o), []).append((hs, d, ops[:j], op[2]))
            for op, ch in zip(ops, r["frames"]):
                n = next(n for n, s, c in items if s == op[0])
                res.obl.append((f"{res.name}: {n} [{op[1]}]: compile leaves the state of the compiler as it was", "unknown" if ch else "valid", "digest", True))
                if ch:
                    res.undecided.append((f"{n} [{op[1]}]: frame", "changed: " + ", ".join(ch)[:200]))
            res.replays += len(ops)
        for n, s, c in items:
            g = seen[(s, c)]
            ok = len(g) == 1
            runs = sum(len(x) for x in g.values())
            res.obl.append((f"{res.name}: {n} [{c}]: the same bytes in {runs} runs", "valid" if ok else "invalid", "run", True))
            if not ok:
                res.violations.append(diagnose(n, s, c, g))
            elif len(res.samples) < 2:
                res.samples.append(dict(source=s[-300:], config=c, outcome=list(list(g)[0]), runs=runs))
        res.bounds.append(f"bounded: enumerated programs, {nat} hash seeds and orders of compilation, {dem} runs with permuted sets")
        res.wall = time.time() - t0
        res.touched = sorted(TOUCHED)
        return res
    return Task(f"group {gi}", go, timeout=400 if tier == "quick" else 3000, weight=3)


def diagnose(n, s, c, g):
    """find the cause: hash seed alone, order of sets, or the history"""
    v = dict(obligation=f"{n} [{c}]: the emitted bytes depend on more than source and settings", kind="determinism", prog=n, config=c, program=s, inputs=None, replayed=False,
             detail=f"{len(g)} different outcomes: " + ", ".join(f"{k[0]} {str(k[1])[:12]} {k[2]} bytes" for k in g))
    base = {}
    for hs in range(24):
        o = tuple(work([[s, c, "direct"]], hs)["res"][0])
        base.setdefault(o, hs)
        if len(base) > 1:
            v.update(replayed=True, runs=[dict(hashseed=h, ops=[[s, c, "direct"]]) for h in base.values()], detail=v["detail"] + f"; compiled alone, hash seeds {sorted(base.values())} give different bytes")
            return v
    alone = next(iter(base))
    for o, runs in g.items():
        for hs, d, before, mode in runs:
            if o == alone or d is not None:
                continue
            cands = [[x] for x in reversed(before)] + [before]
            for h in cands[:40] + cands[-1:]:
                if tuple(work(h + [[s, c, mode]], hs)["res"][-1]) != alone:
                    v.update(replayed=True, runs=[dict(hashseed=hs, ops=[[s, c, "direct"]]), dict(hashseed=hs, ops=h + [[s, c, mode]])],
                             detail=v["detail"] + f"; {mode} compilation after {len(h)} other compilation(s) differs from compiling it alone" + (f"; compiled before: {h[0][0][:200]}" if len(h) == 1 else ""))
                    return v
            if tuple(work(before + [[s, c, mode]], hs)["res"][-1]) == alone:
                continue
    v["detail"] += "; the difference needs a particular iteration order of sets that no tried hash seed produced"
    return v


def pattern_task():
    """make_pattern(S) composes to S whatever was put in the cache before (each entry k composing to a term that prints as k)"""
    def go():
        t0 = time.time()
        _monitor_on()
        res = Result("make_pattern, cache invariant")
        import opshin.util, pluthon as plt

        class Structure(plt.AST):
            """an arbitrary term, known by what it prints as"""
            def __init__(self, text): self.text = text
            def dumps(self, *a, **k): return self.text
            def compile(self, *a, **k): raise RuntimeError("the structure is opaque")
            def __eq__(self, o): return isinstance(o, Structure) and o.text == self.text
            __hash__ = None

        def fresh():
            return exec_source("opshin.util")
        for n, hist in (("empty cache", []), ("entry for the same structure", ["S"]), ("entries for other structures", ["T", "U", ""]), ("both", ["T", "S", "U"]), ("used twice before", ["S", "S"])):
            ns = fresh()
            old = []
            for h in hist:
                old.append((h, ns["make_pattern"](Structure(h))))
            st = Structure("S")
            p = ns["make_pattern"](st)
            q = ns["make_pattern"](st)

            def ob(what, good, detail=""):
                res.obl.append((f"{res.name}, {n}: {what}", "valid" if good else "invalid", "run", False))
                if not good:
                    res.violations.append(dict(obligation=f"{res.name}, {n}: {what}", kind="contract", prog=res.name, config=None, inputs=None, replayed=True, detail=detail or what))
            ob("the pattern composes to the structure", p.compose() == st)
            ob("a second use composes to the structure", q.compose() == st)
            ob("the structure itself is not shared with the pattern", p.compose() is not st and p.compose() is not p.compose())
            ob("the structure is left as it was", st.text == "S" and set(vars(st)) == {"text"})
            ob("earlier patterns are left as they were", all(o.compose() == Structure(h) for h, o in old))
            p.compose().text = "changed"
            ob("changing a composed term does not change the pattern", p.compose() == st and ns["make_pattern"](Structure("S")).compose() == st)
            ob("equal structures share one pattern class, different ones do not", type(p) is type(q) and all((type(o) is type(p)) == (h == "S") for h, o in old))
        res.wall = time.time() - t0
        res.touched = sorted(TOUCHED)
        return res
    return Task("make_pattern, cache invariant", go, timeout=120)


def tasks(tier, seed):
    c = corpus(tier, seed)
    size = 9
    hs = [x for x in c]
    # programs that share names stay in one group, so that each is compiled after the others
    first = [x for x in hs if x[0].startswith(("same names", "rejected"))]
    rest = [x for x in hs if x not in first]
    groups = [first] + [rest[i:i + size] for i in range(0, len(rest), size)]
    rej = [x for x in first if x[0].startswith("rejected")]
    return [pattern_task()] + [group_task(i, g + ([rej[i % len(rej)]] if i else []), tier, seed) for i, g in enumerate(groups)]


def progs(tier):
    return []
