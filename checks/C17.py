"""C17 contract artifacts: schema conversion by induction over types, dump/load over all combinations of optional parts."""
import contextlib, io, itertools, json, os, random, sys, tempfile, time, typing
from .common import *
from vf import abi, prog as PG
from vf.bridgesym import exec_source
from vf.prog import Result, TOUCHED, _monitor_on

META = dict(level="other", technique="inductive contracts on the real schema conversion functions (components opaque), exhaustive bounded check of dump and load",
            explanation="to_plutus_schema and from_plutus_schema (opshin/builder.py, current text) are put under the contract `from_plutus_schema(to_plutus_schema(T)) has the shape of T`. The contract is proved by induction on T: for every type "
            "constructor the two functions run with the component types, constructor numbers and names opaque, recursive calls on components answered by the contract; this covers types of any depth with at most 4 union members or fields. "
            "Files and metadata: dump followed by load is run for every combination of present and absent datum, redeemer, parameters, license, description, version and purposes, from the directory and from each file (bounded: the values are samples). "
            "A contract is the loaded one if its script bytes are the same, hence also hash, policy id and addresses, which are compared as well.",
            assumptions=["the names of classes used as types of fields are not part of a shape (the blueprint stores the name of the field there)",
                         "types that a blueprint cannot express (bool, str, None, Union with an unconstrained member) are not covered"])


def shape(t, name=True):
    import pycardano
    from opshin.util import get_class_annotations
    if t == pycardano.Datum: return "any"
    if t in (int, bytes): return t.__name__
    o = getattr(t, "__origin__", None)
    if o is list: return ("list", shape(t.__args__[0]))
    if o is dict: return ("map", shape(t.__args__[0]), shape(t.__args__[1]))
    if o is typing.Union: return ("union",) + tuple(shape(a) for a in t.__args__)
    if isinstance(t, type) and issubclass(t, Opaque): return ("component", t)
    if isinstance(t, type) and issubclass(t, pycardano.PlutusData):
        return ("constr", t.CONSTR_ID, t.__name__ if name else None) + tuple((f, shape(a, False)) for f, a in get_class_annotations(t).items())
    return ("?", repr(t))


class Opaque:
    pass


class Id:
    """an arbitrary constructor number"""


def induction_task():
    def go():
        t0 = time.time()
        _monitor_on()
        res = Result("schema conversion, induction over types")
        import pycardano
        from dataclasses import make_dataclass
        ns = exec_source("opshin.builder")
        to, fro = ns["to_plutus_schema"], ns["from_plutus_schema"]
        toks = [type(f"Component{i}", (Opaque,), {}) for i in range(4)]

        def to_stub(cls, *a, **k):
            if cls in toks:
                return {"$component": toks.index(cls)}
            return to(cls, *a, **k)

        def fro_stub(s, *a, **k):
            if "$component" in s:
                return toks[s["$component"]]
            return fro(s, *a, **k)
        ns["to_plutus_schema"], ns["from_plutus_schema"] = to_stub, fro_stub
        # the class constructor accepts any number as CONSTR_ID; an opaque object stands for all of them
        ids = [Id() for _ in range(2)]

        def rec(name, cid, fs):
            c = type(name, (pycardano.PlutusData,), {"CONSTR_ID": cid, "__annotations__": dict(fs)})
            import dataclasses
            return dataclasses.dataclass(c)
        T = typing
        heads = {"int": int, "bytes": bytes, "unconstrained": pycardano.Datum, "list": T.List[toks[0]], "map": T.Dict[toks[0], toks[1]], "map of equals": T.Dict[toks[0], toks[0]]}
        for n in (2, 3, 4):
            heads[f"union of {n}"] = T.Union[tuple(toks[:n])]
        heads["union of 3, other order"] = T.Union[toks[2], toks[0], toks[1]]
        for n in range(5):
            heads[f"class with {n} fields"] = rec("Some", ids[0], [(f"f{i}", toks[i]) for i in range(n)])
        heads["class with fields in another order"] = rec("Other", ids[1], [("b", toks[1]), ("a", toks[0]), ("title", toks[0]), ("items", toks[2])])
        for nm, t in heads.items():
            ob = f"from_plutus_schema(to_plutus_schema(T)) for T = {nm}"
            try:
                s = to(t)
                r = fro(s)
                ok = shape(r) == shape(t)
                d = f"{shape(t)} became {shape(r)} through {s}"
                if ok and "class" in nm:
                    # below a field, the same class is rebuilt with the same fields
                    f = dict(s, title="field")
                    r = fro(f)
                    ok = shape(r, False) == shape(t, False)
                    d = f"as a field: {shape(t)} became {shape(r)}"
            except Exception as e:
                ok, d = False, f"{type(e).__name__}: {e}"
            res.obl.append((ob, "valid" if ok else "invalid", "induction step, components opaque", "union" in nm or "class" in nm))
            if not ok:
                # the concrete task below decides whether the real functions are wrong
                res.undecided.append((ob, d[:400]))
        res.bounds.append("at most 4 union members or fields (any depth)")
        res.wall = time.time() - t0
        res.touched = sorted(TOUCHED)
        return res
    return Task("schema conversion, induction over types", go)


CLS = '''from typing import Dict, List, Union
from dataclasses import dataclass
from pycardano import Datum as Anything, PlutusData
@dataclass()
class A(PlutusData):
    CONSTR_ID = 1
    x: int
    y: bytes
@dataclass()
class B(PlutusData):
    CONSTR_ID = 2
    l: List[int]
    u: Union[A, int]
    d: Dict[bytes, List[A]]
    z: Anything
@dataclass()
class C(PlutusData):
    CONSTR_ID = 300
    a: A
    title: bytes
@dataclass()
class E(PlutusData):
    CONSTR_ID = 0
@dataclass()
class F(PlutusData):
    CONSTR_ID = 7
    a: B
    b: Union[A, E, C]
    c: List[Union[E, C]]
    d: Dict[int, Dict[bytes, A]]
'''
TYPES = ["int", "bytes", "Anything", "A", "B", "C", "E", "F", "List[int]", "List[A]", "List[List[bytes]]", "List[Anything]", "Dict[bytes, int]", "Dict[bytes, Dict[bytes, int]]", "Dict[int, F]", "Dict[Anything, Anything]",
         "Union[A, E]", "Union[A, int]", "Union[A, bytes]", "Union[A, E, C]", "Union[C, A, int, bytes]", "Union[E, List[Anything], Dict[Anything, Anything], int]", "List[Union[A, E]]", "Dict[bytes, Union[A, F]]",
         "List[List[List[Dict[int, List[C]]]]]"]


def contracts():
    """scripts: of different lengths, and made in the ways the tool makes them"""
    from opshin import builder as Bu
    import uplc.ast as ua
    out = {}
    out["small"] = Bu._build(Bu._compile("def validator(x: int) -> int:\n    return x\n"))
    out["applied"] = Bu.apply_parameters(Bu._build(Bu._compile("def validator(p: int, x: int) -> int:\n    return p + x\n")), 5)
    for n in (1, 20, 50, 220, 300, 70000):
        for v in ((1, 0, 0), (1, 1, 0)):
            out[f"{n} bytes of constants, version {v[0]}.{v[1]}.{v[2]}"] = Bu._build(ua.Program(v, ua.Lambda("x", ua.BuiltinByteString(bytes(n)))))
    return out


def ns_of():
    return PG.native_ns(CLS)


def compare(c, l, meta):
    bad = []
    if bytes(l.contract) != bytes(c.contract): bad.append(f"script {bytes(c.contract).hex()[:60]}.. loaded as {bytes(l.contract).hex()[:60]}..")
    for n in ("script_hash", "policy_id", "cbor_hex"):
        if getattr(l, n) != getattr(c, n): bad.append(f"{n}: {getattr(c, n)} loaded as {getattr(l, n)}"[:200])
    for n in ("mainnet_addr", "testnet_addr"):
        if getattr(l, n).encode() != getattr(c, n).encode(): bad.append(f"{n}: {getattr(c, n)} loaded as {getattr(l, n)}")
    if not meta:
        return bad
    for n in ("title", "description", "version", "license"):
        if getattr(l, n) != getattr(c, n): bad.append(f"{n}: {getattr(c, n)!r} loaded as {getattr(l, n)!r}")
    if set(l.purpose) != set(c.purpose): bad.append(f"purpose: {list(c.purpose)} loaded as {list(l.purpose)}")
    for n in ("datum_type", "redeemer_type"):
        a, b = getattr(c, n), getattr(l, n)
        if (a is None) != (b is None): bad.append(f"{n}: {a} loaded as {b}")
        elif a is not None and (a[0] != b[0] or shape(a[1]) != shape(b[1])): bad.append(f"{n}: {a[0]}: {shape(a[1])} loaded as {b[0]}: {shape(b[1])}")
    a, b = [(n, shape(t)) for n, t in c.parameter_types], [(n, shape(t)) for n, t in l.parameter_types]
    if a != b: bad.append(f"parameters: {a} loaded as {b}")
    return bad


def run_one(res, td, nm, c, paths=("", "blueprint.json", "script.plutus", "script.cbor")):
    from opshin import builder as Bu
    d = os.path.join(td, "d" + str(len(res.obl)))
    probs = {}
    try:
        c.dump(d)
    except Exception as e:
        probs["dump"] = f"{type(e).__name__}: {e}"
        paths = ()
    for p in paths:
        ob = "load of " + (p or "the directory")
        try:
            l = Bu.load(os.path.join(d, p))
            bad = compare(c, l, p in ("", "blueprint.json"))
        except Exception as e:
            bad = [f"{type(e).__name__}: {str(e)[:200]}"]
        probs[ob] = "; ".join(bad)
    if os.path.exists(os.path.join(d, "script.policy_id")):
        want = {"script.policy_id": c.policy_id, "script.cbor": bytes(c.contract).hex(), "mainnet.addr": c.mainnet_addr.encode(), "testnet.addr": c.testnet_addr.encode()}
        for f, w in want.items():
            got = open(os.path.join(d, f)).read()
            probs[f"content of {f}"] = "" if got == w else f"{got[:80]} instead of {w[:80]}"
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    for ob, b in probs.items():
        res.obl.append((f"{res.name}: {nm}: {ob}", "invalid" if b else "valid", "run", True))
        res.replays += 1
        if b and not any(v["obligation"].endswith(ob) for v in res.violations):
            res.violations.append(dict(obligation=f"{res.name}: {nm}: {ob}", kind="contract", prog=res.name, config=None, inputs=None, replayed=True, detail=b[:800]))
    if len(res.samples) < 2:
        res.samples.append({"inputs": nm, "outcome": str(probs)[:200]})


def meta_task(k, tier, seed):
    """one slice of the combinations of optional parts"""
    def go():
        t0 = time.time()
        _monitor_on()
        from opshin import builder as Bu
        res = Result(f"dump and load, optional parts, slice {k}")
        rng = random.Random(f"{seed} {k}")
        ns = ns_of()
        ty = lambda s: eval(s, ns)
        small = contracts()["small"]
        P = Bu.Purpose
        purposes = [[p] for p in P] + [[P.spending, P.minting], [P.minting, P.spending], [P.rewarding, P.certifying, P.voting], [P.proposing, P.spending], (P.any,)]
        combos = list(itertools.product([0, 1], [0, 1], [0, 1, 2], [None, "MIT", ""], ["d", None, 'a "quoted" \u00e9\n', ""], ["1.0.0", None, "0.1.2-x"], range(len(purposes))))
        with tempfile.TemporaryDirectory(prefix="vfc17") as td:
            for i, (dt, rt, np, lic, desc, ver, pi) in enumerate(combos):
                if i % 8 != k:
                    continue
                if tier == "quick" and (i // 8) % 2 and not (lic == "MIT" and desc == "d" and ver == "1.0.0"):
                    continue
                pick = lambda: rng.choice(TYPES)
                a, b, ps = pick(), pick(), [pick() for _ in range(np)]
                title = rng.choice(["validator", "my contract", "x\u00fc"])
                c = Bu.PlutusContract(small, datum_type=("dat", ty(a)) if dt else None, redeemer_type=("red", ty(b)) if rt else None, parameter_types=[(f"p{j}", ty(t)) for j, t in enumerate(ps)],
                                      purpose=purposes[pi], version=ver, title=title, description=desc, license=lic)
                nm = f"datum {a if dt else None}, redeemer {b if rt else None}, parameters {ps}, license {lic!r}, description {desc!r}, version {ver!r}, title {title!r}, purposes {[p.value for p in purposes[pi]]}"
                run_one(res, td, nm, c, ("", "blueprint.json"))
                if i % 5 == 0:
                    # applying parameters keeps everything else
                    n = rng.randint(0, np)
                    c2 = c.apply_parameter(*([0] * n)) if n else c
                    c2b = Bu.PlutusContract(c2.contract, c.datum_type, c.redeemer_type, c.parameter_types[n:], c.purpose, c.version, c.title, c.description, c.license)
                    bad = compare(c2b, c2, True)
                    res.obl.append((f"{res.name}: {nm}: apply_parameter keeps the metadata", "invalid" if bad else "valid", "run", True))
                    if bad:
                        res.violations.append(dict(obligation=f"{res.name}: {nm}: apply_parameter keeps the metadata", kind="contract", prog=res.name, config=None, inputs=None, replayed=True, detail="; ".join(bad)[:800]))
        res.wall = time.time() - t0
        res.bounds.append("bounded: sample values for names, descriptions and types; the presence and absence of the optional parts is enumerated")
        res.touched = sorted(TOUCHED)
        return res
    return Task(f"dump and load, optional parts, slice {k}", go, timeout=300)


def types_task(tier, seed):
    def go():
        t0 = time.time()
        _monitor_on()
        from opshin import builder as Bu
        res = Result("dump and load, types and scripts")
        ns = ns_of()
        with tempfile.TemporaryDirectory(prefix="vfc17") as td:
            cs = contracts()
            for s in TYPES:
                t = eval(s, ns)
                run_one(res, td, f"type {s}", Bu.PlutusContract(cs["small"], datum_type=("d", t), redeemer_type=("r", t), parameter_types=[("p", t), ("q", int)]), ("", "blueprint.json"))
            # several classes of one name, in one contract and in one process
            import pycardano
            from dataclasses import make_dataclass
            mk = lambda i, fs, n="Same": make_dataclass(n, [(f, t) for f, t in fs], bases=(pycardano.PlutusData,), namespace={"CONSTR_ID": i})
            same = [mk(0, [("x", int)]), mk(0, [("x", bytes)]), mk(0, [("y", int)]), mk(0, []), mk(0, [("x", int), ("y", int)]), mk(0, [("y", int), ("x", int)]), mk(1, [("x", int)]), mk(0, [("x", typing.List[int])]),
                    mk(0, [("x", typing.Dict[int, bytes])]), mk(0, [("x", mk(0, [("x", int)]))]), mk(0, [("x", typing.Union[mk(0, [("a", int)]), mk(1, [("b", bytes)])])]), mk(0, [("x", typing.Union[mk(0, [("a", bytes)]), mk(1, [("a", int)])])])]
            for i, t in enumerate(same):
                for j, u in enumerate(same):
                    run_one(res, td, f"classes of one name, shapes {i} and {j}", Bu.PlutusContract(cs["small"], datum_type=("d", t), redeemer_type=("r", typing.List[u]), parameter_types=[("p", u), ("q", t)]), ("blueprint.json",))
            from opshin import prelude, ledger
            import pycardano, importlib
            seen = set()
            for m in ("opshin.ledger.api_v3", "opshin.prelude"):
                mod = importlib.import_module(m)
                for n, t in vars(mod).items():
                    if n in seen or n.startswith("_") or not (isinstance(t, type) and issubclass(t, pycardano.PlutusData) and t is not pycardano.PlutusData or getattr(t, "__origin__", None) is typing.Union and t != pycardano.Datum and expressible(t)):
                        continue
                    if isinstance(t, type) and (t.__module__.split(".")[0] != "opshin" or not expressible(t)):
                        continue
                    seen.add(n)
                    run_one(res, td, f"ledger type {n}", Bu.PlutusContract(cs["small"], datum_type=("d", t), redeemer_type=("r", t)), ("blueprint.json",))
            for n, c in cs.items():
                run_one(res, td, f"script {n}", Bu.PlutusContract(c, title=n, license="MIT"))
                with_uplc(res, td, n, c)
        res.wall = time.time() - t0
        res.bounds.append("bounded: an enumerated set of types and scripts")
        res.touched = sorted(TOUCHED)
        return res
    return Task("dump and load, types and scripts", go, timeout=300, weight=2)


def expressible(t, seen=()):
    import pycardano
    from opshin.util import get_class_annotations
    if t in seen: return True
    if t == pycardano.Datum or t in (int, bytes): return True
    o = getattr(t, "__origin__", None)
    if o in (list, dict, typing.Union):
        return all(expressible(a, seen) for a in t.__args__) and not (o is typing.Union and pycardano.PlutusData in t.__args__)
    if isinstance(t, type) and issubclass(t, pycardano.PlutusData) and t is not pycardano.PlutusData:
        try:
            return all(not isinstance(a, str) and expressible(a, seen + (t,)) for a in get_class_annotations(t).values())
        except Exception:
            return False
    return False


def with_uplc(res, td, n, c):
    """other raw forms of the same script: hexadecimal of the singly and doubly wrapped script"""
    import cbor2
    from opshin import builder as Bu
    for form, text in (("singly wrapped", bytes(c).hex()), ("doubly wrapped", cbor2.dumps(bytes(c)).hex())):
        f = os.path.join(td, "raw.cbor")
        open(f, "w").write(text)
        try:
            l = Bu.load(f)
            b = "" if bytes(l.contract) == bytes(c) else f"loaded as {bytes(l.contract).hex()[:60]}"
        except Exception as e:
            b = f"{type(e).__name__}: {e}"
        res.obl.append((f"{res.name}: script {n}: raw file, {form}", "invalid" if b else "valid", "run", True))
        if b:
            res.violations.append(dict(obligation=f"{res.name}: script {n}: raw file, {form}", kind="contract", prog=res.name, config=None, inputs=None, replayed=True, detail=b))


def tasks(tier, seed):
    return [induction_task(), types_task(tier, seed)] + [meta_task(k, tier, seed) for k in range(8)]


def progs(tier):
    return []
