"""C16 script parameters: decoding functions and parameter application under contract."""
import io, contextlib, json, os, sys, tempfile, itertools
from .common import *
from vf import abi, kernel as K, uplcsem as U, pysem as PY, host as HO, prog as PG
from vf.host import *
from vf.kernel import EngineError, Fail

META = dict(level="translation_validation", technique="contracts on the real decoding and application functions, discharged by symbolic execution and z3; bounded replay on the real packages",
            explanation="opshin/__main__.py's plutus_data_from_json / plutus_data_from_cbor and util.data_from_json are executed, from their current text, on data whose integers and byte strings are symbolic and of any size, for every declared type "
            "of a grid against every shape of data: the result is proved to be a value of the declared type that stands for exactly the given data, or the data is proved not to match and is rejected. "
            "Application: the scripts produced by _compile(args), apply_parameters, PlutusContract.apply_parameter in every split and order of stages are executed on symbolic parameters and arguments and proved to return what the Python function returns. "
            "parse_plutus_param / parse_uplc_param and the command line are run on concrete data only (bounded).",
            assumptions=["the CBOR codec, the flat codec and pycardano's class decoder are replaced by their contracts in the symbolic runs (inverse of one another; a class decodes data with its constructor and field types); the concrete runs use the real ones",
                         "data with more constructor fields than the class declares is not covered (accepted, as on chain)",
                         "parameters annotated with types that have no data decoder in the command line (bool, str, None) are not covered"])

CLS = '''from typing import Dict, List, Union
from dataclasses import dataclass
from pycardano import Datum as Anything, PlutusData
@dataclass()
class A(PlutusData):
    CONSTR_ID = 1
    x: int
    y: bytes
@dataclass()
class B(PlutusData):
    CONSTR_ID = 2
    l: List[int]
    u: Union[A, int]
    d: Dict[bytes, int]
@dataclass()
class C(PlutusData):
    CONSTR_ID = 300
    a: A
@dataclass()
class E(PlutusData):
    CONSTR_ID = 0
@dataclass()
class F(PlutusData):
    CONSTR_ID = 1
    x: int
'''
TYPES = ["int", "bytes", "Anything", "A", "B", "C", "E", "F", "List[int]", "List[bytes]", "List[A]", "List[List[int]]", "List[Anything]", "Dict[int, bytes]", "Dict[bytes, int]", "Dict[bytes, Dict[bytes, int]]",
         "Dict[bytes, A]", "Dict[A, int]", "List[Union[A, int]]", "Dict[int, List[A]]",
         "Union[int, bytes]", "Union[A, E]", "Union[A, int]", "Union[bytes, C, A]", "Union[List[Anything], int]", "Union[A, List[Anything], Dict[Anything, Anything], bytes]", "Union[E, B, C]", "List[Dict[bytes, Union[A, E]]]"]
DATA = ["int", "bytes", "A", "B", "C", "E", "F", "List[int]", "List[bytes]", "List[A]", "List[List[int]]", "Dict[int, bytes]", "Dict[bytes, int]", "Dict[bytes, Dict[bytes, int]]", "Dict[bytes, A]", "Dict[A, int]",
        "List[Union[A, int, bytes]]", "Dict[int, List[A]]", "List[Dict[bytes, Union[A, E]]]", "A1", "A0", "B2", "Cx"]


def ns_of():
    ns = PG.native_ns(CLS)
    return ns


def ty(s, ns):
    return abi.ann_to_type(eval(s, ns), ns)


ODD = {  # data that looks like a class but is not
    "A1": (1, ["bytes", "bytes"]), "A0": (1, ["int"]), "B2": (2, [("List", "bytes"), "int", ("Dict", "bytes", "int")]), "Cx": (300, ["int"]),
}


def gen(G, D, ns, name="d"):
    if D in ODD:
        c, fs = ODD[D]
        return DC(c, BL(tuple(G.gen(t, f"{name}{i}")[1] for i, t in enumerate(fs))))
    return G.gen(ty(D, ns), name)[1]


def rnd(D, ns, rng):
    if D in ODD:
        c, fs = ODD[D]
        from frozenlist2 import frozenlist
        return PG.ua.PlutusConstr(c, frozenlist([rand_data(t, rng) for t in fs]))
    return rand_data(ty(D, ns), rng)


def real_cbor(d):
    """the encoding as written by hand from the specification of the ledger (not by the packages under use)"""
    return PG.ua.plutus_cbor_dumps(d)


def real_json(d):
    ua = PG.ua
    if isinstance(d, ua.PlutusInteger): return {"int": d.value}
    if isinstance(d, ua.PlutusByteString): return {"bytes": d.value.hex()}
    if isinstance(d, ua.PlutusList): return {"list": [real_json(x) for x in d.value]}
    if isinstance(d, ua.PlutusMap): return {"map": [{"k": real_json(k), "v": real_json(v)} for k, v in d.value.items()]}
    return {"constructor": d.constructor, "fields": [real_json(x) for x in d.fields]}


def judge(f, d, T, show):
    """does the outcome of decoding fit the contract?"""
    try:
        r = f()
    except Exception as e:
        return (not deep_match(d, T), f"{show}: rejected with {type(e).__name__}: {str(e)[:80]}")
    if not deep_match(d, T):
        return (False, f"{show}: decoded to {r!r}, but the data is not of that type")
    if not has_type(r, T):
        return (False, f"{show}: decoded to {r!r}, which is not of that type")
    try:
        back = abi.py_to_uplc(r)
    except Exception as e:
        return (False, f"{show}: decoded to {r!r}, which is not data ({e})")
    return (abi.uplc_eq(back, d), f"{show}: decoded to {r!r}")


def unrepresentable(d, T):
    """class values are not hashable, so they cannot be keys of a Python dict; maps and lists cannot be keys either"""
    ua = PG.ua
    if isinstance(d, ua.PlutusMap):
        return any(not isinstance(k, (ua.PlutusInteger, ua.PlutusByteString)) for k in d.value) or any(unrepresentable(v, T) for v in d.value.values())
    if isinstance(d, DM):
        return any(not isinstance(p.a, (DI, DB)) for p in items(d.v)) or any(unrepresentable(p.b, T) for p in items(d.v))
    if isinstance(d, (DL, ua.PlutusList)):
        return any(unrepresentable(x, T) for x in elems(d))
    if isinstance(d, (DC, ua.PlutusConstr)):
        return any(unrepresentable(x, T) for x in fields(d))
    return False


def concrete_decode(S, ds):
    import opshin.__main__ as M
    ns = ns_of()
    T, ann, d = ty(S, ns), eval(S, ns), ds[0]
    if surplus(d, T) or unrepresentable(d, T):
        return []
    out = []
    j, c = real_json(d), real_cbor(d)
    with contextlib.redirect_stdout(io.StringIO()):
        for ob, f in (("JSON", lambda: M.plutus_data_from_json(ann, json.loads(json.dumps(j)))), ("CBOR", lambda: M.plutus_data_from_cbor(ann, c)),
                      ("parameter in JSON", lambda: M.parse_plutus_param(ann, json.dumps(j))), ("parameter in CBOR", lambda: M.parse_plutus_param(ann, c.hex()))):
            ok, desc = judge(f, d, T, f"{ob} as {S}")
            out.append((ok, ob, {"outcome": desc, "data": str(j)[:300]}))
        for ob, p in (("applied value from JSON", json.dumps(j)), ("applied value from CBOR", c.hex())):
            try:
                r = M.parse_uplc_param(p)
                out.append((abi.uplc_eq(r, d), ob, {"outcome": str(r)[:300], "data": str(j)[:300]}))
            except Exception as e:
                out.append((False, ob, {"outcome": f"{type(e).__name__}: {e}"[:300], "data": str(j)[:300]}))
        try:
            from opshin.util import data_from_json
            r = data_from_json(j)
            out.append((abi.uplc_eq(r, d), "data_from_json", {"outcome": str(r)[:300], "data": str(j)[:300]}))
        except Exception as e:
            out.append((False, "data_from_json", {"outcome": f"{type(e).__name__}: {e}"[:300], "data": str(j)[:300]}))
    return out


def decode_task(S, tier, seed):
    def go():
        import opshin.__main__
        sys.setrecursionlimit(20000)
        ns = ns_of()
        T, ann = ty(S, ns), eval(S, ns)
        M = main_ns()
        Ut = exec_source("opshin.util")
        Ut.update(uplc=AstProxy(), int=HInt, bytes=HBytes)
        for c in "ABCEF":
            hook_class(ns[c])
        G = abi.Gen(bytes_len="seq", list_len=2, dict_len=2, inner=1)
        two = tier != "quick"

        def body():
            D = DATA[K.choose(len(DATA))]
            d = gen(G, D, ns)
            if surplus(d, T) or unrepresentable(d, T):
                return []
            ok = deep_match(d, T)
            out = []
            for ob, f in (("JSON", lambda: M["plutus_data_from_json"](ann, json_view(d))), ("CBOR", lambda: M["plutus_data_from_cbor"](ann, Token(d)))):
                try:
                    r = f()
                except EngineError:
                    raise
                except Exception as e:
                    out.append((ob, not ok, [d], f"{S} from {D}: {type(e).__name__}: {e}"))
                    continue
                goal = ok and has_type(r, T)
                if goal:
                    goal = data_eq(abi.to_data(r), d)
                out.append((ob, goal, [d], f"{S} from {D}: {r!r}"))
            if S == "Anything":
                out.append(("data_from_json", data_eq(lower(Ut["data_from_json"](json_view(d))), d), [d], D))
            return out

        def rand(rng):
            return [rnd(rng.choice([S] * 3 + DATA) if S in DATA else (rng.choice(DATA) if rng.random() < .5 else S), ns, rng)]
        return host_verify(f"decode {S}", body, lambda ds: concrete_decode(S, ds), rand, tier, seed, bounds=["list length and dict size <= 2, nested ones <= 1 (leaves unbounded); nesting depth <= 4"], n=80)
    return Task(f"decode {S}", go, timeout=200)


# ------------------------------------------------------------------ application
APPLY = {
    "int": ("p: int, c: int", "int", "p * 10 + c"),
    "int int": ("p: int, q: int, c: int", "int", "p * 100 + q * 10 + c"),
    "int int int": ("p: int, q: int, r: int, c: int", "List[int]", "[p, q, r, c]"),
    "bytes bytes": ("p: bytes, q: bytes, c: bytes", "bytes", "p + q + c"),
    "record int": ("p: A, q: int, c: int", "List[int]", "[p.x, q, c, len(p.y)]"),
    "list dict": ("p: List[int], q: Dict[bytes, int], c: int", "List[int]", "p + [len(q), c]"),
    "union anything": ("p: Union[A, E], q: Anything, c: int", "Anything", "x: List[Anything] = [p, q, c]\nreturn x"),
    "four": ("p: int, q: int, r: bytes, s: bytes, c: int", "Anything", "x: List[Anything] = [p, q, r, s, c]\nreturn x"),
}


class SymScript:
    """the serialised form of a script with symbolic constants"""
    def __init__(self, prog): self.prog = prog
    def hex(self): raise EngineError("bytes of a script with symbolic constants")


def patch_codecs():
    """the contracts of the codecs, for scripts and encodings that contain symbolic constants (in the process of one task)"""
    import uplc, pycardano, opshin.builder as Bu, opshin.util as Ut
    rf, ru, rc, rp, rs = uplc.flatten, uplc.unflatten, pycardano.PlutusData.to_cbor, uplc.ast.data_from_cbor, pycardano.PlutusV3Script
    def sym(t):
        st = [t.term]
        while st:
            n = st.pop()
            if isinstance(n, SymData): return True
            if isinstance(n, PG.ua.Apply): st += [n.f, n.x]
        return False
    def flatten(p, *a, **k): return SymScript(p) if sym(p) else rf(p, *a, **k)
    def unflatten(b, *a, **k): return b.prog if isinstance(b, SymScript) else ru(b, *a, **k)
    def to_cbor(d, *a, **k):
        try:
            return rc(d, *a, **k) if not _sym(d) else Token(abi.to_data(d))
        except z3.Z3Exception as e:
            raise EngineError(str(e))
    def data_from_cbor(t): return SymData(t.d) if isinstance(t, Token) else rp(t)
    def script(b): return b if isinstance(b, SymScript) else rs(b)
    for m in (uplc, uplc.tools, Bu):
        for n, f in (("flatten", flatten), ("unflatten", unflatten)):
            if hasattr(m, n): setattr(m, n, f)
    uplc.ast.data_from_cbor = data_from_cbor
    pycardano.PlutusData.to_cbor = to_cbor

    class Pyc:
        PlutusV3Script = staticmethod(script)
        def __getattr__(self, n): return getattr(pycardano, n)
    Bu.pycardano = Pyc()
    Bu.PlutusV3Script = script


def _sym(v):
    if isinstance(v, (z3.ExprRef, SB, ST, abi.AnyVal, abi.PDict)): return True
    if isinstance(v, (list, tuple)): return any(map(_sym, v))
    if isinstance(v, dict): return any(_sym(k) or _sym(w) for k, w in v.items())
    if hasattr(v, "CONSTR_ID"): return any(_sym(getattr(v, n)) for n, _ in abi.fields_of(type(v)))
    return False


def routes(src, n):
    """ways to apply n parameters: name, function(params) -> Program"""
    from opshin import builder as Bu
    cfg = PG.configs()["O2"]
    comp = lambda *a: Bu._compile(src, *a, contract_file="<vf>", config=cfg)
    term = lambda s: s.prog if isinstance(s, SymScript) else __import__("uplc").unflatten(s)

    def one_by_one(ps):
        s = Bu._build(comp())
        for p in ps:
            s = Bu.apply_parameters(s, p)
        return term(s)

    def contract(split):
        def f(ps):
            types = [(f"p{i}", int) for i in range(n)]
            c = Bu.PlutusContract(Bu._build(comp()), parameter_types=list(types), title="t", purpose=[Bu.Purpose.minting])
            i = 0
            for k in split:
                c2 = c.apply_parameter(*ps[i:i + k])
                assert [t[0] for t in c.parameter_types] == [f"p{j}" for j in range(i, n)], "the contract applied to was changed"
                i += k
                c = c2
                if [t[0] for t in c.parameter_types] != [f"p{j}" for j in range(i, n)]:
                    raise WrongTypes(f"parameter types left after applying {i} of {n}: {c.parameter_types}")
            return term(c.contract)
        return f

    out = {"compile with all": lambda ps: comp(*ps), "compile, then apply all": lambda ps: term(Bu.apply_parameters(Bu._build(comp()), *ps)), "compile, then one by one": one_by_one,
           "build with all": None}
    del out["build with all"]
    for k in range(1, n):
        out[f"compile with {k}, then apply the rest"] = lambda ps, k=k: term(Bu.apply_parameters(Bu._build(comp(*ps[:k])), *ps[k:]))
    for cut in itertools.product([0, 1], repeat=n - 1):
        split, cur = [], 1
        for b in cut:
            if b:
                split.append(cur)
                cur = 1
            else:
                cur += 1
        out[f"contract object, in steps {split + [cur]}"] = contract(split + [cur])
    return out


class WrongTypes(Exception):
    pass


def apply_task(nm, tier, seed):
    sig, ret, b = APPLY[nm]
    p = P(f"apply {nm}", sig, ret, b, CLS)
    n = sig.count(":") - 1

    def go():
        nat = PG.native_ns(p.src)
        types = p.param_types(nat)
        rts = routes(p.src, n)
        # real runs use the codecs as they are; symbolic runs, in this process too, their contracts (which defer to the real ones on plain values)
        patch_codecs()
        G = abi.Gen(bytes_len="seq" if nm != "record int" else 2, list_len=2, dict_len=1)

        def body():
            ns = PY.load_src(p.src)
            ins = [G.gen(T, v) for T, v in zip(p.param_types(ns), ns["validator"].__code__.co_varnames)]
            want = abi.to_data(ns["validator"](*[v for v, _ in ins]))
            ds = [d for _, d in ins]
            out = []
            for form, ps in (("values", [v if not isinstance(v, abi.PDict) else v for v, _ in ins[:n]]), ("uplc constants", [SymData(d) for d in ds[:n]])):
                for r, f in rts.items():
                    if form != "values" and "contract" in r and tier == "quick":
                        continue
                    try:
                        t = f(ps)
                    except WrongTypes as e:
                        out.append((r, False, ds, str(e)))
                        continue
                    try:
                        v = U.run(U.convert(t), ds[n:])
                        goal = data_eq(v, want) if HO.is_data(v) else False
                    except Fail as e:
                        v, goal = e, False
                    out.append((r + (", given as " + form if form != "values" else ""), goal, ds, str(v)[:200]))
            return out

        def concrete(ds):
            if any(unrepresentable(d, T) for d, T in zip(ds, types)):
                return []
            ref = PG.run_native(p.src, p.param_types, ds)
            out = []
            for form in ("values", "uplc constants"):
                ps = [abi.from_data(d, T) for d, T in zip(ds[:n], types)] if form == "values" else list(ds[:n])
                for r, f in rts.items():
                    try:
                        got = PG.eval_uplc(f(ps), ds[n:])
                    except Exception as e:
                        got = ("fail", f"{type(e).__name__}: {e}")
                    ok = got[0] == ref[0] and (got[0] == "fail" or abi.uplc_eq(got[1], ref[1]))
                    out.append((ok, r + (", given as " + form if form != "values" else ""), {"script": str(got[1])[:200], "python": str(ref[1])[:200]}))
            return out
        return host_verify(p.name, body, concrete, lambda rng: [rand_data(T, rng) for T in types], tier, seed, bounds=["list length <= 2, dict size <= 1"], n=5,
                           bounded=any(x in sig for x in ("List", "Dict", "A")))
    return Task(p.name, go, timeout=240, weight=2)


# ------------------------------------------------------------------ the command line
CLI = {
    "int bytes": ("p: int, q: bytes", "print(str(p))\n    print(q.hex())"),
    "record list": ("p: A, q: List[int]", "print(str(p.x))\n    print(p.y.hex())\n    print(str(q))"),
    "dict union anything": ("p: Dict[bytes, int], q: Union[A, int], r: Anything", "print(str(p))\n    print(str(q))\n    print(serialise_data(r).hex())"),
    "same types": ("p: int, q: int, r: int", "print(str(p))\n    print(str(q))\n    print(str(r))"),
}

def cli_task(nm, tier, seed):
    sig, b = CLI[nm]
    src = CLS + "from opshin.prelude import *\nfrom opshin.std.builtins import *\n" + f"def validator({sig}, context: ScriptContext) -> None:\n    {b}\n"
    n = sig.count(":")

    def go():
        import opshin.__main__ as M, uplc
        from opshin import builder as Bu
        res = Result(f"command line {nm}")
        import random
        rng = random.Random(f"{seed} {nm}")
        nat = PG.native_ns(src)
        import inspect
        types = [abi.ann_to_type(a.annotation, nat) for a in list(inspect.signature(nat["validator"]).parameters.values())[:n]]
        from opshin.ledger import api_v3
        ctx = PG.ua.data_from_cbor(bytes.fromhex(CONTEXT))
        res.bounds.append("bounded: a few random parameter tuples per signature, one script context")
        with tempfile.TemporaryDirectory(prefix="vfc16") as td:
            fn = os.path.join(td, "c.py")
            open(fn, "w").write(src)

            def cli(cmd, params, *opts):
                old = sys.argv
                sys.argv = ["opshin", cmd, fn, *params, *opts]
                out = io.StringIO()
                try:
                    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                        # the option tables are consumed by parse_args
                        import copy
                        saved = copy.deepcopy(M.ARGPARSE_ARGS)
                        try:
                            a = M.parse_args()
                        finally:
                            M.ARGPARSE_ARGS.clear()
                            M.ARGPARSE_ARGS.update(saved)
                        M.perform_command(a)
                finally:
                    sys.argv = old
                return out.getvalue()
            for k in range(3 if tier == "quick" else 12):
                ds = [rand_data(T, rng) for T in types]
                if any(unrepresentable(d, T) for d, T in zip(ds, types)):
                    continue
                text = [json.dumps(real_json(d)) if rng.random() < .5 else real_cbor(d).hex() for d in ds]
                want = PG.run_native(src, lambda ns: types + [abi.ann_to_type(nat["ScriptContext"], nat)], ds + [ctx])
                bare = PG.eval_uplc(PG.compile_src(src, "O2"), ds + [ctx])
                exp = bare[2]
                if [l for l in want[2].split("\n") if l] != [x for l in exp for x in l.split("\n") if x]:
                    # what the function prints is the subject of other properties
                    continue
                nm2 = f"{res.name}: parameters {k}"
                found = {}
                try:
                    # (the uplc package cannot read back all the text it writes, so the printed program object is taken)
                    printed = []
                    dumps = PG.ua.Program.dumps
                    PG.ua.Program.dumps = lambda self, *a, **k: (printed.append(self), dumps(self, *a, **k))[1]
                    try:
                        cli("compile", text)
                    finally:
                        PG.ua.Program.dumps = dumps
                    found["compile with parameters"] = PG.eval_uplc(printed[-1], [ctx])[2]
                    found["eval_uplc"] = [l[3:] for l in cli("eval_uplc", text + [CONTEXT]).split("\n") if l.startswith(" > ")]
                    od = os.path.join(td, f"o{k}")
                    cli("build", text, "-o", od)
                    found["build with parameters"] = PG.eval_uplc(uplc.unflatten(bytes.fromhex(open(os.path.join(od, "script.cbor")).read())), [ctx])[2]
                    found["build with parameters, then load"] = PG.eval_uplc(uplc.unflatten(Bu.load(od).contract), [ctx])[2]
                    bp = json.load(open(os.path.join(od, "blueprint.json")))["validators"][0].get("parameters", [])
                    found["build: parameters left"] = exp if bp == [] else [f"the blueprint still lists the parameters {[x['title'] for x in bp]}"]
                    j = rng.randrange(n)
                    cli("build", text[:j], "-o", od + "p", "--parameters", str(n - j))
                    s = bytes.fromhex(open(os.path.join(od + "p", "script.cbor")).read())
                    ps = [abi.from_data(d, T) for d, T in zip(ds, types)]
                    found["build with some parameters, then apply_parameters"] = PG.eval_uplc(uplc.unflatten(Bu.apply_parameters(Bu.PlutusV3Script(s), *ps[j:])), [ctx])[2]
                    bp = json.load(open(os.path.join(od + "p", "blueprint.json")))["validators"][0].get("parameters", [])
                    names = list(inspect.signature(nat["validator"]).parameters)[j:n]
                    found["build with some parameters: parameters left"] = exp if [x["title"] for x in bp] == names else [f"the blueprint lists the parameters {[x['title'] for x in bp]}, left are {names}"]
                except Exception as e:
                    found["command"] = [f"{type(e).__name__}: {str(e)[:300]}"]
                res.replays += len(found)
                for ob, got in found.items():
                    ok = got == exp
                    res.obl.append((f"{nm2}: {ob}", "valid" if ok else "invalid", "run", True))
                    if not ok:
                        res.violations.append(dict(obligation=f"{nm2}: {ob}", kind="contract", prog=res.name, config=None, program=src, inputs=None, replayed=True,
                                                   detail={"parameters": text, "printed": str(got)[:500], "expected": str(exp)[:500]}))
                res.samples.append({"inputs": text, "outcome": str(exp)[:200]})
                if res.violations:
                    break
        return res
    return Task(f"command line {nm}", go, timeout=300, weight=3)


CONTEXT = "d8799fd8799f9fd8799fd8799f582019895b96b5da29ecb09e6043b7fff42ef16406a3442848298cb1e900f54da37800ffd8799fd8799fd87a9f581ce876ac436a77d58ba0e3d3a318bf94526a607b4c64f140ed5db9b0f3ffd87a80ffa140a1401a002dc6c0d87b9fd8799f581c25d14bb0185eedffcaa02cdd3bfa779bfc9df3555c64b0e91ed41273ffffd87a80ffffff809fd8799fd8799fd8799f581c25d14bb0185eedffcaa02cdd3bfa779bfc9df3555c64b0e91ed41273ffd87a80ffa140a1401a0029ebc7d87980d87a80ffff1a0003daf9a080a0d8799fd8799fd87a9f1b00000199c3745c58ffd87a80ffd8799fd87a9f1b00000199c3839e98ffd87980ffff9f581c25d14bb0185eedffcaa02cdd3bfa779bfc9df3555c64b0e91ed41273ffa1d87a9fd8799f582019895b96b5da29ecb09e6043b7fff42ef16406a3442848298cb1e900f54da37800ffff00a05820bf16a9ba49965f9eb23e13ff1af73df41d8cad82afabcd3dc59be9a40bd324f9a080d87a80d87a80ff00d87a9fd8799f582019895b96b5da29ecb09e6043b7fff42ef16406a3442848298cb1e900f54da37800ffd8799fd8799f581c25d14bb0185eedffcaa02cdd3bfa779bfc9df3555c64b0e91ed41273ffffffff"


def tasks(tier, seed):
    return [decode_task(S, tier, seed) for S in TYPES] + [apply_task(n, tier, seed) for n in APPLY] + [cli_task(n, tier, seed) for n in CLI]


def progs(tier):
    return []
