"""Functions of the tool itself (not of compiled programs) executed on symbolic values: parameter decoding and application.

The functions are /repo's current text, executed unchanged. What they call in other packages is replaced by its contract: the CBOR
codec (decoding an encoded value gives the value back; `cbor2` shows it as Python values), the JSON and flat serialisation of the uplc package
(inverse of one another) and the class decoder of pycardano (decodes data that has the constructor and the field types of the class, refuses
everything else). Every refuted obligation is replayed with the real packages, and each path is cross-checked on one concrete point."""
import random
import time
import types
import cbor2
import pycardano
import uplc.ast as ua
import z3
from . import abi, kernel as K, uplcsem as U
from .bridgesym import SymData, Token as Token0, exec_source, lower, sym_isinstance, SymInt, as_i
from .kernel import EngineError, Fail
from .prog import Result, rand_data, data_json, TOUCHED, _monitor_on
from .vals import *


class Token(Token0):
    def hex(self): return "<cbor>"
    def __len__(self): raise EngineError("length of an encoding")


class HexTok(str):
    """the hexadecimal notation of symbolic bytes"""
    def __new__(cls, b):
        s = str.__new__(cls, "<hex>")
        s.b = b
        return s


class _IntMeta(type(SymInt)):
    def __eq__(cls, o): return o is int or o is cls
    def __hash__(cls): return hash(int)


class HInt(SymInt, metaclass=_IntMeta):
    pass


class _BytesMeta(type):
    def __eq__(cls, o): return o is bytes or o is cls
    def __hash__(cls): return hash(bytes)
    def __instancecheck__(cls, x): return is_bytes(x)
    def __call__(cls, *a): return bytes(*a)
    def fromhex(cls, x): return x.b if isinstance(x, HexTok) else bytes.fromhex(x)


class HBytes(metaclass=_BytesMeta):
    pass


def h_isinstance(x, t):
    if isinstance(t, tuple):
        return any(h_isinstance(x, u) for u in t)
    if t is HInt: t = int
    if t is HBytes: t = bytes
    if t is int and (is_int(x) or is_bool(x)): return True
    if t is bytes and is_bytes(x): return True
    if t is str: return isinstance(x, str)
    return sym_isinstance(x, t) if t in (int, bytes, bool) else isinstance(x, t)


def json_view(d):
    """the detailed JSON schema of data"""
    if isinstance(d, DI): return {"int": d.v}
    if isinstance(d, DB): return {"bytes": HexTok(d.v)}
    if isinstance(d, DL): return {"list": [json_view(x) for x in items(d.v)]}
    if isinstance(d, DM): return {"map": [{"k": json_view(p.a), "v": json_view(p.b)} for p in items(d.v)]}
    if isinstance(d, DC): return {"constructor": d.tag, "fields": [json_view(x) for x in items(d.v)]}
    raise EngineError(f"json view of {d}")


def items(bl):
    if bl.tail is not None:
        raise EngineError("list of unknown length")
    return bl.pre


def unjson(x):
    if "int" in x: return DI(as_i(x["int"]))
    if "bytes" in x: return DB(HBytes.fromhex(x["bytes"]))
    if "list" in x: return DL(BL(tuple(unjson(e) for e in x["list"])))
    if "map" in x: return DM(BL(tuple(BP(unjson(e["k"]), unjson(e["v"])) for e in x["map"])))
    if "constructor" in x: return DC(x["constructor"], BL(tuple(unjson(e) for e in x["fields"])))
    raise ValueError("unknown representation")


def cbor_view(d):
    if isinstance(d, (DI, DB)): return d.v
    if isinstance(d, DL): return [cbor_view(x) for x in items(d.v)]
    if isinstance(d, DM): return {key(cbor_view(p.a)): cbor_view(p.b) for p in items(d.v)}
    if isinstance(d, DC):
        return cbor2.CBORTag(102, [d.tag, [cbor_view(x) for x in items(d.v)]])
    raise EngineError(f"cbor view of {d}")


def key(v):
    return tuple(v) if isinstance(v, list) else v


def uncbor(v):
    if isinstance(v, cbor2.CBORTag): return DC(v.value[0], BL(tuple(uncbor(x) for x in v.value[1])))
    if isinstance(v, (list, tuple)): return DL(BL(tuple(uncbor(x) for x in v)))
    if isinstance(v, dict): return DM(BL(tuple(BP(uncbor(k), uncbor(w)) for k, w in v.items())))
    if is_int(v) or is_bool(v): return DI(as_i(v))
    if is_bytes(v): return DB(v)
    raise EngineError(f"encoding of {type(v)}")


class Cbor2Proxy:
    def __getattr__(self, n): return getattr(cbor2, n)
    @staticmethod
    def loads(t): return cbor_view(t.d) if isinstance(t, Token0) else cbor2.loads(t)
    @staticmethod
    def dumps(v): return cbor2.dumps(v) if v is None else Token(uncbor(v))


class AstProxy:
    def __getattr__(self, n): return getattr(ua, n)
    @staticmethod
    def data_from_cbor(t): return HData(t.d) if isinstance(t, Token0) else ua.data_from_cbor(t)
    @staticmethod
    def data_from_json_dict(x): return HData(unjson(x))
    @staticmethod
    def plutus_cbor_dumps(d): return Token(lower(d))


class HData(SymData):
    def to_json(self): return json_view(self.d)


class PycProxy:
    def __getattr__(self, n): return getattr(pycardano, n)
    @staticmethod
    def RawCBOR(t): return abi.AnyVal(t.d) if isinstance(t, Token0) else pycardano.RawCBOR(t)
    @staticmethod
    def RawPlutusData(v): return abi.AnyVal(uncbor(v))


class Json:
    def __getattr__(self, n):
        import json
        return getattr(json, n)
    @staticmethod
    def dumps(x, **kw): return "<json>"


class Sub:
    def __init__(self, **kw): self.__dict__.update(kw)


class UplcProxy:
    ast = AstProxy()
    def __getattr__(self, n):
        import uplc
        return getattr(uplc, n)


# ------------------------------------------------------------------ the contract: which data has which type
def fields(d): return list(items(d.v)) if isinstance(d, DC) else list(d.fields)
def elems(d): return list(items(d.v)) if isinstance(d, DL) else list(d.value)
def pairs(d): return [(p.a, p.b) for p in items(d.v)] if isinstance(d, DM) else list(d.value.items())
def tag(d): return d.tag if isinstance(d, DC) else d.constructor


def deep_match(d, T):
    """data d is a value of type T; the number of fields is exact"""
    if T == "Any": return True
    if T == "int": return isinstance(d, (DI, ua.PlutusInteger))
    if T == "bytes": return isinstance(d, (DB, ua.PlutusByteString))
    if T[0] == "List": return isinstance(d, (DL, ua.PlutusList)) and all(deep_match(x, T[1]) for x in elems(d))
    if T[0] == "Dict": return isinstance(d, (DM, ua.PlutusMap)) and all(deep_match(a, T[1]) and deep_match(b, T[2]) for a, b in pairs(d))
    if T[0] == "Rec":
        fs = abi.fields_of(T[1])
        return isinstance(d, (DC, ua.PlutusConstr)) and tag(d) == T[1].CONSTR_ID and len(fields(d)) == len(fs) and all(deep_match(x, ft) for x, (_, ft) in zip(fields(d), fs))
    if T[0] == "Union": return any(deep_match(d, t) for t in T[1:])
    raise EngineError(f"type {T}")


def surplus(d, T):
    """d is a constructor with more fields than the class it could belong to: nothing is said about such data (the ledger's own tools ignore them)"""
    if isinstance(T, str): return False
    if T[0] == "List": return isinstance(d, (DL, ua.PlutusList)) and any(surplus(x, T[1]) for x in elems(d))
    if T[0] == "Dict": return isinstance(d, (DM, ua.PlutusMap)) and any(surplus(a, T[1]) or surplus(b, T[2]) for a, b in pairs(d))
    if T[0] == "Rec":
        fs = abi.fields_of(T[1])
        if not isinstance(d, (DC, ua.PlutusConstr)) or tag(d) != T[1].CONSTR_ID: return False
        return len(fields(d)) > len(fs) or any(surplus(x, ft) for x, (_, ft) in zip(fields(d), fs))
    return any(surplus(d, t) for t in T[1:])


def has_type(v, T):
    if T == "Any": return True
    if T == "int": return is_int(v) and not is_bool(v)
    if T == "bytes": return is_bytes(v)
    if T[0] == "List": return isinstance(v, (list, pycardano.IndefiniteList)) and all(has_type(x, T[1]) for x in v)
    if T[0] == "Dict": return isinstance(v, dict) and all(has_type(a, T[1]) and has_type(b, T[2]) for a, b in v.items())
    if T[0] == "Rec": return isinstance(v, T[1]) and all(has_type(getattr(v, n), ft) for n, ft in abi.fields_of(T[1]))
    if T[0] == "Union": return any(has_type(v, t) for t in T[1:])
    raise EngineError(f"type {T}")


def sym_decode(d, T):
    """the documented value of data d at type T, or DeserializeException"""
    bad = pycardano.DeserializeException("no match")
    if T == "Any": return abi.AnyVal(d)
    if T in ("int", "bytes"):
        if not deep_match(d, T): raise bad
        return d.v
    if T[0] == "List":
        if not isinstance(d, DL): raise bad
        return [sym_decode(x, T[1]) for x in items(d.v)]
    if T[0] == "Dict":
        if not isinstance(d, DM): raise bad
        return {sym_decode(p.a, T[1]): sym_decode(p.b, T[2]) for p in items(d.v)}
    if T[0] == "Rec":
        fs = abi.fields_of(T[1])
        if not isinstance(d, DC) or d.tag != T[1].CONSTR_ID or len(items(d.v)) < len(fs): raise bad
        return T[1](*[sym_decode(x, ft) for x, (_, ft) in zip(items(d.v), fs)])
    for t in T[1:]:
        if deep_match(d, t):
            return sym_decode(d, t)
    raise bad


def hook_class(cls):
    """the class decoder replaced by its contract, for symbolic encodings (in the process of one task)"""
    T = ("Rec", cls)
    for name, want in (("from_cbor", lambda t: t.d), ("from_dict", unjson)):
        real = getattr(cls, name).__func__

        def dec(c, t, *a, _real=real, _want=want, **k):
            if isinstance(t, (Token0, dict)) and c is cls:
                return sym_decode(_want(t), T)
            return _real(c, t, *a, **k)
        setattr(cls, name, classmethod(dec))


def main_ns():
    """opshin/__main__.py on symbolic values"""
    ns = exec_source("opshin.__main__")
    up = UplcProxy()
    ns.update(int=HInt, bytes=HBytes, isinstance=h_isinstance, cbor2=Cbor2Proxy(), pycardano=PycProxy(), uplc=up, json=Json())
    return ns


# ------------------------------------------------------------------ driver
def host_verify(name, body, concrete, rand, tier, seed, bounds=(), time_limit=20, n=60, bounded=True):
    """body() -> list of (obligation, goal, symbolic data, detail); concrete(obligation or None, data) -> list of (ok, obligation, description);
    rand(rng) -> concrete data"""
    t0 = time.time()
    res = Result(name)
    K.STATS.__init__()
    res.bounds.extend(bounds)
    rng = random.Random(f"{seed} {name}")
    _monitor_on()
    bad, pts = {}, []

    def path():
        out = []
        for ob, goal, ds, detail in body():
            st, model, be = K.check_valid(goal, 15000)
            cd = None
            if st == "invalid" and model is not None:
                try:
                    cd = [abi.m_data(model, d) for d in ds]
                except (EngineError, ValueError, AttributeError):
                    pass
            elif st == "invalid" and K.P.solver.check() == z3.sat:
                cd = [abi.m_data(K.P.solver.model(), d) for d in ds]
            out.append((ob, st, be, cd, detail))
        pt = None
        if out and K.P.solver.check() == z3.sat:
            try:
                pt = [abi.m_data(K.P.solver.model(), d) for d in ds]
            except (EngineError, ValueError, AttributeError):
                pass
        return out, pt
    try:
        results, complete, why = K.explore(path, max_paths=3000, time_limit=time_limit * (4 if tier == "thorough" else 1))
    except Exception as e:
        # the code uses something the engine has no contract for: the bounded check below stands in
        results, complete, why = [], False, f"engine: {type(e).__name__}: {e}"
    res.complete = complete
    if not complete:
        res.undecided.append((name, why))
    for k, (_, (obs, pt)) in enumerate(results):
        for ob, st, be, cd, detail in obs:
            nm = f"{name}: {ob}/path{k}"
            if st == "invalid":
                bad.setdefault(ob, []).append((nm, cd, detail))
            res.obl.append((nm, st, be, bounded))
            if st == "unknown":
                res.undecided.append((nm, "solver: unknown"))
        if pt is not None:
            pts.append(pt)
    hit = {}

    def run(ds, why):
        try:
            rs = concrete(ds)
        except EngineError:
            return
        res.replays += len(rs)
        if len(res.samples) < 2 and rs:
            res.samples.append({"inputs": [data_json(x) for x in ds], "outcome": rs[0][2]})
        for ok, ob, desc in rs:
            if not ok and ob not in hit:
                hit[ob] = dict(obligation=f"{name}: {ob}/{why}", kind="contract", prog=name, config=None, inputs=[data_json(x) for x in ds], replayed=True, detail=desc)
    for ob, lst in bad.items():
        for nm, cd, detail in lst[:40]:
            if cd is not None and ob not in hit:
                run(cd, nm.rsplit("/", 1)[1])
    rng.shuffle(pts)
    for p in pts[:25]:
        run(p, "concrete point of a path")
    m = n * (10 if tier == "thorough" else 1)
    t1 = time.time()
    for _ in range(m):
        if time.time() - t1 > (20 if tier == "quick" else 120):
            break
        run(rand(rng), "bounded search")
    for ob, lst in bad.items():
        if ob not in hit:
            res.undecided.append((lst[0][0], "refuted on symbolic values with the assumed contracts of the packages used, holds on the real code for the inputs tried: " + str(lst[0][2])[:200]))
    res.violations.extend(hit.values())
    res.paths, res.solver_s, res.queries, res.backends = K.STATS.paths, K.STATS.solver_s, K.STATS.queries, K.STATS.backends
    res.wall = time.time() - t0
    res.touched = sorted(TOUCHED)
    return res
