"""opshin/bridge.py, opshin/std/builtins.py and opshin/std/bls12_381.py executed on symbolic values.

The source of the three modules is /repo's current text, executed unchanged; what they call in the uplc package is replaced:
the table of primitive implementations by the primitive semantics of uplcsem.py (the same the compiled script is run with), the
CBOR codec by its contract (decoding an encoded value gives the value back), the group elements of pyblst by elements of
uninterpreted groups."""
import importlib.util
import types
import uplc.ast as ua
import pycardano
import z3
from . import uplcsem as U
from .kernel import EngineError, Fail
from .vals import *
from .abi import AnyVal, PDict, to_data


class Token:
    """the CBOR encoding of a data value"""
    def __init__(self, d): self.d = d


class SymData(ua.PlutusData):
    def __init__(self, d):
        object.__setattr__(self, "d", d)


class RecProxy:
    def __init__(self, d): self.d = d
    def to_cbor(self): return Token(self.d)


class RawProxy:
    def __init__(self, d): self.d = d
    @property
    def cbor(self): return Token(self.d)
    def to_cbor(self): return Token(self.d)


class DictProxy:
    def __init__(self, pairs): self.pairs = pairs
    def items(self): return self.pairs


class TextProxy:
    """a text value: .encode() as on str"""
    def __init__(self, s): self.s = s
    def encode(self, *a): return utf8_encode(self.s)


def entry(a):
    """engine value -> what the native bridge code sees"""
    if isinstance(a, AnyVal):
        return RawProxy(a.d)
    if isinstance(a, PDict):
        return DictProxy([(entry(k), entry(v)) for k, v in a.items])
    if isinstance(a, dict):
        return DictProxy([(entry(k), entry(v)) for k, v in a.items()])
    if isinstance(a, list):
        return [entry(x) for x in a]
    if hasattr(a, "CONSTR_ID"):
        return RecProxy(to_data(a))
    if isinstance(a, ST):
        return TextProxy(a)
    return a


def sym_isinstance(x, t):
    if isinstance(t, tuple):
        return any(sym_isinstance(x, u) for u in t)
    if t is bool: return is_bool(x)
    if t is int or t is SymInt: return is_int(x) or is_bool(x)
    if t is str: return isinstance(x, (str, TextProxy))
    if t is bytes: return is_bytes(x)
    if t is dict: return isinstance(x, (dict, DictProxy))
    if t is pycardano.PlutusData: return isinstance(x, (RecProxy, pycardano.PlutusData))
    if t is RawFactory: return isinstance(x, RawProxy)
    return isinstance(x, t)


def RawFactory(tok):
    return AnyVal(tok.d)


# ---- uplc constants <-> engine values
def lower(x):
    if isinstance(x, SymData): return x.d
    if isinstance(x, ua.BuiltinBool): return x.value
    if isinstance(x, ua.BuiltinInteger):
        # int(True) style values
        return z3.If(x.value, z3.IntVal(1), z3.IntVal(0)) if isinstance(x.value, z3.BoolRef) else (int(x.value) if isinstance(x.value, bool) else x.value)
    if isinstance(x, ua.BuiltinByteString): return x.value
    if isinstance(x, ua.BuiltinString): return x.value.s if isinstance(x.value, TextProxy) else x.value
    if isinstance(x, ua.BuiltinUnit): return U.UNIT
    if isinstance(x, ua.BuiltinList): return BL(tuple(lower(v) for v in x.values))
    if isinstance(x, (ua.BuiltinBLS12381G1Element, ua.BuiltinBLS12381G2Element, ua.BuiltinBLS12381Mlresult)): return x.value
    if isinstance(x, ua.PlutusInteger): return DI(as_i(x.value))
    if isinstance(x, ua.PlutusByteString): return DB(x.value)
    if isinstance(x, ua.PlutusList): return DL(BL(tuple(lower(v) for v in x.value)))
    if isinstance(x, SymMap): return DM(BL(tuple(BP(lower(a), lower(b)) for a, b in x.pairs)))
    if isinstance(x, ua.PlutusMap): return DM(BL(tuple(BP(lower(a), lower(b)) for a, b in x.value.items())))
    if isinstance(x, ua.PlutusConstr): return DC(x.constructor, BL(tuple(lower(v) for v in x.fields)))
    raise EngineError(f"bridge: {type(x)}")


def as_i(v):
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return int(v) if isinstance(v, bool) else v


class SymMap(ua.PlutusData):
    def __init__(self, pairs):
        object.__setattr__(self, "pairs", pairs)


def raise_(r):
    r = simp(r) if isinstance(r, z3.ExprRef) else r
    if is_bool(r): return ua.BuiltinBool(r)
    if is_int(r): return ua.BuiltinInteger(r)
    if is_bytes(r): return ua.BuiltinByteString(r)
    if is_text(r): return ua.BuiltinString(r)
    if r is U.UNIT: return ua.BuiltinUnit()
    if is_data(r): return SymData(r)
    if isinstance(r, U.Grp):
        return {"G1": ua.BuiltinBLS12381G1Element, "G2": ua.BuiltinBLS12381G2Element, "Ml": ua.BuiltinBLS12381Mlresult}[r.kind](r)
    if isinstance(r, BL):
        return ua.BuiltinList([raise_(x) for x in r.pre], ua.PlutusData())
    raise EngineError(f"bridge result {r!r}")


class EvalMap:
    def __getitem__(self, f):
        name = f.name

        def run(*args):
            if name not in U.BI:
                raise EngineError(f"builtin {name} not modelled")
            n = U.ARITY[name]
            if len(args) != n:
                raise TypeError(f"{name} takes {n} arguments")
            return raise_(U.BI[name](*[lower(a) for a in args]))
        return run


class _SymIntMeta(type):
    def __instancecheck__(cls, x): return is_int(x) or is_bool(x)
    def __call__(cls, x=0, *a):
        return int(x, *a) if a or not z3.is_expr(x) else as_i(x)


class SymInt(metaclass=_SymIntMeta):
    """int() on symbolic integers and booleans"""


class AstProxy:
    BuiltInFunEvalMap = EvalMap()

    def __getattr__(self, n): return getattr(ua, n)

    @staticmethod
    def data_from_cbor(t):
        if isinstance(t, Token):
            return SymData(t.d)
        return ua.data_from_cbor(t)

    @staticmethod
    def plutus_cbor_dumps(a): return Token(lower(a))

    @staticmethod
    def PlutusMap(d):
        return ua.PlutusMap(d)


def exec_source(name):
    spec = importlib.util.find_spec(name)
    src = open(spec.origin).read()
    ns = {"__name__": "vf_" + name, "__package__": name.rpartition(".")[0], "__file__": spec.origin}
    m = types.ModuleType(ns["__name__"])
    import sys
    sys.modules[ns["__name__"]] = m
    m.__dict__.update(ns)
    exec(compile(src, spec.origin, "exec"), m.__dict__)
    return m.__dict__


def bls_ns():
    ns = exec_source("opshin.std.bls12_381")
    ns.update(isinstance=sym_isinstance, BlstP1Element=U.G1, BlstP2Element=U.G2, BlstFP12Element=U.Ml)
    return ns


def bridge_ns(bls):
    ns = exec_source("opshin.bridge")
    real = ns["wraps_builtin"]
    ns.update(isinstance=sym_isinstance, RawCBOR=RawFactory, int=SymInt, uplc=types.SimpleNamespace(ast=AstProxy()))
    for k in ("BLS12381G1Element", "BLS12381G2Element", "BLS12381MillerLoopResult"):
        ns[k] = bls[k]

    def wraps_builtin(func):
        w = real(func)

        def wrapped(*args):
            return w(*[entry(a) for a in args])
        wrapped.__wrapped__ = func
        wrapped.__name__ = func.__name__
        return wrapped
    return dict(ns, wraps_builtin=wraps_builtin)
