"""Type-directed relation between Python values and on-chain data (the documented ABI), symbolic and concrete.

Types:  "int" "bytes" "str" "bool" "None" "Any" | ("List",T) | ("Dict",K,V) | ("Rec", name) | ("Union", T, ...) | ("Tuple", ...)
Record classes are looked up in the executing module's namespace; their field types are given by the class annotations.
"""
import typing
import z3
import uplc.ast as ua
from frozenlist2 import frozenlist
from . import kernel as K
from .kernel import EngineError, truth, assume, choose, is_sym, Fail
from .vals import *


class OpaqueAccess(EngineError):
    """The code inspects a value that was generated as arbitrary data: the name of its field"""


class AnyVal:
    """A Python-side value of type Anything/Datum of unknown shape (opaque: it stands for a value of a declared type)."""
    __slots__ = ("d", "opaque")

    def __init__(self, d, opaque=None): self.d, self.opaque = d, opaque

    def __getattr__(self, a):
        if self.opaque and not a.startswith("__"):
            raise OpaqueAccess(self.opaque)
        raise AttributeError(f"'AnyVal' object has no attribute '{a}'")

    def __repr__(self): return f"AnyVal({self.d})"


class PDict:
    """Ordered dictionary with symbolic keys, Python semantics."""
    __slots__ = ("items",)

    def __init__(self, items=()): self.items = list(items)
    def __repr__(self): return f"PDict({self.items})"


class SList:
    """Python list of unknown length: known prefix + symbolic tail whose elements are described by elem (lift/lower)."""
    __slots__ = ("pre", "tail", "kind", "typ")

    def __init__(self, pre, tail, kind, typ): self.pre, self.tail, self.kind, self.typ = list(pre), tail, kind, typ


def ann_to_type(ann, ns=None):
    """typing annotation -> type description"""
    import pycardano
    if ann is None or ann is type(None):
        return "None"
    if ann is int: return "int"
    if ann is bool: return "bool"
    if ann is bytes or ann is bytearray: return "bytes"
    if ann is str: return "str"
    if ann == pycardano.Datum: return "Any"
    if isinstance(ann, str):
        return ann_to_type(eval(ann, ns or {}), ns)
    if isinstance(ann, typing.ForwardRef):
        return ann_to_type(eval(ann.__forward_arg__, ns or {}), ns)
    o = getattr(ann, "__origin__", None)
    if o is list:
        return ("List", ann_to_type(ann.__args__[0], ns))
    if o is dict:
        return ("Dict", ann_to_type(ann.__args__[0], ns), ann_to_type(ann.__args__[1], ns))
    if o is typing.Union:
        return ("Union",) + tuple(ann_to_type(a, ns) for a in ann.__args__)
    if isinstance(ann, type) and issubclass(ann, pycardano.PlutusData):
        return ("Rec", ann)
    raise EngineError(f"annotation {ann!r}")


def fields_of(cls):
    import dataclasses, inspect
    ns = getattr(cls, "__vf_ns__", None) or {}
    ann = {}
    for f in dataclasses.fields(cls):
        ann[f.name] = f.type
    return [(n, ann_to_type(a, ns)) for n, a in ann.items() if n != "CONSTR_ID"]


class Gen:
    """Symbolic input generator. Options: bytes='seq'|int n (all lengths 0..n), lists=n (all lengths 0..n) or 'seq'."""

    def __init__(self, bytes_len=2, text_len=2, list_len=2, dict_len=2, depth=4, text_ascii=False, distinct_keys=True, exact=False, inner=None, opaque=()):
        # opaque: fields and parameters that are arbitrary data (more general than their declared type)
        self.opaque = set(opaque)
        # inner: lengths of containers nested inside containers
        self.inner, self.lvl = inner, 0
        self.bytes_len, self.text_len, self.list_len, self.dict_len = bytes_len, text_len, list_len, dict_len
        self.depth = depth
        self.text_ascii = text_ascii
        self.distinct_keys = distinct_keys
        self.exact = exact

    def _n(self, spec):
        if isinstance(spec, (tuple, list)):
            return spec[choose(len(spec))]
        if self.exact:
            return spec
        return choose(spec + 1)

    def gen(self, T, name="a"):
        opaque = None
        if name.rsplit(".", 1)[-1] in self.opaque and T != "Any":
            opaque, T = name.rsplit(".", 1)[-1], "Any"
        if isinstance(T, str):
            if T == "int":
                x = z3.Int(K.P.fresh_name(name))
                return x, DI(x)
            if T == "bool":
                x = z3.Bool(K.P.fresh_name(name))
                return x, DI(z3.If(x, z3.IntVal(1), z3.IntVal(0)))
            if T == "bytes":
                b = self.bytes(name)
                return b, DB(b)
            if T == "str":
                s = self.text(name)
                return s, DB(utf8_encode(s))
            if T == "None":
                return None, DC(0, BL(()))
            if T == "Any":
                d = DX(z3.Const(K.P.fresh_name(name), DataS))
                return AnyVal(d, opaque), d
        k = T[0]
        if k == "Lit":
            v = T[1][choose(len(T[1]))]
            return v, to_data(v)
        if k == "List":
            if self.list_len == "seq" and T[1] in ("int", "bytes"):
                raise EngineError("seq lists are generated by induct")
            n = self._n(self.list_len if self.lvl == 0 or self.inner is None else self.inner)
            self.lvl += 1
            xs = [self.gen(T[1], f"{name}_{i}") for i in range(n)]
            self.lvl -= 1
            return [x for x, _ in xs], DL(BL(tuple(d for _, d in xs)))
        if k == "Dict":
            n = self._n(self.dict_len if self.lvl == 0 or self.inner is None else self.inner)
            self.lvl += 1
            ks = [self.gen(T[1], f"{name}_k{i}") for i in range(n)]
            vs = [self.gen(T[2], f"{name}_v{i}") for i in range(n)]
            self.lvl -= 1
            if self.distinct_keys:
                for i in range(n):
                    for j in range(i):
                        assume(b_not(data_eq(ks[i][1], ks[j][1])))
            return PDict([(a[0], b[0]) for a, b in zip(ks, vs)]), DM(BL(tuple(BP(a[1], b[1]) for a, b in zip(ks, vs))))
        if k == "Rec":
            cls = T[1]
            fs = [self.gen(ft, f"{name}.{fn}") for fn, ft in fields_of(cls)]
            return cls(*[v for v, _ in fs]), DC(cls.CONSTR_ID, BL(tuple(d for _, d in fs)))
        if k == "Union":
            return self.gen(T[1 + choose(len(T) - 1)], name)
        raise EngineError(f"gen {T}")

    def bytes(self, name):
        if self.bytes_len == "seq":
            return SB(seq=z3.Const(K.P.fresh_name(name), IntSeq))
        n = self._n(self.bytes_len)
        es = []
        for i in range(n):
            e = z3.Int(K.P.fresh_name(f"{name}[{i}]"))
            assume(z3.And(e >= 0, e <= 255))
            es.append(e)
        return SB(vec=es) if es else b""

    def text(self, name):
        if self.text_len == "seq":
            return ST(seq=z3.Const(K.P.fresh_name(name), IntSeq))
        n = self._n(self.text_len)
        es = []
        for i in range(n):
            e = z3.Int(K.P.fresh_name(f"{name}[{i}]"))
            if self.text_ascii:
                assume(z3.And(e >= 0, e <= 127))
            else:
                assume(z3.And(e >= 0, e <= 0x10FFFF, z3.Or(e < 0xD800, e > 0xDFFF)))
            es.append(e)
        return ST(vec=es) if es else ""


def to_data(v):
    """Python value -> data (documented ABI mapping), untyped where the mapping is determined by the value."""
    import pycardano
    if isinstance(v, AnyVal):
        return v.d
    if v is None:
        return DC(0, BL(()))
    if is_bool(v):
        if isinstance(v, bool):
            return DI(1 if v else 0)
        return DI(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
    if is_int(v):
        return DI(v)
    if isinstance(v, bytearray):
        v = bytes(v)
    if is_bytes(v):
        return DB(v)
    if is_text(v):
        return DB(utf8_encode(v))
    if isinstance(v, (list, tuple)):
        return DL(BL(tuple(to_data(x) for x in v)))
    if isinstance(v, SList):
        return DL(BL(tuple(to_data(x) for x in v.pre), v.tail, v.kind))
    if isinstance(v, PDict):
        return DM(BL(tuple(BP(to_data(k), to_data(w)) for k, w in v.items)))
    if isinstance(v, dict):
        return DM(BL(tuple(BP(to_data(k), to_data(w)) for k, w in v.items())))
    if hasattr(v, "CONSTR_ID"):
        return DC(v.CONSTR_ID, BL(tuple(to_data(getattr(v, n)) for n, _ in fields_of(type(v)))))
    if isinstance(v, pycardano.RawPlutusData) or isinstance(v, pycardano.RawCBOR):
        from .uplcsem import const
        return const(from_cbor(v.to_cbor() if hasattr(v, "to_cbor") else v.cbor))
    raise EngineError(f"to_data {type(v)}")


def raw_to_data(v, T):
    """native machine value of declared type T -> data; None when the machine value has another shape"""
    from .uplcsem import UNIT
    k = T if isinstance(T, str) else T[0]
    if k == "int":
        return DI(v) if is_int(v) and not is_bool(v) else None
    if k == "bool":
        return to_data(v) if is_bool(v) else None
    if k == "bytes":
        return DB(v) if is_bytes(v) else None
    if k == "str":
        return DB(utf8_encode(v)) if is_text(v) else None
    if k == "None":
        return DC(0, BL(())) if v is UNIT else None
    if k == "List":
        if not isinstance(v, BL) or v.tail is not None:
            return None
        es = [raw_to_data(e, T[1]) for e in v.pre]
        return None if any(e is None for e in es) else DL(BL(tuple(es)))
    if k == "Dict":
        ok = isinstance(v, BL) and all(isinstance(e, BP) and is_data(e.a) and is_data(e.b) for e in v.pre)
        return DM(v) if ok else None
    return v if is_data(v) else None


# ------------------------------------------------------------------ concretisation
def m_int(m, e):
    if isinstance(e, int):
        return int(e)
    r = m.eval(e, model_completion=True)
    return r.as_long()


def m_bool(m, e):
    if isinstance(e, bool):
        return e
    return z3.is_true(m.eval(e, model_completion=True))


def m_seq(m, s):
    n = m_int(m, z3.Length(s))
    if n > 5000:
        raise EngineError("model sequence too long")
    return [m.eval(s[i], model_completion=True) for i in range(n)]


def m_bytes(m, b):
    if isinstance(b, bytes):
        return b
    if b.vec is not None:
        return bytes(m_int(m, e) for e in b.vec)
    r = m.eval(b.seq, model_completion=True)
    if any(x.decl().eq(UTF8) for x in _concat_parts(b.seq)):
        out = b""
        for p in _concat_parts(b.seq):
            if p.decl().eq(UTF8):
                out += "".join(_chr(x.as_long()) for x in m_seq(m, p.children()[0])).encode("utf8")
            else:
                out += bytes(x.as_long() % 256 for x in m_seq(m, p))
        return out
    return bytes(x.as_long() % 256 for x in m_seq(m, b.seq))


def _chr(c):
    c = c % 0x110000
    return chr(c) if not 0xD800 <= c <= 0xDFFF else "?"


from .vals import _concat_parts  # noqa


def m_data(m, d):
    """symbolic data -> uplc PlutusData constant under a model"""
    if isinstance(d, DI):
        return ua.PlutusInteger(m_int(m, d.v))
    if isinstance(d, DB):
        return ua.PlutusByteString(m_bytes(m, d.v))
    if isinstance(d, DL):
        return ua.PlutusList(frozenlist(m_list(m, d.v)))
    if isinstance(d, DM):
        kv = m_list(m, d.v)
        r = ua.PlutusMap({k: v for k, v in kv})
        if len(r.value) != len(kv):
            raise ValueError("the machine of the uplc package cannot represent a map with a repeated key")
        return r
    if isinstance(d, DC):
        return ua.PlutusConstr(m_int(m, d.tag), frozenlist(m_list(m, d.v)))
    return m_term(m.eval(d.t, model_completion=True), m)


def m_list(m, l):
    out = []
    for e in l.pre:
        out.append((m_data(m, e.a), m_data(m, e.b)) if isinstance(e, BP) else m_data(m, e))
    if l.tail is not None:
        for t in m_seq(m, l.tail):
            out.append((m_term(PairS.fst(t), m), m_term(PairS.snd(t), m)) if l.kind is KPair else m_term(t, m))
    return out


def m_term(t, m):
    t = z3.simplify(m.eval(t, model_completion=True))
    n, c = t.decl().name(), t.children()
    if n == "I":
        return ua.PlutusInteger(c[0].as_long())
    if n == "B":
        return ua.PlutusByteString(bytes(x.as_long() % 256 for x in m_seq(m, c[0])))
    if n == "L":
        return ua.PlutusList(frozenlist([m_term(x, m) for x in m_seq(m, c[0])]))
    if n == "M":
        return ua.PlutusMap({m_term(PairS.fst(x), m): m_term(PairS.snd(x), m) for x in m_seq(m, c[0])})
    if n == "C":
        tag = c[0].as_long()
        return ua.PlutusConstr(tag, frozenlist([m_term(x, m) for x in m_seq(m, c[1])]))
    raise EngineError(f"m_term {t}")


_ENCODED = {}


def remember(d):
    """the CBOR of d; uplc's own decoder rejects some of what it encodes (maps below keys), so the origin is kept"""
    b = ua.plutus_cbor_dumps(d)
    if len(_ENCODED) > 20000:
        _ENCODED.clear()
    _ENCODED[b] = d
    return b


def from_cbor(b):
    return _ENCODED[b] if b in _ENCODED else ua.data_from_cbor(b)


_HC = []


def _hashable_cbor():
    if not _HC:
        import pycardano

        class RawCBOR(pycardano.RawCBOR):
            __hash__ = lambda self: hash(self.cbor)
        _HC.append(RawCBOR)
    return _HC[0]


def from_data(d, T):
    """concrete uplc data -> native Python value of type T (documented ABI mapping)"""
    import pycardano
    if T == "int":
        return d.value
    if T == "bool":
        return d.value != 0
    if T == "bytes":
        return d.value
    if T == "str":
        return d.value.decode("utf8")
    if T == "None":
        return None
    if T == "Any":
        return pycardano.RawCBOR(remember(d))
    k = T[0]
    if k == "Lit":
        T0 = "int" if isinstance(T[1][0], int) else ("bytes" if isinstance(T[1][0], bytes) else "str")
        return from_data(d, T0)
    if k == "List":
        return [from_data(x, T[1]) for x in d.value]
    if k == "Dict":
        items = [(from_data(a, T[1]), from_data(b, T[2])) for a, b in d.value.items()]
        if T[1] == "Any":
            # (distinct pieces of data have distinct encodings)
            return {_hashable_cbor()(k.cbor): v for k, v in items}
        try:
            return dict(items)
        except TypeError:
            return PDict(items)
    if k == "Rec":
        if not isinstance(d, ua.PlutusConstr) or d.constructor != T[1].CONSTR_ID:
            raise ValueError("constructor")
        return T[1](*[from_data(x, ft) for x, (_, ft) in zip(d.fields, fields_of(T[1]))])
    if k == "Union":
        for U in T[1:]:
            try:
                if matches(d, U):
                    return from_data(d, U)
            except (ValueError, AttributeError):
                pass
        raise ValueError("union")
    raise EngineError(f"from_data {T}")


def matches(d, T):
    if T == "int": return isinstance(d, ua.PlutusInteger)
    if T in ("bytes", "str"): return isinstance(d, ua.PlutusByteString)
    if T == "bool": return isinstance(d, ua.PlutusInteger)
    if T == "None": return isinstance(d, ua.PlutusConstr) and d.constructor == 0 and not d.fields
    if T == "Any": return True
    if T[0] == "List": return isinstance(d, ua.PlutusList)
    if T[0] == "Dict": return isinstance(d, ua.PlutusMap)
    if T[0] == "Rec": return isinstance(d, ua.PlutusConstr) and d.constructor == T[1].CONSTR_ID
    if T[0] == "Union": return any(matches(d, U) for U in T[1:])
    raise EngineError(f"matches {T}")


def py_to_uplc(v):
    """native Python value -> uplc PlutusData (documented ABI mapping)"""
    import pycardano
    if v is None:
        return ua.PlutusConstr(0, frozenlist([]))
    if isinstance(v, bool):
        return ua.PlutusInteger(int(v))
    if isinstance(v, int):
        return ua.PlutusInteger(v)
    if isinstance(v, (bytes, bytearray)):
        return ua.PlutusByteString(bytes(v))
    if isinstance(v, str):
        return ua.PlutusByteString(v.encode("utf8"))
    if isinstance(v, (list, tuple, type({}.keys()), type({}.values()), type({}.items()))):
        return ua.PlutusList(frozenlist([py_to_uplc(x) for x in v]))
    if isinstance(v, PDict):
        return ua.PlutusMap({py_to_uplc(k): py_to_uplc(w) for k, w in v.items})
    if isinstance(v, AnyVal):
        return m_data(None, v.d)
    if isinstance(v, dict):
        return ua.PlutusMap({py_to_uplc(k): py_to_uplc(w) for k, w in v.items()})
    if isinstance(v, pycardano.RawCBOR):
        return from_cbor(v.cbor)
    if isinstance(v, pycardano.RawPlutusData):
        return from_cbor(v.to_cbor())
    if hasattr(v, "CONSTR_ID"):
        return ua.PlutusConstr(v.CONSTR_ID, frozenlist([py_to_uplc(getattr(v, n)) for n, _ in fields_of(type(v))]))
    raise EngineError(f"py_to_uplc {type(v)}")


def uplc_eq(a, b):
    """structural equality of concrete data (order-sensitive for maps)"""
    if type(a) is not type(b):
        return False
    if isinstance(a, ua.PlutusConstr):
        return a.constructor == b.constructor and len(a.fields) == len(b.fields) and all(uplc_eq(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, ua.PlutusList):
        return len(a.value) == len(b.value) and all(uplc_eq(x, y) for x, y in zip(a.value, b.value))
    if isinstance(a, ua.PlutusMap):
        return len(a.value) == len(b.value) and all(uplc_eq(x[0], y[0]) and uplc_eq(x[1], y[1]) for x, y in zip(a.value.items(), b.value.items()))
    return a.value == b.value
