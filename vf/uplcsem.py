"""Symbolic semantics of UPLC terms (the script that actually runs), after the CEK machine of the uplc package."""
import z3
import uplc.ast as ua
from frozenlist2 import frozenlist
from . import kernel as K
from .kernel import Fail, EngineError, truth, assume, is_sym, Incomplete
from .vals import *

# ------------------------------------------------------------------ term representation
V, L, A, F, D, C, B, E = range(8)


class T:
    __slots__ = ("k", "a", "b", "fv", "src")

    def __init__(self, k, a=None, b=None, fv=frozenset()):
        self.k, self.a, self.b, self.fv = k, a, b, fv


class Clo:
    __slots__ = ("t", "env")

    def __init__(self, t, env):
        self.t, self.env = t, env


class Dly:
    __slots__ = ("t", "env")

    def __init__(self, t, env):
        self.t, self.env = t, env


class PAp:
    __slots__ = ("f", "forces", "args")

    def __init__(self, f, forces=0, args=()):
        self.f, self.forces, self.args = f, forces, args

    def __repr__(self):
        return f"PAp({self.f},{self.forces},{self.args})"


class _Unit:
    def __repr__(self): return "()"


UNIT = _Unit()


class Opaque:
    """opaque ground value (e.g. BLS element)"""
    def __init__(self, t): self.t = t
    def __repr__(self): return f"Opaque({self.t})"


def ctype(c):
    """machine type of a constant"""
    if isinstance(c, ua.PlutusData):
        return "data"
    if isinstance(c, ua.BuiltinList):
        return f"list({ctype(c.sample_value)})"
    if isinstance(c, ua.BuiltinPair):
        return f"pair({ctype(c.l_value)},{ctype(c.r_value)})"
    return {ua.BuiltinUnit: "unit", ua.BuiltinBool: "bool", ua.BuiltinInteger: "int", ua.BuiltinByteString: "bytes",
            ua.BuiltinString: "text"}.get(type(c), type(c).__name__)


def vtype(x):
    """machine type of a value (None when unknown)"""
    k = vkind(x)
    if k == "list":
        e = x.ety if x.ety is not None else vtype(x.pre[0]) if x.pre else None
        return None if e is None else f"list({e})"
    if k == "pair":
        a, b = vtype(x.a), vtype(x.b)
        return None if a is None or b is None else f"pair({a},{b})"
    return k


def const(c):
    if isinstance(c, ua.BuiltinUnit):
        return UNIT
    if isinstance(c, (ua.BuiltinBool, ua.BuiltinInteger, ua.BuiltinByteString, ua.BuiltinString)):
        return c.value
    if isinstance(c, ua.BuiltinPair):
        return BP(const(c.l_value), const(c.r_value))
    if isinstance(c, ua.BuiltinList):
        return BL(tuple(const(v) for v in c.values), ety=ctype(c.sample_value))
    if hasattr(c, "d") and type(c).__name__ in ("SymData", "HData"):
        return c.d
    if isinstance(c, ua.PlutusInteger):
        return DI(c.value)
    if isinstance(c, ua.PlutusByteString):
        return DB(c.value)
    if isinstance(c, ua.PlutusList):
        return DL(BL(tuple(const(v) for v in c.value)))
    if isinstance(c, ua.PlutusMap):
        return DM(BL(tuple(BP(const(k), const(v)) for k, v in c.value.items())))
    if isinstance(c, ua.PlutusConstr):
        return DC(c.constructor, BL(tuple(const(v) for v in c.fields)))
    if isinstance(c, (ua.BuiltinBLS12381G1Element, ua.BuiltinBLS12381G2Element, ua.BuiltinBLS12381Mlresult)):
        return Opaque(c)
    raise EngineError(f"constant {c}")


_NO = frozenset()


def convert(t):
    """uplc.ast -> T (iterative over nothing: recursion depth is raised by the runner)"""
    if isinstance(t, ua.Program):
        return convert(t.term)
    if isinstance(t, ua.Variable):
        return T(V, t.name, None, frozenset([t.name]))
    if isinstance(t, ua.BoundStateLambda):
        if t.state:
            raise EngineError("lambda with state")
        b = convert(t.term)
        return T(L, t.var_name, b, b.fv - {t.var_name})
    if isinstance(t, ua.BoundStateDelay):
        b = convert(t.term)
        return T(D, b, None, b.fv)
    if isinstance(t, ua.Apply):
        f, x = convert(t.f), convert(t.x)
        return T(A, f, x, f.fv | x.fv)
    if isinstance(t, ua.Force):
        b = convert(t.term)
        return T(F, b, None, b.fv)
    if isinstance(t, ua.ForcedBuiltIn):
        return T(B, t.builtin.name)
    if isinstance(t, ua.Error):
        return T(E)
    if isinstance(t, ua.Constant):
        return T(C, const(t))
    raise EngineError(f"term {type(t)}")


# ------------------------------------------------------------------ builtins
FORCES = {f.name: n for f, n in ua.BuiltInFunForceMap.items()}
ARITY = {f.name: e.__code__.co_argcount for f, e in ua.BuiltInFunEvalMap.items()}

BI = {}
UF = {}


def bi(*names):
    def deco(f):
        for n in names:
            BI[n] = f
        return f
    return deco


def need(c, what):
    if not c:
        raise Fail("type error: " + what)


def ints(*xs):
    for x in xs:
        need(is_int(x), f"int expected, got {type(x).__name__}")


def bys(*xs):
    for x in xs:
        need(is_bytes(x), f"bytes expected, got {type(x).__name__}")


def txt(*xs):
    for x in xs:
        need(is_text(x), f"text expected, got {type(x).__name__}")


def dat(*xs):
    for x in xs:
        need(is_data(x), f"data expected, got {type(x).__name__}")


def lst(*xs):
    for x in xs:
        need(isinstance(x, BL), f"list expected, got {type(x).__name__}")


@bi("AddInteger")
def _(x, y): ints(x, y); return i_add(x, y)
@bi("SubtractInteger")
def _(x, y): ints(x, y); return i_sub(x, y)
@bi("MultiplyInteger")
def _(x, y): ints(x, y); return i_mul(x, y)


def _nz(y):
    if truth(i_eq(y, 0)):
        raise Fail("division by zero")


@bi("DivideInteger")
def _(x, y): ints(x, y); _nz(y); return fdiv(x, y)
@bi("ModInteger")
def _(x, y): ints(x, y); _nz(y); return fmod(x, y)
@bi("QuotientInteger")
def _(x, y): ints(x, y); _nz(y); return tdiv(x, y)
@bi("RemainderInteger")
def _(x, y): ints(x, y); _nz(y); return x - tdiv(x, y) * y
@bi("EqualsInteger")
def _(x, y): ints(x, y); return i_eq(x, y)
@bi("LessThanInteger")
def _(x, y): ints(x, y); return i_lt(x, y)
@bi("LessThanEqualsInteger")
def _(x, y): ints(x, y); return i_le(x, y)
@bi("AppendByteString")
def _(x, y): bys(x, y); return s_concat(x, y)
@bi("ConsByteString")
def _(x, y): ints(x); bys(y); return b_cons(x, y)
@bi("SliceByteString")
def _(x, y, z): ints(x, y); bys(z); return s_slice(x, y, z)
@bi("LengthOfByteString")
def _(x): bys(x); return s_len(x)
@bi("IndexByteString")
def _(x, y): bys(x); ints(y); return s_index(x, y)
@bi("EqualsByteString")
def _(x, y): bys(x, y); return s_eq(x, y)
@bi("LessThanByteString")
def _(x, y): bys(x, y); return s_lt(x, y)
@bi("LessThanEqualsByteString")
def _(x, y): bys(x, y); return s_le(x, y)
@bi("AppendString")
def _(x, y): txt(x, y); return s_concat(x, y)
@bi("EqualsString")
def _(x, y): txt(x, y); return s_eq(x, y)
@bi("EncodeUtf8")
def _(x): txt(x); return utf8_encode(x)
@bi("DecodeUtf8")
def _(x): bys(x); return utf8_decode(x)


def ufun(name, *sorts):
    if name not in UF:
        UF[name] = z3.Function("uf_" + name, *sorts)
    return UF[name]


def concrete_builtin(name, *args):
    import uplc.ast as ua
    r = ua.BuiltInFunEvalMap[ua.BuiltInFun[name]](*[to_uplc(a) for a in args])
    return const(r)


def to_uplc(v):
    if isinstance(v, bool):
        return ua.BuiltinBool(v)
    if isinstance(v, int):
        return ua.BuiltinInteger(v)
    if isinstance(v, bytes):
        return ua.BuiltinByteString(v)
    if isinstance(v, str):
        return ua.BuiltinString(v)
    if isinstance(v, ua.PlutusData):
        return v
    if isinstance(v, BL):
        return ua.BuiltinList([to_uplc(x) for x in v.pre], ua.BuiltinInteger(0))
    raise EngineError(f"to_uplc {v}")


_HASH = {"Sha2_256": 32, "Sha3_256": 32, "Blake2b_256": 32, "Blake2b_224": 28, "Keccak_256": 32, "Ripemd_160": 20}
for _n in _HASH:
    def _h(x, _n=_n):
        bys(x)
        if isinstance(x, bytes):
            return concrete_builtin(_n, x)
        t = ufun(_n, IntSeq, IntSeq)(seq_of(x))
        assume(z3.Length(t) == _HASH[_n])
        return SB(seq=t)
    BI[_n] = _h


def _is_conc(*xs):
    return all(isinstance(x, (int, bool, bytes, str)) or (isinstance(x, BL) and x.tail is None and _is_conc(*x.pre)) for x in xs)


_SORT = {"i": z3.IntSort(), "b": IntSeq, "o": z3.BoolSort(), "l": z3.SeqSort(z3.IntSort())}


def generic_uf(name, sig, res, partial=True):
    """Uninterpreted builtin: same symbol on the Python side; may fail on an uninterpreted condition."""
    def f(*xs):
        for x, s in zip(xs, sig):
            {"i": ints, "b": bys, "o": lambda v: need(is_bool(v), "bool"), "l": lst}[s](x)
        if _is_conc(*xs):
            try:
                return concrete_builtin(name, *xs)
            except EngineError:
                raise
            except Exception as e:
                raise Fail(str(e))
        low = [{"i": _lowi, "b": seq_of, "o": KBool.lower, "l": lambda v: list_term(v, KInt)}[s](x) for x, s in zip(xs, sig)]
        if partial:
            ok = ufun(name + "_ok", *[_SORT[s] for s in sig], z3.BoolSort())(*low)
            if not truth(ok):
                raise Fail(name)
        t = ufun(name, *[_SORT[s] for s in sig], _SORT[res])(*low)
        return SB(seq=t) if res == "b" else t
    BI[name] = f


def _lowi(v):
    return v if is_sym(v) else z3.IntVal(v)


for _nm, _sig, _res, _p in [
    ("IntegerToByteString", "oii", "b", True), ("ByteStringToInteger", "ob", "i", False),
    ("AndByteString", "obb", "b", False), ("OrByteString", "obb", "b", False), ("XorByteString", "obb", "b", False),
    ("ComplementByteString", "b", "b", False), ("ShiftByteString", "bi", "b", False), ("RotateByteString", "bi", "b", False),
    ("CountSetBits", "b", "i", False), ("FindFirstSetBit", "b", "i", False), ("ReadBit", "bi", "o", True),
    ("WriteBits", "blo", "b", True), ("ReplicateByte", "ii", "b", True),
    ("VerifyEd25519Signature", "bbb", "o", True), ("VerifyEcdsaSecp256k1Signature", "bbb", "o", True),
    ("VerifySchnorrSecp256k1Signature", "bbb", "o", True),
]:
    generic_uf(_nm, _sig, _res, _p)


# ---- exact bit-level semantics on byte strings of known length (otherwise the uninterpreted function above)
def exact(name):
    old = BI[name]

    def deco(f):
        def g(*xs):
            r = f(*xs)
            return old(*xs) if r is None else r
        BI[name] = g
        return g
    return deco


def kvec(b):
    """symbolic bytes of known length, or None (also for entirely concrete ones: the real implementation runs)"""
    return b.vec if isinstance(b, SB) and b.vec is not None else None


def bits8(e):
    """the eight bits (0/1 terms, least significant first) of a byte; for a symbolic byte a decomposition e = sum 2^k b_k that is
    introduced once per path (it exists and is unique because bytes lie in 0..255)"""
    if isinstance(e, int):
        return [(e >> k) & 1 for k in range(8)]
    memo = K.P.notes.setdefault("bits", {})
    i = e.get_id()
    if i not in memo:
        bs = [z3.If(K.fresh_bool("bit"), z3.IntVal(1), z3.IntVal(0)) for _ in range(8)]
        K.assume(e == z3.Sum([2 ** k * b for k, b in enumerate(bs)]))
        memo[i] = (e, bs)
    return memo[i][1]


def bit(e, k):
    return bits8(e)[k]


def mkbyte(bs):
    """the byte with the given bits"""
    bs = [simp(b) for b in bs]
    e = sum(2 ** k * b for k, b in enumerate(bs))
    if is_sym(e):
        e = simp(e)
    if is_sym(e):
        K.P.notes.setdefault("bits", {})[e.get_id()] = (e, bs)
    return e


def bvec(b):
    return tuple(b) if isinstance(b, bytes) else kvec(b)


def mkbytes(es):
    return SB(vec=es) if any(is_sym(e) for e in es) else bytes(es)


def _bitpos(n, pos):
    """position of bit pos in a string of n bytes (forks on a symbolic position); out of range fails"""
    p = concretize(pos, 0, 8 * n - 1)
    if p is None:
        raise Fail("bit index out of range")
    return n - 1 - p // 8, p % 8


@exact("ReadBit")
def _(b, pos):
    bys(b); ints(pos)
    v = bvec(b)
    if v is None or len(v) > 8 or _is_conc(b, pos):
        return None
    i, k = _bitpos(len(v), pos)
    return bit(v[i], k) == 1


@exact("WriteBits")
def _(b, l, val):
    bys(b); lst(l); need(is_bool(val), "bool")
    v = bvec(b)
    if v is None or l.tail is not None or len(v) > 8 or _is_conc(b, l, val):
        return None
    v = list(v)
    nb = z3.If(val, 1, 0) if is_sym(val) else int(val)
    for pos in l.pre:
        ints(pos)
        i, k = _bitpos(len(v), pos)
        bs = list(bits8(v[i]))
        bs[k] = nb
        v[i] = mkbyte(bs)
    return mkbytes(v)


@exact("CountSetBits")
def _(b):
    bys(b)
    v = kvec(b)
    return None if v is None else sum(bit(e, k) for e in v for k in range(8))


@exact("FindFirstSetBit")
def _(b):
    bys(b)
    v = kvec(b)
    if v is None:
        return None
    r = z3.IntVal(-1)
    for i, e in enumerate(v):
        for k in range(7, -1, -1):
            r = z3.If(bit(e, k) == 1, z3.IntVal((len(v) - 1 - i) * 8 + k), r)
    return r


def _bitwise(name, f, fill):
    @exact(name)
    def _(pad, x, y):
        need(is_bool(pad), "bool"); bys(x, y)
        u, w = bvec(x), bvec(y)
        if u is None or w is None or _is_conc(pad, x, y):
            return None
        if truth(pad):
            n = max(len(u), len(w))
            u, w = u + (fill,) * (n - len(u)), w + (fill,) * (n - len(w))
        return mkbytes([mkbyte([f(bit(a, k), bit(b, k)) for k in range(8)]) for a, b in zip(u, w)])


_bitwise("AndByteString", lambda a, b: a * b if not (is_sym(a) and is_sym(b)) else z3.If(a == 1, b, 0), 255)
_bitwise("OrByteString", lambda a, b: a + b - a * b if not (is_sym(a) and is_sym(b)) else z3.If(a == 1, 1, b), 0)
_bitwise("XorByteString", lambda a, b: a + b - 2 * a * b if not (is_sym(a) and is_sym(b)) else z3.If(a == 1, 1 - b, b), 0)


@exact("ComplementByteString")
def _(b):
    bys(b)
    v = kvec(b)
    return None if v is None else mkbytes([255 - e for e in v])


@exact("ReplicateByte")
def _(n, v):
    ints(n, v)
    if is_sym(n):
        for m in range(5):
            if truth(n == m):
                n = m
                break
    if is_sym(n) or n > 16 or n < 0:
        return None
    if not is_sym(v):
        need(0 <= v <= 255, "byte")
        return bytes([v]) * n
    need(0 <= n and truth(z3.And(v >= 0, v <= 255)), "byte")
    return SB(vec=[v] * n) if n else b""


@exact("ByteStringToInteger")
def _(be, b):
    need(is_bool(be), "bool"); bys(b)
    v = kvec(b)
    if v is None:
        return None
    if not truth(be):
        v = tuple(reversed(v))
    r = 0
    for e in v:
        r = r * 256 + e
    return simp(r)


@exact("IntegerToByteString")
def _(be, width, n):
    need(is_bool(be), "bool"); ints(width, n)
    if not is_sym(n) or not isinstance(width, int) or width > 4:
        return None
    need(width >= 0 and truth(n >= 0), "range")
    if width == 0:
        for m in range(4):
            if truth(n < 256 ** m):
                break
        else:
            return None
    else:
        m = width
        need(truth(n < 256 ** m), "value too large for the width")
    es = [simp((n / 256 ** i) % 256) for i in range(m)]
    return mkbytes(list(reversed(es)) if truth(be) else es)


# ---- BLS12-381: elements of uninterpreted groups
GSORT = {k: z3.DeclareSort(k) for k in ("G1", "G2", "Ml")}


class Grp:
    __slots__ = ("t",)
    kind = None

    def __init__(self, t): self.t = t
    def __repr__(self): return f"{self.kind}({self.t})"
    def __eq__(self, o): return BI[f"Bls12_381_{self.kind}_Equal"](self, o)
    __hash__ = object.__hash__
    def __add__(self, o): return BI[f"Bls12_381_{self.kind}_Add"](self, o)
    def __neg__(self): return BI[f"Bls12_381_{self.kind}_Neg"](self)
    def scalar_mul(self, n): return BI[f"Bls12_381_{self.kind}_ScalarMul"](n, self)
    def compress(self): return BI[f"Bls12_381_{self.kind}_Compress"](self)
    def __mul__(self, o): return BI["Bls12_381_MulMlResult"](self, o)


class G1(Grp):
    __slots__ = ()
    kind = "G1"


class G2(Grp):
    __slots__ = ()
    kind = "G2"


class Ml(Grp):
    __slots__ = ()
    kind = "Ml"


GCLS = {"G1": G1, "G2": G2, "Ml": Ml}


def group_uf(name, sig, res, partial=False):
    so = lambda s: GSORT[s] if s in GSORT else _SORT[s]

    def f(*xs):
        low = []
        for x, s in zip(xs, sig):
            if s in GSORT:
                need(isinstance(x, GCLS[s]), s)
                low.append(x.t)
            elif s == "b":
                bys(x); low.append(seq_of(x))
            else:
                ints(x); low.append(_lowi(x))
        if partial and not truth(ufun(name + "_ok", *[so(s) for s in sig], z3.BoolSort())(*low)):
            raise Fail(name)
        if res == "o" and name.endswith("Equal"):
            return simp(low[0] == low[1])
        t = ufun(name, *[so(s) for s in sig], so(res))(*low)
        return GCLS[res](t) if res in GSORT else SB(seq=t) if res == "b" else t
    BI[name] = f


for _g in ("G1", "G2"):
    _q = "Bls12_381_" + _g + "_"
    group_uf(_q + "Add", [_g, _g], _g)
    group_uf(_q + "Neg", [_g], _g)
    group_uf(_q + "ScalarMul", ["i", _g], _g)
    group_uf(_q + "Equal", [_g, _g], "o")
    group_uf(_q + "Compress", [_g], "b")
    group_uf(_q + "Uncompress", ["b"], _g, True)
    group_uf(_q + "HashToGroup", ["b", "b"], _g, True)
group_uf("Bls12_381_MillerLoop", ["G1", "G2"], "Ml")
group_uf("Bls12_381_MulMlResult", ["Ml", "Ml"], "Ml")
group_uf("Bls12_381_FinalVerify", ["Ml", "Ml"], "o")


def mergeable(x, y):
    return (is_int(x) and is_int(y)) or (is_bool(x) and is_bool(y))


@bi("IfThenElse")
def _(c, x, y):
    need(is_bool(c), "bool")
    if isinstance(c, bool):
        return x if c else y
    c = simp(c)
    if isinstance(c, bool):
        return x if c else y
    if is_int(x) and is_int(y):
        return z3.If(c, x, y)
    if is_bool(x) and is_bool(y):
        return z3.If(c, KBool.lower(x), KBool.lower(y))
    return x if truth(c) else y


@bi("ChooseUnit")
def _(u, x): need(u is UNIT, "unit"); return x


@bi("Trace")
def _(m, x):
    txt(m)
    K.P.notes.setdefault("trace", []).append(m)
    return x


@bi("FstPair")
def _(p): need(isinstance(p, BP), "pair"); return p.a
@bi("SndPair")
def _(p): need(isinstance(p, BP), "pair"); return p.b


@bi("ChooseList")
def _(l, x, y):
    lst(l)
    return x if truth(is_null(l)) else y


def vkind(x):
    if is_data(x): return "data"
    if is_bool(x): return "bool"
    if is_int(x): return "int"
    if is_bytes(x): return "bytes"
    if is_text(x): return "text"
    if isinstance(x, BL): return "list"
    if isinstance(x, BP): return "pair"
    if x is UNIT: return "unit"
    return type(x).__name__


@bi("MkCons")
def _(x, l):
    lst(l)
    t = vtype(x)
    e = l.ety if l.ety is not None else vtype(l.pre[0]) if l.pre else None
    if t is not None and e is not None:
        need(t == e, "cons type")
    return BL((x,) + l.pre, l.tail, l.kind, e if e is not None else t)


@bi("HeadList")
def _(l):
    lst(l)
    r = uncons(l)
    if r is None:
        raise Fail("head of empty list")
    return r[0]


@bi("TailList")
def _(l):
    lst(l)
    r = uncons(l)
    if r is None:
        raise Fail("tail of empty list")
    return r[1]


@bi("NullList")
def _(l): lst(l); return is_null(l)


@bi("ChooseData")
def _(d, c, m, l, i, b):
    dat(d)
    d = view(d)
    return {DC: c, DM: m, DL: l, DI: i, DB: b}[type(d)]


def _all_data(l):
    lst(l)
    need(l.ety in (None, "data"), "list of data expected")
    for x in l.pre:
        need(is_data(x), "list of data expected")
    if l.tail is not None and isinstance(l.tail, UT):
        need(l.tail.view == "data", "list of data expected")
    elif l.tail is not None:
        need(l.kind is KData, "list of data expected")


@bi("ConstrData")
def _(t, l): ints(t); _all_data(l); return DC(t, l)
@bi("MapData")
def _(l):
    lst(l)
    need(l.ety in (None, "pair(data,data)"), "list of data pairs expected")
    for x in l.pre:
        need(isinstance(x, BP) and is_data(x.a) and is_data(x.b), "list of data pairs expected")
    return DM(l)
@bi("ListData")
def _(l): _all_data(l); return DL(l)
@bi("IData")
def _(x): ints(x); return DI(x)
@bi("BData")
def _(x): bys(x); return DB(x)


def _typed(l, e):
    return BL(l.pre, l.tail, l.kind, e)


def _un(d, cls):
    dat(d)
    d = view(d)
    if not isinstance(d, cls):
        raise Fail("wrong data constructor")
    return d


@bi("UnConstrData")
def _(d): d = _un(d, DC); return BP(d.tag, _typed(d.v, "data"))
@bi("UnMapData")
def _(d): return _typed(_un(d, DM).v, "pair(data,data)")
@bi("UnListData")
def _(d): return _typed(_un(d, DL).v, "data")
@bi("UnIData")
def _(d): return _un(d, DI).v
@bi("UnBData")
def _(d): return _un(d, DB).v
@bi("EqualsData")
def _(x, y): dat(x, y); return data_eq(x, y)
@bi("MkPairData")
def _(x, y): dat(x, y); return BP(x, y)
@bi("MkNilData")
def _(x): return BL((), ety="data")
@bi("MkNilPairData")
def _(x): return BL((), ety="pair(data,data)")


SERIAL = z3.Function("serialise", DataS, IntSeq)


def conc_data(d):
    def i(v):
        if isinstance(v, bool) or not isinstance(v, int):
            raise TypeError
        return v
    if isinstance(d, DI):
        return ua.PlutusInteger(i(d.v))
    if isinstance(d, DB):
        if not isinstance(d.v, bytes):
            raise TypeError
        return ua.PlutusByteString(d.v)
    if isinstance(d, DX) or d.v.tail is not None:
        raise TypeError
    if isinstance(d, DL):
        return ua.PlutusList(frozenlist([conc_data(x) for x in d.v.pre]))
    if isinstance(d, DC):
        return ua.PlutusConstr(i(d.tag), frozenlist([conc_data(x) for x in d.v.pre]))
    kv = [(conc_data(p.a), conc_data(p.b)) for p in d.v.pre]
    r = ua.PlutusMap({k: v for k, v in kv})
    if len(r.value) != len(kv):
        raise TypeError
    return r


def serialise(d):
    """On concrete data the real encoder runs; otherwise an uninterpreted function of the data."""
    try:
        u = conc_data(d)
    except TypeError:
        return SB(seq=SERIAL(data_term(d)))
    return concrete_builtin("SerialiseData", u)


@bi("SerialiseData")
def _(d):
    dat(d)
    return serialise(d)


def has_sym(v):
    return not _is_conc(v)


# ------------------------------------------------------------------ evaluator
class Machine:
    def __init__(self, hooks=None, max_steps=400000):
        self.hooks = hooks or {}
        self.steps = 0
        self.max_steps = max_steps

    def ev(self, t, env):
        while True:
            k = t.k
            if k == V:
                try:
                    return env[t.a]
                except KeyError:
                    raise Fail(f"free variable {t.a}")
            if k == C:
                return t.a
            if k == L:
                return Clo(t, {n: env[n] for n in t.fv if n in env})
            if k == D:
                return Dly(t.a, {n: env[n] for n in t.fv if n in env})
            if k == B:
                return PAp(t.a)
            if k == E:
                raise Fail("error term")
            self.steps += 1
            if self.steps > self.max_steps:
                raise Incomplete("step limit")
            if k == F:
                f = self.ev(t.a, env)
                if isinstance(f, Dly):
                    t, env = f.t, f.env
                    continue
                if isinstance(f, PAp):
                    if f.forces < FORCES.get(f.f, 0):
                        return PAp(f.f, f.forces + 1, f.args)
                raise Fail("force of non-delayed value")
            # application
            f = self.ev(t.a, env)
            x = self.ev(t.b, env)
            if isinstance(f, Clo):
                h = self.hooks.get(id(f.t)) if self.hooks else None
                if h is not None:
                    r = h(self, f, x)
                    if r is not None:
                        return r
                lam = f.t
                env = dict(f.env)
                env[lam.a] = x
                t = lam.b
                continue
            if isinstance(f, PAp):
                return self.apply_builtin(f, x)
            raise Fail(f"application of a non-function")

    def apply(self, f, x):
        if isinstance(f, Clo):
            env = dict(f.env)
            env[f.t.a] = x
            return self.ev(f.t.b, env)
        if isinstance(f, PAp):
            return self.apply_builtin(f, x)
        raise Fail("application of a non-function")

    def apply_builtin(self, f, x):
        if f.forces != FORCES.get(f.f, 0):
            raise Fail("unforced builtin")
        args = f.args + (x,)
        if len(args) < ARITY[f.f]:
            return PAp(f.f, f.forces, args)
        fn = BI.get(f.f)
        if fn is None:
            raise EngineError(f"builtin {f.f} not modelled")
        r = fn(*args)
        return simp(r) if isinstance(r, z3.ExprRef) else r


def run(term, args, hooks=None, max_steps=400000):
    """Apply a converted closed term to data arguments; returns value or raises Fail."""
    m = Machine(hooks, max_steps)
    f = m.ev(term, {})
    for a in args:
        f = m.apply(f, a)
    return f
