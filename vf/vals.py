"""Value domain shared by both semantics (Python side and UPLC side), and the primitive operations on it.

Concrete values are native Python values; symbolic ones are z3 terms or the wrapper classes below.
  integers   int | z3 Int               (mathematical integers on both sides: Python int and UPLC integer are unbounded)
  booleans   bool | z3 Bool
  bytes      bytes | SB                 SB.vec: known length, symbolic bytes;  SB.seq: z3 Seq(Int), any length
  text       str | ST                   same with code points; utf8 encoding is computed (vec) or an uninterpreted bijection (seq)
  lists      BL(prefix, tail, kind)     tail: z3 Seq of unknown length or None
  data       DI DB DL DM DC | DX        DX: arbitrary data (z3 algebraic data type)
"""
import z3
from . import kernel as K
from .kernel import Fail, EngineError, truth, assume, is_sym

IntSeq = z3.SeqSort(z3.IntSort())


# ------------------------------------------------------------------ data sort
_D = z3.Datatype("Data")
_Pr = z3.Datatype("DPair")
_dref, _pref = z3.DatatypeSort("Data"), z3.DatatypeSort("DPair")
_D.declare("I", ("iv", z3.IntSort()))
_D.declare("B", ("bv", IntSeq))
_D.declare("L", ("lv", z3.SeqSort(_dref)))
_D.declare("M", ("mv", z3.SeqSort(_pref)))
_D.declare("C", ("tag", z3.IntSort()), ("fields", z3.SeqSort(_dref)))
_Pr.declare("P", ("fst", _dref), ("snd", _dref))
DataS, PairS = z3.CreateDatatypes(_D, _Pr)
DataSeq, PairSeq = z3.SeqSort(DataS), z3.SeqSort(PairS)

UTF8 = z3.Function("utf8", IntSeq, IntSeq)
UNUTF8 = z3.Function("unutf8", IntSeq, IntSeq)
UTF8OK = z3.Function("utf8ok", IntSeq, z3.BoolSort())
LEX = z3.Function("lexlt", IntSeq, IntSeq, z3.BoolSort())


class SB:
    __slots__ = ("vec", "seq")

    def __init__(self, vec=None, seq=None):
        self.vec = tuple(vec) if vec is not None else None
        self.seq = seq

    def __repr__(self):
        return f"SB({self.vec if self.vec is not None else self.seq})"

    def __eq__(self, o):
        raise EngineError("native == on symbolic bytes")
    __hash__ = object.__hash__

    def __bool__(self):
        raise EngineError("native bool on symbolic bytes")


class ST:
    __slots__ = ("vec", "seq")

    def __init__(self, vec=None, seq=None):
        self.vec = tuple(vec) if vec is not None else None
        self.seq = seq

    def __repr__(self):
        return f"ST({self.vec if self.vec is not None else self.seq})"

    def __eq__(self, o):
        raise EngineError("native == on symbolic text")
    __hash__ = object.__hash__

    def __bool__(self):
        raise EngineError("native bool on symbolic text")


# ------------------------------------------------------------------ ints
def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, z3.ArithRef))


def is_bool(x):
    return isinstance(x, (bool, z3.BoolRef))


def simp(x):
    if isinstance(x, z3.ExprRef):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def fdiv(a, b):
    """Floor division, b known non-zero on this path."""
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    if isinstance(b, int):
        return a / b if b > 0 else (-a) / (-b)
    a = z3.IntVal(a) if isinstance(a, int) else a
    return z3.If(b > 0, a / b, (-a) / (-b))


def fmod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    if isinstance(b, int) and b > 0:
        return a % b
    if isinstance(b, int):
        return -((-a) % (-b))
    a = z3.IntVal(a) if isinstance(a, int) else a
    return z3.If(b > 0, a % b, -((-a) % (-b)))


def tdiv(a, b):
    """Truncated division."""
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    aa = i_ite(i_lt(a, 0), i_neg(a), a)
    bb = i_ite(i_lt(b, 0), i_neg(b), b)
    q = fdiv(aa, bb)
    same = b_iff(i_lt(a, 0), i_lt(b, 0))
    return i_ite(same, q, i_neg(q))


def i_add(a, b): return a + b
def i_sub(a, b): return a - b
def i_mul(a, b): return a * b
def i_neg(a): return -a


def i_eq(a, b):
    return a == b


def i_lt(a, b):
    return a < b


def i_le(a, b):
    return a <= b


def i_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return z3.If(c, a, b)


def b_not(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def b_and(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def b_or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def b_iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else b_not(b)
    if isinstance(b, bool):
        return a if b else b_not(a)
    return a == b


def concretize(i, lo, hi):
    """Fork until i is a known integer; i is known to lie in [lo, hi] or falls outside (returns None)."""
    i = simp(i)
    if isinstance(i, int):
        return i if lo <= i <= hi else None
    for v in range(lo, hi + 1):
        if truth(i == v):
            return v
    return None


# ------------------------------------------------------------------ byte strings / text as vectors or sequences
def _vec(x):
    if isinstance(x, bytes):
        return tuple(x)
    if isinstance(x, str):
        return tuple(map(ord, x))
    return x.vec


def _norm(cls, vec):
    vec = tuple(simp(v) for v in vec)
    if all(isinstance(v, int) for v in vec):
        if cls is SB:
            return bytes(vec)
        return "".join(map(chr, vec))
    return cls(vec=vec)


def _cls(x):
    return SB if isinstance(x, (bytes, SB)) else ST


def seq_of(x):
    """The z3 Seq(Int) term for bytes/text content."""
    if isinstance(x, (SB, ST)) and x.seq is not None:
        return x.seq
    v = _vec(x)
    if not v:
        return z3.Empty(IntSeq)
    us = [z3.Unit(e if is_sym(e) else z3.IntVal(e)) for e in v]
    return us[0] if len(us) == 1 else z3.Concat(*us)


def known_len(x):
    return _vec(x) is not None


def s_len(x):
    v = _vec(x)
    if v is not None:
        return len(v)
    return z3.Length(x.seq)


def s_concat(x, y):
    vx, vy = _vec(x), _vec(y)
    c = _cls(x)
    if vx is not None and vy is not None:
        return _norm(c, vx + vy)
    if vx == ():
        return y
    if vy == ():
        return x
    return c(seq=z3.Concat(seq_of(x), seq_of(y)))


def s_slice(start, n, x):
    """UPLC sliceByteString(start, n, x) = x[max(start,0):][:max(n,0)]"""
    v = _vec(x)
    start, n = simp(start), simp(n)
    if v is not None:
        L = len(v)
        if not isinstance(start, int):
            if truth(start <= 0):
                start = 0
            elif truth(start >= L):
                start = L
            else:
                start = concretize(start, 1, L - 1)
        start = max(start, 0)
        rest = v[start:]
        if not isinstance(n, int):
            if truth(n <= 0):
                n = 0
            elif truth(n >= len(rest)):
                n = len(rest)
            else:
                n = concretize(n, 1, len(rest) - 1)
        return _norm(_cls(x), rest[:max(n, 0)])
    L = z3.Length(x.seq)
    s = start if isinstance(start, int) else z3.If(start < 0, 0, start)
    if isinstance(start, int):
        s = max(start, 0)
    m = max(n, 0) if isinstance(n, int) else z3.If(n < 0, 0, n)
    # z3 extract(seq, off, len) yields empty when off >= length or len <= 0 and clamps the end
    return _cls(x)(seq=z3.SubSeq(x.seq, z3.IntVal(s) if isinstance(s, int) else s, z3.IntVal(m) if isinstance(m, int) else m))


def s_index(x, i):
    """element at 0 <= i < len, else Fail"""
    v = _vec(x)
    i = simp(i)
    if v is not None:
        L = len(v)
        if isinstance(i, int):
            if 0 <= i < L:
                return v[i]
            raise Fail("index")
        if truth(b_or(i < 0, i >= L)):
            raise Fail("index")
        # one term instead of a fork
        r = v[L - 1]
        r = r if is_sym(r) else z3.IntVal(r)
        for k in range(L - 2, -1, -1):
            r = z3.If(i == k, v[k] if is_sym(v[k]) else z3.IntVal(v[k]), r)
        return simp(r)
    L = z3.Length(x.seq)
    if truth(b_or(i < 0, i >= L)):
        raise Fail("index")
    e = x.seq[i if is_sym(i) else z3.IntVal(i)]
    if isinstance(x, SB):
        assume(z3.And(e >= 0, e <= 255))
    else:
        assume(z3.And(e >= 0, e <= 0x10FFFF))
    return e


def s_eq(x, y):
    vx, vy = _vec(x), _vec(y)
    if vx is not None and vy is not None:
        if len(vx) != len(vy):
            return False
        return b_and(*[(a == b) for a, b in zip(vx, vy) if not (a is b)])
    return seq_of(x) == seq_of(y)


def s_lt(x, y):
    """lexicographic <"""
    vx, vy = _vec(x), _vec(y)
    if vx is not None and vy is not None:
        r = len(vx) < len(vy)
        for a, b in reversed(list(zip(vx, vy))):
            lt, eq = a < b, a == b
            if isinstance(lt, bool) and isinstance(eq, bool):
                r = True if lt else (r if eq else False)
            else:
                r = b_or(lt, b_and(eq, r))
        return r
    a, b = seq_of(x), seq_of(y)
    # a strict total order, left otherwise uninterpreted
    assume(z3.And(z3.Not(z3.And(LEX(a, b), LEX(b, a))), z3.Implies(a == b, z3.And(z3.Not(LEX(a, b)), z3.Not(LEX(b, a)))),
                  z3.Implies(a != b, z3.Or(LEX(a, b), LEX(b, a)))))
    return LEX(a, b)


def s_le(x, y):
    return b_or(s_lt(x, y), s_eq(x, y))


def b_cons(i, x):
    if truth(b_or(i_lt(i, 0), i_lt(255, i))):
        raise Fail("byte range")
    v = _vec(x)
    if v is not None:
        return _norm(SB, (i,) + v)
    return SB(seq=z3.Concat(z3.Unit(i if is_sym(i) else z3.IntVal(i)), x.seq))


def is_bytes(x):
    return isinstance(x, (bytes, SB))


def is_text(x):
    return isinstance(x, (str, ST))


def utf8_encode(x):
    if isinstance(x, str):
        try:
            return x.encode("utf8")
        except UnicodeEncodeError:
            raise Fail("utf8")
    if x.vec is not None:
        out = []
        for c in x.vec:
            if truth(i_lt(c, 0x80)):
                out.append(c)
            elif truth(i_lt(c, 0x800)):
                out += [0xC0 + fdiv(c, 64), 0x80 + fmod(c, 64)]
            elif truth(i_lt(c, 0x10000)):
                out += [0xE0 + fdiv(c, 4096), 0x80 + fmod(fdiv(c, 64), 64), 0x80 + fmod(c, 64)]
            else:
                out += [0xF0 + fdiv(c, 262144), 0x80 + fmod(fdiv(c, 4096), 64), 0x80 + fmod(fdiv(c, 64), 64), 0x80 + fmod(c, 64)]
        return _norm(SB, out)
    return SB(seq=_utf8_seq(x.seq))


def _concat_parts(s):
    if s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        r = []
        for c in s.children():
            r += _concat_parts(c)
        return r
    return [s]


def _unit_val(p):
    if p.decl().kind() == z3.Z3_OP_SEQ_UNIT and z3.is_int_value(p.children()[0]):
        return p.children()[0].as_long()
    return None


def _cat(parts):
    parts = [p for p in parts if p.decl().kind() != z3.Z3_OP_SEQ_EMPTY]
    if not parts:
        return z3.Empty(IntSeq)
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def _utf8_seq(s):
    """utf8 is a homomorphism; literals are encoded, symbolic parts stay under the uninterpreted function."""
    out = []
    for p in _concat_parts(s):
        v = _unit_val(p)
        if v is not None:
            out += [z3.Unit(z3.IntVal(b)) for b in chr(v).encode("utf8")]
        elif p.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
            pass
        elif p.decl().eq(UNUTF8):
            out.append(p.children()[0])
        else:
            assume(z3.And(UNUTF8(UTF8(p)) == p, UTF8OK(UTF8(p)), (z3.Length(UTF8(p)) == 0) == (z3.Length(p) == 0),
                          z3.Length(UTF8(p)) >= z3.Length(p)))
            out.append(UTF8(p))
    return _cat(out)


def utf8_decode(x):
    if isinstance(x, bytes):
        try:
            return x.decode("utf8")
        except UnicodeDecodeError:
            raise Fail("utf8")
    if x.vec is not None:
        v, i, out = x.vec, 0, []

        def cont(j):
            if j >= len(v):
                raise Fail("utf8")
            if not truth(b_and(i_le(0x80, v[j]), i_lt(v[j], 0xC0))):
                raise Fail("utf8")
            return v[j] - 0x80
        while i < len(v):
            b = v[i]
            if truth(i_lt(b, 0x80)):
                out.append(b)
                i += 1
            elif truth(b_and(i_le(0xC2, b), i_lt(b, 0xE0))):
                out.append((b - 0xC0) * 64 + cont(i + 1))
                i += 2
            elif truth(b_and(i_le(0xE0, b), i_lt(b, 0xF0))):
                c = (b - 0xE0) * 4096 + cont(i + 1) * 64 + cont(i + 2)
                if truth(b_or(i_lt(c, 0x800), b_and(i_le(0xD800, c), i_le(c, 0xDFFF)))):
                    raise Fail("utf8")
                out.append(c)
                i += 3
            elif truth(b_and(i_le(0xF0, b), i_lt(b, 0xF5))):
                c = (b - 0xF0) * 262144 + cont(i + 1) * 4096 + cont(i + 2) * 64 + cont(i + 3)
                if truth(b_or(i_lt(c, 0x10000), i_lt(0x10FFFF, c))):
                    raise Fail("utf8")
                out.append(c)
                i += 4
            else:
                raise Fail("utf8")
        return _norm(ST, out)
    parts = _concat_parts(z3.simplify(x.seq))
    out, lit = [], []
    ok = True

    def flush():
        if lit:
            try:
                out.extend(z3.Unit(z3.IntVal(ord(c))) for c in bytes(lit).decode("utf8"))
            except UnicodeDecodeError:
                raise Fail("utf8")
            lit.clear()
    for p in parts:
        v = _unit_val(p)
        if v is not None:
            lit.append(v)
        elif p.decl().eq(UTF8):
            flush()
            out.append(p.children()[0])
        elif p.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
            pass
        else:
            ok = False
            break
    if ok:
        flush()
        return ST(seq=_cat(out))
    if not truth(UTF8OK(x.seq)):
        raise Fail("utf8")
    assume(z3.And(UTF8(UNUTF8(x.seq)) == x.seq, (z3.Length(UNUTF8(x.seq)) == 0) == (z3.Length(x.seq) == 0)))
    return ST(seq=UNUTF8(x.seq))


# ------------------------------------------------------------------ lists, pairs, data
class Kind:
    def __init__(self, name, sort, lift, lower):
        self.name, self.sort, self.lift, self.lower = name, sort, lift, lower


class BP:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __repr__(self):
        return f"BP({self.a},{self.b})"


class BL:
    """cons list: known prefix plus optional symbolic tail (z3 Seq term of sort kind.sort)"""
    __slots__ = ("pre", "tail", "kind", "ety")

    def __init__(self, pre=(), tail=None, kind=None, ety=None):
        # ety: the machine's element type (None when the list does not come from the machine)
        self.pre, self.tail, self.kind, self.ety = tuple(pre), tail, kind, ety

    def __repr__(self):
        return f"BL({list(self.pre)},{self.tail})"


class UT:
    """unknown rest of a list (see induct.py); view: 'data' or 'native' elements"""
    __slots__ = ("id", "T", "view")

    def __init__(self, id, T, view): self.id, self.T, self.view = id, T, view
    def __repr__(self): return f"UT({self.id},{self.view})"


class DI:
    __slots__ = ("v",)

    def __init__(self, v): self.v = v
    def __repr__(self): return f"I {self.v}"


class DB:
    __slots__ = ("v",)

    def __init__(self, v): self.v = v
    def __repr__(self): return f"B {self.v}"


class DL:
    __slots__ = ("v",)

    def __init__(self, v): self.v = v if isinstance(v, BL) else BL(v)
    def __repr__(self): return f"L {self.v}"


class DM:
    __slots__ = ("v",)

    def __init__(self, v): self.v = v if isinstance(v, BL) else BL(v)
    def __repr__(self): return f"M {self.v}"


class DC:
    __slots__ = ("tag", "v")

    def __init__(self, tag, v):
        self.tag, self.v = tag, (v if isinstance(v, BL) else BL(v))

    def __repr__(self): return f"C {self.tag} {self.v}"


class DX:
    """arbitrary data term"""
    __slots__ = ("t",)

    def __init__(self, t): self.t = t
    def __repr__(self): return f"DX {self.t}"


DATA = (DI, DB, DL, DM, DC, DX)


def is_data(x):
    return isinstance(x, DATA)


def _low_int(v):
    return v if is_sym(v) else z3.IntVal(v)


KInt = Kind("int", z3.IntSort(), lambda t: t, _low_int)
KBool = Kind("bool", z3.BoolSort(), lambda t: t, lambda v: v if is_sym(v) else z3.BoolVal(v))
KBytes = Kind("bytes", IntSeq, lambda t: SB(seq=t), seq_of)
KText = Kind("text", IntSeq, lambda t: ST(seq=t), seq_of)


def data_term(d):
    """z3 Data term of a data value"""
    if isinstance(d, DX):
        return d.t
    if isinstance(d, DI):
        return DataS.I(_low_int(d.v))
    if isinstance(d, DB):
        return DataS.B(seq_of(d.v))
    if isinstance(d, DL):
        return DataS.L(list_term(d.v, KData))
    if isinstance(d, DM):
        return DataS.M(list_term(d.v, KPair))
    if isinstance(d, DC):
        return DataS.C(_low_int(d.tag), list_term(d.v, KData))
    raise Fail(f"not data: {d}")


def pair_term(p):
    if not isinstance(p, BP):
        raise EngineError(f"pair_term of {p}")
    return PairS.P(data_term(p.a), data_term(p.b))


KData = Kind("data", DataS, lambda t: DX(t), data_term)
KPair = Kind("pair", PairS, lambda t: BP(DX(PairS.fst(t)), DX(PairS.snd(t))), pair_term)


def list_term(l, kind):
    parts = [z3.Unit(kind.lower(e)) for e in l.pre]
    if l.tail is not None:
        t = l.tail
        if l.kind.sort != kind.sort:
            raise EngineError("list kind mismatch")
        parts.append(t)
    if not parts:
        return z3.Empty(z3.SeqSort(kind.sort))
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def uncons(l):
    """-> None if empty else (head, tail)"""
    if l.pre:
        return l.pre[0], BL(l.pre[1:], l.tail, l.kind, l.ety)
    if l.tail is None:
        return None
    t = l.tail
    if isinstance(t, UT):
        p = K.P.notes["ind"].split(t)
        if p is None:
            return None
        (_, d, v), r = p
        return (d if t.view == "data" else v), BL((), UT(r.id, r.T, t.view), l.kind, l.ety)
    if truth(z3.Length(t) == 0):
        return None
    # deterministic lazy splitting t = h :: t'
    key = ("uncons", t.get_id())
    if key not in K.P.lazy:
        h = z3.Const(f"hd({t})" if len(str(t)) < 60 else K.P.fresh_name("hd"), l.kind.sort)
        r = z3.Const(f"tl({t})" if len(str(t)) < 60 else K.P.fresh_name("tl"), t.sort())
        K.P.lazy[key] = (h, r, t)
        assume(t == z3.Concat(z3.Unit(h), r))
        if l.kind is KInt and K.P.notes.get("bytes_list"):
            pass
    h, r, _ = K.P.lazy[key]
    return l.kind.lift(h), BL((), r, l.kind, l.ety)


def is_null(l):
    if l.pre:
        return False
    if l.tail is None:
        return True
    if isinstance(l.tail, UT):
        return K.P.notes["ind"].split(l.tail) is None
    return z3.Length(l.tail) == 0


def view(d):
    """Expand an arbitrary data value into a structured one (forks on the constructor)."""
    if not isinstance(d, DX):
        return d
    t = z3.simplify(d.t)
    if t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        n, c = t.decl().name(), t.children()
    else:
        key = ("view", t.get_id())
        if key in K.P.lazy:
            return K.P.lazy[key][0]
        if truth(DataS.is_C(t)):
            r = DC(DataS.tag(t), BL((), DataS.fields(t), KData))
        elif truth(DataS.is_M(t)):
            r = DM(BL((), DataS.mv(t), KPair))
        elif truth(DataS.is_L(t)):
            r = DL(BL((), DataS.lv(t), KData))
        elif truth(DataS.is_I(t)):
            r = DI(DataS.iv(t))
        else:
            assume(DataS.is_B(t))
            r = DB(SB(seq=DataS.bv(t)))
        K.P.lazy[key] = (r, t)
        return r
    if n == "I":
        return DI(simp(c[0]))
    if n == "B":
        return DB(SB(seq=c[0]))
    if n == "L":
        return DL(BL((), c[0], KData))
    if n == "M":
        return DM(BL((), c[0], KPair))
    return DC(simp(c[0]), BL((), c[1], KData))


def data_eq(x, y):
    if x is y:
        return True
    if isinstance(x, DX) and isinstance(y, DX):
        return x.t == y.t
    if isinstance(x, DX) or isinstance(y, DX):
        return data_term(x) == data_term(y)
    if type(x) is not type(y):
        return False
    if isinstance(x, DI):
        return x.v == y.v
    if isinstance(x, DB):
        return s_eq(x.v, y.v)
    if isinstance(x, DC):
        return b_and(i_eq(x.tag, y.tag), list_eq(x.v, y.v, data_eq, KData))
    if isinstance(x, DL):
        return list_eq(x.v, y.v, data_eq, KData)
    return list_eq(x.v, y.v, lambda p, q: b_and(data_eq(p.a, q.a), data_eq(p.b, q.b)), KPair)


def list_eq(x, y, eq, kind):
    if x.tail is None and y.tail is None:
        if len(x.pre) != len(y.pre):
            return False
        return b_and(*[eq(a, b) for a, b in zip(x.pre, y.pre)])
    n = min(len(x.pre), len(y.pre))
    if x.tail is not None and y.tail is not None and len(x.pre) == len(y.pre):
        return b_and(*[eq(a, b) for a, b in zip(x.pre, y.pre)], x.tail == y.tail)
    return list_term(x, kind) == list_term(y, kind)


# ------------------------------------------------------------------ slices as index arithmetic
def _extract_parts(t):
    """seq term -> (base, off, len) or None"""
    k = t.decl().kind()
    if k == z3.Z3_OP_SEQ_EXTRACT:
        return t.children()
    if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
        return [t, z3.IntVal(0), z3.Length(t)]
    if k == z3.Z3_OP_SEQ_EMPTY:
        return [None, z3.IntVal(0), z3.IntVal(0)]
    return None


def slice_arith(g):
    """A sufficient condition, in integer arithmetic over lengths only, for a goal that equates slices of one sequence;
    None if the goal has no such form."""
    k = g.decl().kind()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ITE) or (k == z3.Z3_OP_EQ and z3.is_bool(g.children()[0])):
        cs = []
        found = False
        for c in g.children():
            if z3.is_bool(c):
                s = slice_arith(c)
                if s is not None:
                    found = True
                    c = s
            cs.append(c)
        if not found or (k == z3.Z3_OP_EQ) or (k == z3.Z3_OP_ITE and slice_arith(g.children()[0]) is not None):
            return None
        return z3.And(*cs) if k == z3.Z3_OP_AND else (z3.Or(*cs) if k == z3.Z3_OP_OR else z3.If(*cs))
    if k == z3.Z3_OP_EQ and g.children()[0].sort() == IntSeq:
        a, b = (_extract_parts(x) for x in g.children())
        if a is None or b is None:
            return None
        if a[0] is None and b[0] is None:
            return z3.BoolVal(True)
        base = a[0] if a[0] is not None else b[0]
        if a[0] is not None and b[0] is not None and not a[0].eq(b[0]):
            return None
        n = z3.Length(base)

        def eff(p):
            if p[0] is None:
                return z3.IntVal(0), z3.IntVal(0)
            o, l = p[1], p[2]
            bad = z3.Or(o < 0, o >= n, l <= 0)
            return o, z3.If(bad, z3.IntVal(0), z3.If(l > n - o, n - o, l))
        (o1, l1), (o2, l2) = eff(a), eff(b)
        return z3.And(l1 == l2, z3.Or(l1 == 0, o1 == o2))
    return None


def _has_seq(e, seen=None):
    seen = seen if seen is not None else set()
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    if z3.is_seq(e) if hasattr(z3, "is_seq") else False:
        return True
    return any(_has_seq(c, seen) for c in e.children())


def abstract_lengths(es):
    """replace Length(const) by fresh non-negative integers; drop formulas that still mention sequences"""
    subst, side = [], []
    seen = {}

    def walk(e, vis):
        if e.get_id() in vis:
            return
        vis.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_SEQ_LENGTH and e.get_id() not in seen:
            v = z3.Int(f"len!{len(seen)}")
            seen[e.get_id()] = v
            subst.append((e, v))
            side.append(v >= 0)
            return
        for c in e.children():
            walk(c, vis)
    vis = set()
    for e in es:
        walk(e, vis)
    out = [z3.substitute(e, *subst) if subst else e for e in es]
    return [e for e in out if not _has_seq(e)] + side, subst


def lia_valid(pc, goal, timeout_ms=8000):
    s0 = slice_arith(goal)
    if s0 is None:
        return False
    es, subst = abstract_lengths(list(pc) + [z3.Not(s0)])
    neg = z3.substitute(z3.Not(s0), *subst) if subst else z3.Not(s0)
    if _has_seq(neg):
        return False
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*es)
    s.add(neg)
    return s.check() == z3.unsat
