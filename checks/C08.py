"""C08 integrity check."""
import random
import uplc.ast as ua
from frozenlist2 import frozenlist
from vf import kernel as K
from vf.vals import *
from vf.abi import fields_of, ann_to_type
from vf.prog import rand_data
from .common import *

META = dict(level="translation_validation", explanation="For every declared type of the universe the script produced for check_integrity is shown to succeed on a data value exactly when a recursive "
            "specification of well-formedness (constructor id, exact field count, every field well-formed, map keys distinct) holds, for data of every shape up to the stated size "
            "(wrong kinds, wrong constructor, missing and additional fields included, at every nesting level); integers, constructor ids and byte strings are unbounded.")

WF_LIST, WF_MAP = 2, 2


def wf(T, d):
    """specification: d is well-formed for the declared type T"""
    if T == "Any":
        return True
    if T in ("int", "bool"):
        return isinstance(d, DI)
    if T in ("bytes", "str"):
        return isinstance(d, DB)
    k = T[0]
    if k == "List":
        return b_and(*[wf(T[1], e) for e in d.v.pre]) if isinstance(d, DL) else False
    if k == "Dict":
        if not isinstance(d, DM):
            return False
        r = [b_and(wf(T[1], p.a), wf(T[2], p.b)) for p in d.v.pre]
        r += [b_not(data_eq(p.a, q.a)) for i, p in enumerate(d.v.pre) for q in d.v.pre[i + 1:]]
        return b_and(*r)
    if k == "Rec":
        if not isinstance(d, DC):
            return False
        fs = fields_of(T[1])
        if len(fs) != len(d.v.pre):
            return False
        return b_and(i_eq(d.tag, T[1].CONSTR_ID), *[wf(ft, e) for (_, ft), e in zip(fs, d.v.pre)])
    if k == "Union":
        return b_or(*[wf(U, d) for U in T[1:]])
    raise K.EngineError(f"wf {T}")


def members(T):
    return list(T[1:]) if not isinstance(T, str) and T[0] == "Union" else [T]


def junk(k, name):
    if k == 0:
        return DI(K.fresh_int(name))
    if k == 1:
        return DB(SB(seq=bytes_seq(name)))
    if k == 2:
        return DC(K.fresh_int(name + "tag"), BL(()))
    if k == 3:
        return DL(BL(()))
    return DM(BL(()))


def bytes_seq(name):
    return z3.Const(K.P.fresh_name(name), IntSeq)


def near(T, name, faults, lvl=0):
    """every data value whose shape agrees with T except at up to `faults` places"""
    opts = [U for U in members(T)]
    n = len(opts)
    c = K.choose(n + 1) if faults[0] > 0 else K.choose(n)
    if c == n:                                   # a value of another kind (or an empty container)
        faults[0] -= 1
        return junk(K.choose(5), name)
    U = opts[c]
    if U == "Any":
        return DX(z3.Const(K.P.fresh_name(name), DataS))
    if U in ("int", "bool"):
        return DI(K.fresh_int(name))
    if U in ("bytes", "str"):
        return DB(SB(seq=bytes_seq(name)))
    if U[0] == "List":
        return DL(BL(tuple(near(U[1], f"{name}_{i}", faults, lvl + 1) for i in range(K.choose(WF_LIST + 1 - (lvl > 0))))))
    if U[0] == "Dict":
        return DM(BL(tuple(BP(near(U[1], f"{name}_k{i}", faults, lvl + 1), near(U[2], f"{name}_v{i}", faults, lvl + 1)) for i in range(K.choose(WF_MAP + 1 - (lvl > 0))))))
    fs = fields_of(U[1])
    tag = K.fresh_int(name + "tag")
    if any(ft == "Any" for _, ft in fs):         # an opaque field is not looked into, so no other member may claim it
        for V in opts:
            if V is not U and not isinstance(V, str) and V[0] == "Rec":
                K.assume(b_not(i_eq(tag, V[1].CONSTR_ID)))
    if faults[0] > 0:
        v = K.choose(4)                            # exact, one missing, one or two extra
        k = len(fs) + (0, -1, 1, 2)[v]
        if v:
            faults[0] -= 1
    else:
        k = len(fs)
    out = []
    for i in range(k):
        out.append(near(fs[i][1], f"{name}.{fs[i][0]}", faults, lvl) if i < len(fs) else junk(K.choose(2), name + "x"))
    return DC(tag, BL(tuple(out)))


def near_rand(T, rng, depth=0):
    if rng.random() < .07:
        return rand_data("Any", rng)
    if T == "Any":
        return rand_data("Any", rng)
    if isinstance(T, str):
        return rand_data(T, rng)
    if T[0] == "Union":
        return near_rand(rng.choice(T[1:]), rng, depth)
    if T[0] == "List":
        return ua.PlutusList(frozenlist([near_rand(T[1], rng, depth + 1) for _ in range(rng.randrange(4))]))
    if T[0] == "Dict":
        return ua.PlutusMap({near_rand(T[1], rng, depth + 1): near_rand(T[2], rng, depth + 1) for _ in range(rng.randrange(4))})
    fs = [near_rand(ft, rng, depth + 1) for _, ft in fields_of(T[1])]
    r = rng.random()
    if r < .08 and fs:
        fs.pop(rng.randrange(len(fs)))
    elif r < .16:
        fs.insert(rng.randrange(len(fs) + 1), rand_data("int", rng))
    elif r < .2:
        rng.shuffle(fs)
    tag = T[1].CONSTR_ID if rng.random() < .9 else rng.choice([0, 1, 2, 3, 4, 5, T[1].CONSTR_ID + 1])
    return ua.PlutusConstr(tag, frozenlist(fs))


HDR = IMP + '''from opshin.std.integrity import check_integrity

@dataclass()
class E(PlutusData):
    CONSTR_ID = 0

@dataclass()
class A(PlutusData):
    CONSTR_ID = 1
    x: int
    y: bytes

@dataclass()
class B(PlutusData):
    CONSTR_ID = 2
    y: bytes
    z: int
    w: int

@dataclass()
class C(PlutusData):
    CONSTR_ID = 130
    a: A
    u: Union[A, E]

@dataclass()
class L(PlutusData):
    CONSTR_ID = 4
    l: List[int]
    m: List[A]

@dataclass()
class M(PlutusData):
    CONSTR_ID = 5
    d: Dict[int, bytes]
    e: Dict[bytes, A]

@dataclass()
class N(PlutusData):
    CONSTR_ID = 6
    n: Dict[bytes, Dict[bytes, int]]

@dataclass()
class Q(PlutusData):
    CONSTR_ID = 7
    q: List[List[int]]
    u: Union[int, bytes]

@dataclass()
class P(PlutusData):
    CONSTR_ID = 8
    any: Anything
    x: int

@dataclass()
class R(PlutusData):
    CONSTR_ID = 9
    u: Union[A, int, List[Anything], Dict[Anything, Anything]]

@dataclass()
class S(PlutusData):
    CONSTR_ID = 10
    u: List[Union[A, B]]

@dataclass()
class T(PlutusData):
    CONSTR_ID = 11
    u: Dict[Union[int, bytes], Union[A, bytes]]

@dataclass()
class W(PlutusData):
    CONSTR_ID = 12
    c: C
    t: bytes

@dataclass()
class X(PlutusData):
    CONSTR_ID = 13
    a: int
    b: bytes
    c: int
    d: bytes
    e: int

@dataclass()
class Y(PlutusData):
    CONSTR_ID = 14
    k: Dict[A, int]
    ll: List[Dict[int, bytes]]

'''


def mk(name, ann, body=None, ret=None, arg="x: {ann}", target=None, faults=2, result=None, cfgs=("O0", "O2"), hdr=HDR, sel=None, **kw):
    """check_integrity on a value declared `ann`; the specification is wf(ann)"""
    body = body or "check_integrity(x)\nreturn x"
    ret = ret or ann

    def Tt(ns):
        return ann_to_type(eval(ann, dict(ns)), ns)

    def ref(ns, ds):
        ok = wf(Tt(ns), ds[0]) if sel is None else sel(ns, ds[0], Tt(ns))
        if K.truth(ok):
            return "ok", (ds[0] if result is None else result(ns, ds[0]))
        return "fail", "not well-formed"
    return P(name, arg.format(ann=ann), ret, body, hdr, cfgs=cfgs, ref=ref, gens=lambda ns: [near(Tt(ns), "x", [faults])],
             rand=lambda ns, rng: [near_rand(Tt(ns), rng)], time_limit=60, max_paths=6000, concrete=60,
             note=f"data of the declared shape with up to {faults} places of another kind, field count or constructor; lists up to {WF_LIST}, maps up to {WF_MAP} entries, containers inside containers up to one", **kw)


UNIT = lambda ns, d: DC(0, BL(()))


def progs(tier):
    ps = []
    deep = 1 if tier == "thorough" else 0
    cf = ["O0", "O1", "O2", "O3"]
    for T, f in [("E", 3), ("A", 3), ("B", 3), ("C", 1 + deep), ("L", 1 + deep), ("M", 1 + deep), ("N", 1 + deep), ("Q", 1 + deep), ("P", 3), ("R", 2), ("S", 1 + deep), ("T", 1 + deep), ("W", 1 + deep), ("X", 2), ("Y", 1 + deep)]:
        ps.append(mk(f"record {T}", T, faults=f, cfgs=cf if T in "EAX" else ("O0", "O2")))
        if T in "EABP" or deep:
            ps.append(mk(f"record {T} returning nothing", T, body="check_integrity(x)", ret="None", result=UNIT, faults=1, cfgs=["O2"]))
    for T in ["Union[A, B]", "Union[A, E]", "Union[E, A, B]", "Union[A, int]", "Union[bytes, int]", "Union[A, bytes]", "Union[A, B, int, bytes]", "Union[A, List[Anything]]", "Union[A, Dict[Anything, Anything]]",
              "Union[A, int, List[Anything], Dict[Anything, Anything], bytes]", "Union[C, L]", "Union[P, Q]"]:
        ps.append(mk(f"union {T}", T, faults=2 if T not in ("Union[C, L]", "Union[P, Q]") else 1))
    # where and how it is called
    ps.append(mk("in a function", "A", body="def f(a: A) -> int:\n    check_integrity(a)\n    return 1\nf(x)\nreturn x"))
    ps.append(mk("value used afterwards", "A", body="check_integrity(x)\nreturn x.x", ret="int", result=lambda ns, d: d.v.pre[0], cfgs=cf))
    ps.append(mk("twice", "A", body="check_integrity(x)\ncheck_integrity(x)\nreturn x"))
    ps.append(mk("renamed import", "A", body="ci(x)\nreturn x", hdr=HDR.replace("import check_integrity", "import check_integrity as ci")))
    ps.append(mk("unused afterwards", "A", body="check_integrity(x)\nreturn 5", ret="int", result=lambda ns, d: DI(5), cfgs=cf))
    ps.append(mk("in a branch", "A", body="if x.CONSTR_ID == 1:\n    check_integrity(x)\nreturn x", cfgs=["O0", "O2"], sel=lambda ns, d, T: b_and(isinstance(d, DC), b_or(b_not(i_eq(d.tag, 1)), wf(T, d))) if isinstance(d, DC) else False, faults=2))
    ps.append(mk("field of a record", "C", body="check_integrity(x.a)\nreturn 1", ret="int", result=lambda ns, d: DI(1), faults=1,
                 sel=lambda ns, d, T: b_and(isinstance(d, DC) and len(d.v.pre) >= 1 and wf(("Rec", ns["A"]), d.v.pre[0]))))
    ps.append(mk("union field of a record", "C", body="check_integrity(x.u)\nreturn 1", ret="int", result=lambda ns, d: DI(1), faults=1,
                 sel=lambda ns, d, T: b_and(isinstance(d, DC) and len(d.v.pre) >= 2 and b_or(wf(("Rec", ns["A"]), d.v.pre[1]), wf(("Rec", ns["E"]), d.v.pre[1])))))
    ps.append(mk("in a loop over a list", "List[A]", body="for e in x:\n    check_integrity(e)\nreturn x", faults=2))
    ps.append(mk("constructed object", "A", body="y = A(5, b'a')\ncheck_integrity(y)\nreturn y", result=lambda ns, d: DC(1, BL((DI(5), DB(b"a")))), sel=lambda ns, d, T: True, faults=0))
    return ps


def tasks(tier, seed):
    return prog_tasks(progs(tier), tier, seed)
