"""C07 data objects and unions."""
from .common import *

META = dict(level="translation_validation", explanation="Construction, field access, equality, class tests and serialisation of data objects: for every class shape of the universe (field "
            "counts 0..9, constructor ids on all sides of the encoding boundaries, every field type) and every union shape the emitted code equals the Python dataclass "
            "for all field values; integers, booleans and byte strings in fields are unbounded, containers inside fields are bounded as stated.")

CIDS = [0, 1, 2, 6, 7, 8, 102, 127, 128, 1279, 1280, 1400, 2 ** 32]


def cls(name, cid, fields):
    return f"@dataclass()\nclass {name}(PlutusData):\n    CONSTR_ID = {cid}\n" + "".join(f"    {n}: {t}\n" for n, t in fields) + "\n"


H0 = IMP + cls("E", 0, []) + cls("A", 1, [("x", "int"), ("y", "bytes")]) + cls("B", 2, [("y", "bytes"), ("x", "int"), ("z", "int")]) + cls("C", 3, [("x", "int"), ("w", "int")]) \
    + cls("D", 4, [("x", "bytes"), ("u", "Union[A, B]")]) + cls("F", 5, [("d", "int")])
FT = {"int": "{v}.f{i} + 1", "bytes": "{v}.f{i} + b'!'", "str": "{v}.f{i}.encode()", "bool": "(1 if {v}.f{i} else 2)", "List[int]": "len({v}.f{i})", "List[bytes]": "{v}.f{i}", "Dict[int, bytes]": "{v}.f{i}.get(1, b'none')",
      "A": "{v}.f{i}.x", "Union[A, B]": "{v}.f{i}.x", "Union[int, bytes]": "{v}.f{i}", "List[A]": "{v}.f{i}[0].x", "Dict[bytes, Dict[bytes, int]]": "len({v}.f{i})", "Anything": "{v}.f{i}",
      "List[List[int]]": "{v}.f{i}[0]", "List[bool]": "{v}.f{i}", "Dict[bytes, bool]": "{v}.f{i}.values()"}
FR = {"int": "int", "bytes": "bytes", "str": "bytes", "bool": "int", "List[int]": "int", "List[bytes]": "List[bytes]", "Dict[int, bytes]": "bytes", "A": "int", "Union[A, B]": "int", "Union[int, bytes]": "Union[int, bytes]",
      "List[A]": "int", "Dict[bytes, Dict[bytes, int]]": "int", "Anything": "Anything", "List[List[int]]": "List[int]", "List[bool]": "List[bool]", "Dict[bytes, bool]": "List[bool]"}
PYFIELD = {t for t in FT if t not in ("str", "bool", "List[bool]", "Dict[bytes, bool]")}


def progs(tier):
    ps = []
    big = tier == "thorough"
    sq = dict(gen=dict(bytes_len="seq", list_len=1, dict_len=1))
    cf = ["O0", "O1", "O2", "O3"]
    two = ["O0", "O2"]
    # ------------------------------------------------------------ constructor ids
    for c in CIDS:
        h = IMP + cls("R", c, [("a", "int"), ("b", "bytes")]) + cls("S", c + 1, [("b", "bytes"), ("a", "int")])
        ps.append(P(f"construct id {c}", "a: int, b: bytes", "R", "R(a, b)", h, cfgs=two, **sq))
        ps.append(P(f"CONSTR_ID {c}", "r: R", "int", "r.CONSTR_ID * 2", h, cfgs=["O2"], **sq))
        ps.append(P(f"isinstance id {c}", "r: Union[R, S]", "int", "if isinstance(r, R):\n    return r.a\nelse:\n    return -r.a", h, cfgs=two, **sq))
        ps.append(P(f"isinstance id {c} second", "r: Union[R, S]", "bool", "isinstance(r, S)", h, cfgs=["O2"], **sq))
        ps.append(P(f"union field id {c}", "r: Union[R, S]", "bytes", "r.b", h, cfgs=["O2"], **sq))
        ps.append(P(f"equality id {c}", "r: R, a: int, b: bytes", "bool", "r == R(a, b)", h, cfgs=["O2"], **sq))
        ps.append(P(f"to_cbor id {c}", "r: R", "bytes", "r.to_cbor()", h, cfgs=["O2"], gen=dict(bytes_len="seq")))
    # ------------------------------------------------------------ number and position of fields
    for n in range(0, 10):
        fs = [(f"f{i}", "int" if i % 2 == 0 else "bytes") for i in range(n)]
        h = IMP + cls("R", 3, fs)
        sig = ", ".join(f"{a}: {t}" for a, t in fs) or "f0: int"
        ps.append(P(f"construct {n} fields", sig, "R", f"R({', '.join(a for a, _ in fs)})", h, cfgs=two, **sq))
        for i in range(n):
            ps.append(P(f"field {i} of {n}", "r: R", fs[i][1], f"r.f{i}", h, cfgs=["O0", "O2"] if n in (1, 2, 5, 9) else ["O2"], **sq))
            if n in (2, 4):
                ps.append(P(f"field {i} of constructed {n}", sig, fs[i][1], f"R({', '.join(a for a, _ in fs)}).f{i}", h, cfgs=["O2"], **sq))
        if n:
            perm = list(reversed(range(n)))
            ps.append(P(f"swap fields {n}", "r: R", "R", f"R({', '.join(f'r.f{i}' for i in (perm if n % 2 else [j ^ 1 if False else j for j in range(n)]))})", h, cfgs=["O2"], **sq))
    # ------------------------------------------------------------ every field type: read, build, rebuild, compare
    gg = dict(bytes_len=1, text_len=1, list_len=1, dict_len=1)
    for T, e in FT.items():
        if T not in PYFIELD:
            continue                     # the Python data class itself rejects these field types
        h = H0 + cls("R", 9, [("f0", "int"), ("f1", T), ("f2", "bytes")])
        ps.append(P(f"read {T}", "r: R", FR[T], e.format(v="r", i=1), h, gen=gg, cfgs=cf, time_limit=40, max_paths=2000))
        ps.append(P(f"raw read {T}", "r: R", T, "r.f1", h, gen=gg, cfgs=two, time_limit=40, max_paths=2000))
        ps.append(P(f"build {T}", f"a: {T}, b: bytes", "R", "R(len(b), a, b)", h, gen=gg, cfgs=two, time_limit=40, max_paths=2000))
        ps.append(P(f"rebuild {T}", "r: R", "R", "R(r.f0 + 1, r.f1, r.f2 + b'x')", h, gen=gg, cfgs=two, time_limit=40, max_paths=2000))
        ps.append(P(f"nested read {T}", "r: Q", FR[T], e.format(v="r.r", i=1), h + cls("Q", 10, [("k", "bytes"), ("r", "R")]), gen=dict(gg, bytes_len=[1]), cfgs=["O2"], time_limit=40, max_paths=2000))
        ps.append(P(f"compare {T}", "r: R, s: R", "bool", "r == s", h, gen=dict(gg, bytes_len=[1], list_len=[1], dict_len=[1], inner=[1]), cfgs=["O2"], time_limit=40, max_paths=2000, native_ok="Anything" not in T))
        ps.append(P(f"compare rebuilt {T}", "r: R", "bool", "R(r.f0, r.f1, r.f2) == r", h, gen=gg, cfgs=["O2"], time_limit=40, max_paths=2000, native_ok="Anything" not in T))
        ps.append(P(f"to_cbor {T}", "r: R", "bytes", "r.to_cbor()", h, gen=dict(gg, bytes_len=[1]), cfgs=["O2"], time_limit=40, max_paths=2000))
    # ------------------------------------------------------------ equality
    U = ["A", "B", "C", "E"]
    for a in U:
        ps.append(P(f"{a} == {a}", f"r: {a}, s: {a}", "bool", "r == s", H0, cfgs=cf, **sq))
        ps.append(P(f"{a} != {a}", f"r: {a}, s: {a}", "bool", "r != s", H0, cfgs=cf, **sq))
        ps.append(P(f"{a} == Union", f"r: {a}, s: Union[A, B, C, E]", "bool", "r == s", H0, cfgs=two, **sq))
        ps.append(P(f"Union == {a}", f"r: {a}, s: Union[A, B, C, E]", "bool", "s == r", H0, cfgs=two, **sq))
        ps.append(P(f"Union != {a}", f"r: {a}, s: Union[A, B, C, E]", "bool", "s != r", H0, cfgs=two, **sq))
    ps.append(P("Union == Union", "r: Union[A, B, E], s: Union[B, C, E]", "bool", "r == s", H0, cfgs=two, **sq))
    ps.append(P("Union != Union", "r: Union[A, B], s: Union[A, B]", "bool", "r != s", H0, cfgs=two, **sq))
    ps.append(P("A in list", "r: A, s: List[A]", "bool", "r in s", H0, cfgs=two, gen=dict(bytes_len="seq", list_len=2)))
    ps.append(P("A not in list of union", "r: A, s: List[Union[A, B]]", "bool", "r not in s", H0, cfgs=two, gen=dict(bytes_len="seq", list_len=2)))
    ps.append(P("union in list", "r: Union[A, B], s: List[Union[A, B]]", "bool", "r in s", H0, cfgs=two, gen=dict(bytes_len="seq", list_len=2)))
    ps.append(P("index of record", "r: A, s: List[A]", "int", "s.index(r)", H0, cfgs=two, gen=dict(bytes_len="seq", list_len=2)))
    ps.append(P("compare nested", "r: D, s: D", "bool", "r == s", H0, cfgs=two, **sq))
    ps.append(P("compare nested != ", "r: D, s: D", "bool", "r.u != s.u", H0, cfgs=two, **sq))
    ps.append(P("compare lists of records", "r: List[A], s: List[A]", "bool", "r == s", H0, cfgs=two, gen=dict(bytes_len="seq", list_len=2)))
    ps.append(P("dict keyed by record", "r: Dict[A, int], k: A", "int", "r[k]", H0, cfgs=two, gen=dict(bytes_len="seq", dict_len=2), native_ok=False))
    # ------------------------------------------------------------ unions: common fields at different positions, class tests
    for us in (["A", "B"], ["A", "C"], ["B", "C"], ["A", "B", "C"], ["C", "B", "A"], ["B", "A"]):
        un = f"Union[{', '.join(us)}]"
        ps.append(P(f"{un}.x", f"r: {un}", "int", "r.x", H0, cfgs=two, **sq))
        ps.append(P(f"{un} CONSTR_ID", f"r: {un}", "int", "r.CONSTR_ID", H0, cfgs=two, **sq))
        ps.append(P(f"{un}.to_cbor", f"r: {un}", "bytes", "r.to_cbor()", H0, cfgs=["O2"], **sq))
        for c in us:
            ps.append(P(f"isinstance({un}, {c})", f"r: {un}", "bool", f"isinstance(r, {c})", H0, cfgs=two, **sq))
            ps.append(P(f"not isinstance({un}, {c})", f"r: {un}", "int", f"if not isinstance(r, {c}):\n    return r.x\nreturn r.x * 3", H0, cfgs=two, **sq))
            ps.append(P(f"narrow {un} to {c}", f"r: {un}", c, f"assert isinstance(r, {c})\nreturn r", H0, cfgs=two, **sq))
    # many members: the field x at position pos[i] of the i-th member, constructor ids in any order
    for pos in ([0, 1, 0, 1], [0, 0, 1, 1, 0, 1, 1], [1, 0, 0, 0, 1, 1, 1, 1], [0, 1, 2, 0, 1, 2, 2], [2, 1, 0, 2, 2, 1, 1, 0, 0, 2], [3, 0, 0, 0, 0, 3, 3, 3], [0, 6, 0, 6, 6, 6, 0], [4, 4, 4, 4, 4], [0, 1, 2, 3, 4, 5, 6, 7]):
        ids = [(7 * i + 3) % (len(pos) + 5 if (len(pos) + 5) % 7 else len(pos) + 6) for i in range(len(pos))]
        w = max(pos) + 1
        h = IMP + "".join(cls(f"M{i}", c, [("x" if j == q else f"f{(i + j) % w}_{j}", "int") for j in range(w)]) for i, (q, c) in enumerate(zip(pos, ids)))
        un = f"Union[{', '.join(f'M{i}' for i in range(len(pos)))}]"
        ps.append(P(f"field positions {pos}", f"r: {un}", "int", "r.x", h, cfgs=cf, **sq))
        ps.append(P(f"field positions {pos} reversed", f"r: Union[{', '.join(f'M{i}' for i in reversed(range(len(pos))))}]", "int", "r.x + 1", h, cfgs=two, **sq))
        ps.append(P(f"ids {pos}", f"r: {un}", "int", "r.CONSTR_ID * 100 + r.x", h, cfgs=two, **sq))
        ps.append(P(f"rest {pos}", f"r: {un}", "int", "if isinstance(r, M1) or isinstance(r, M2):\n    return -r.x\nreturn r.x", h, cfgs=two, **sq))
        ps.append(P(f"last {pos}", f"r: {un}", "bool", f"isinstance(r, M{len(pos) - 1})", h, cfgs=two, **sq))
    ps.append(P("Union[A, B].y", "r: Union[A, B]", "bytes", "r.y", H0, cfgs=cf, **sq))
    ps.append(P("Union[A, D].x differing types", "r: Union[A, D]", "Anything", "r.x", H0, cfgs=two, **sq))
    ps.append(P("union chain", "r: Union[A, B, C, E]", "int", "if isinstance(r, A):\n    return r.x\nelif isinstance(r, B):\n    return r.z\nelif isinstance(r, C):\n    return r.w\nelse:\n    return r.CONSTR_ID - 1", H0, cfgs=cf, **sq))
    ps.append(P("union nested field", "r: D", "int", "r.u.x", H0, cfgs=cf, **sq))
    ps.append(P("union nested narrow", "r: D", "int", "u = r.u\nif isinstance(u, B):\n    return u.z\nreturn u.x", H0, cfgs=cf, **sq))
    for prim, T in (("int", "Union[A, int]"), ("bytes", "Union[E, bytes]"), ("int", "Union[A, int, bytes]"), ("bytes", "Union[int, bytes]"), ("int", "Union[bytes, int]")):
        ps.append(P(f"isinstance({T}, {prim})", f"r: {T}", "bool", f"isinstance(r, {prim})", H0, cfgs=cf, **sq))
        ps.append(P(f"narrow {T} to {prim}", f"r: {T}", prim, f"assert isinstance(r, {prim})\nreturn r", H0, cfgs=cf, **sq))
    for prim, T in (("List", "Union[A, int, List[Anything]]"), ("Dict", "Union[A, bytes, Dict[Anything, Anything]]"), ("A", "Union[A, int, List[Anything], Dict[Anything, Anything], bytes]"), ("int", "Union[A, int, List[Anything], Dict[Anything, Anything], bytes]"),
                    ("List", "Union[A, int, List[Anything], Dict[Anything, Anything], bytes]"), ("Dict", "Union[A, int, List[Anything], Dict[Anything, Anything], bytes]"), ("bytes", "Union[A, int, List[Anything], Dict[Anything, Anything], bytes]")):
        ps.append(P(f"isinstance({T}, {prim})", f"r: {T}", "bool", f"isinstance(r, {prim})", H0, cfgs=two, gen=dict(bytes_len="seq", list_len=1, dict_len=1), native_ok=False))
    ps.append(P("isinstance of record", "r: A", "bool", "isinstance(r, A)", H0, cfgs=two, **sq))
    ps.append(P("union mixed prim record", "r: Union[A, int]", "int", "if isinstance(r, A):\n    return r.x\nreturn r + 1", H0, cfgs=cf, **sq))
    ps.append(P("union in list loop", "r: List[Union[A, B]]", "int", "s = 0\nfor e in r:\n    if isinstance(e, A):\n        s += e.x\n    else:\n        s += e.z * 2\nreturn s", H0, cfgs=two, gen=dict(bytes_len="seq", list_len=2)))
    ps.append(P("union comp", "r: List[Union[A, B]]", "List[int]", "[e.x for e in r if isinstance(e, A)]", H0, cfgs=two, gen=dict(bytes_len="seq", list_len=2)))
    ps.append(P("record through function", "a: int, b: bytes", "int", "def f(q: A) -> int:\n    return q.x * len(q.y)\nreturn f(A(a, b))", H0, cfgs=two, **sq))
    ps.append(P("union through function", "r: Union[A, B]", "bytes", "def f(q: Union[A, B, D]) -> bytes:\n    if isinstance(q, D):\n        return q.x\n    return q.y\nreturn f(r)", H0, cfgs=two, **sq))
    ps.append(P("construct with union field", "a: int, b: bytes", "D", "D(b, A(a, b) if a > 3 else B(b, a, a))", H0, cfgs=two, **sq))
    ps.append(P("variable of union type", "a: int, b: bytes", "int", "u: Union[A, B] = A(a, b)\nif a > 3:\n    u = B(b, a + 1, a)\nreturn u.x", H0, cfgs=two, **sq))
    # ------------------------------------------------------------ operator overloads and methods
    M = IMP + '''
@dataclass()
class V(PlutusData):
    CONSTR_ID = 0
    x: int
    y: int

    def __add__(self, other: "V") -> "V":
        return V(self.x + other.x, self.y + other.y)

    def __eq__(self, other: "V") -> bool:
        return self.x == other.x

    def __lt__(self, other: "V") -> bool:
        return self.x * self.y < other.x * other.y

    def norm1(self) -> int:
        return abs(self.x) + abs(self.y)

    def scale(self, k: int) -> "V":
        return V(self.x * k, self.y * k)

    def __neg__(self) -> "V":
        return V(-self.x, -self.y)

'''
    M = M.replace('"V"', "Self").replace("from typing import", "from typing import Self,")
    for nm, sig, ret, body in [("add", "a: V, b: V", "V", "a + b"), ("eq", "a: V, b: V", "bool", "a == b"), ("ne", "a: V, b: V", "bool", "a != b"), ("lt", "a: V, b: V", "bool", "a < b"),
                               ("method", "a: V", "int", "a.norm1()"), ("method arg", "a: V, k: int", "V", "a.scale(k)"), ("chain", "a: V, b: V, k: int", "int", "(a + b).scale(k).norm1()"),
                               ("neg", "a: V", "V", "-a"), ("method on constructed", "k: int", "int", "V(k, 2).scale(3).y")]:
        ps.append(P(f"overload {nm}", sig, ret, body, M, cfgs=two))
    ps.append(P("overload eq in list", "a: V, b: List[V]", "bool", "a in b", M, cfgs=["O2"], gen=dict(list_len=1)))
    ps.append(P("overload eq list comparison", "a: List[V], b: List[V]", "bool", "a == b", M, cfgs=["O2"], gen=dict(list_len=1)))
    ps.append(P("overload eq list index", "a: V, b: List[V]", "int", "b.index(a)", M, cfgs=["O2"], gen=dict(list_len=1)))
    W = (M + """
@dataclass()
class W(PlutusData):
    CONSTR_ID = 1
    x: int
    l: List[int]

    def __contains__(self, k: int) -> bool:
        return k in self.l

    def __rsub__(self, k: int) -> int:
        return k - self.x

    def __bool__(self) -> bool:
        return self.x > 5

    def __mul__(self, o: Union[int, bytes]) -> int:
        if isinstance(o, int):
            return self.x * o
        return len(o)

    def __gt__(self, o: int) -> bool:
        return self.x > o

    def __ne__(self, o: Self) -> bool:
        return self.x + o.x != 0

""").replace("Union[int, bytes]) ->", "Union[int, bytes]) ->")
    for nm, sig, ret, body in [("contains", "w: W, k: int", "bool", "k in w"), ("not contains", "w: W, k: int", "bool", "k not in w"), ("rsub", "w: W, k: int", "int", "k - w"), ("not", "w: W", "bool", "not w"),
                               ("mul int", "w: W, k: int", "int", "w * k"), ("gt int", "w: W, k: int", "bool", "w > k"), ("own ne", "w: W, v: W", "bool", "w != v"), ("default eq beside own ne", "w: W, v: W", "bool", "w == v"),
                               ("chained", "w: W, k: int, l: int", "bool", "w > k > l"), ("chained operand once", "w: W, k: int", "bool", "k in w != w" if False else "w > k >= 3")]:
        ps.append(P(f"overload {nm}", sig, ret, body, W, cfgs=two, gen=dict(list_len=1)))
    ps.append(P("comparison method returning int is no bool", "a: T, b: T", "bool", "a < b", H0 + "@dataclass()\nclass T(PlutusData):\n    CONSTR_ID = 0\n    x: int\n\n    def __lt__(self, o: int) -> int:\n        return o\n\n", reject=True))
    ps.append(P("comparison method of other operand type", "a: T, b: T", "bool", "a < b", H0 + "@dataclass()\nclass T(PlutusData):\n    CONSTR_ID = 0\n    x: int\n\n    def __lt__(self, o: int) -> bool:\n        return self.x < o\n\n", reject=True))
    ps.append(P("class without CONSTR_ID", "a: int", "R", "R(a)", IMP + "@dataclass()\nclass R(PlutusData):\n    a: int\n\n", cfgs=two))
    return ps


def tasks(tier, seed):
    return prog_tasks(progs(tier), tier, seed)
