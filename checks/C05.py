"""C05 rendering of values as text."""
from .common import *
from .C03 import REC

META = dict(level="translation_validation", explanation="str(), f-strings and print of every supported type: the emitted rendering code is shown to produce exactly Python's text "
            "for all values, with digit counts, byte-string/text lengths and container sizes bounded as stated.")

RECS = IMP + '''
@dataclass()
class E(PlutusData):
    CONSTR_ID = 0

@dataclass()
class A(PlutusData):
    CONSTR_ID = 1
    x: int
    y: bytes

@dataclass()
class W(PlutusData):
    CONSTR_ID = 2
    a: A
    items: List[int]
    m: Dict[int, bytes]

@dataclass()
class U(PlutusData):
    CONSTR_ID = 3
    u: Union[A, E]
    long_field_name: List[A]

@dataclass()
class S(PlutusData):
    CONSTR_ID = 4
    s: bytes
    n: List[bytes]
    b: int

'''


def codes(x):
    return list(x.vec) if hasattr(x, "vec") else [c if isinstance(c, int) else ord(c) for c in x]


def quotes_plain(b):
    """bytes without a single quote, or with both kinds of quotes"""
    from vf.vals import b_or, b_and, b_not, i_eq
    v = codes(b)
    sq, dq = b_or(*[i_eq(c, 39) for c in v]), b_or(*[i_eq(c, 34) for c in v])
    return b_or(b_not(sq), dq)


def plain_text(s):
    from vf.vals import b_or, b_and, b_not, i_eq, i_le
    return b_and(*[b_and(i_le(32, c), i_le(c, 126), b_not(i_eq(c, 39)), b_not(i_eq(c, 92))) for c in codes(s)])


def simple_bytes(b):
    from vf.vals import b_or, b_and, b_not, i_eq, i_le
    return b_and(*[b_and(i_le(32, c), i_le(c, 126), b_not(i_eq(c, 39)), b_not(i_eq(c, 92))) for c in codes(b)])


def lift(f):
    """precondition on every bytes/text inside the arguments"""
    from vf.vals import b_and

    def walk(v):
        import dataclasses
        from vf.abi import PDict
        from vf.vals import SB, ST
        if isinstance(v, (bytes, SB)):
            return f(v)
        if isinstance(v, (str, ST)):
            return plain_text(v)
        if isinstance(v, (list, tuple)):
            return b_and(*[walk(e) for e in v])
        if isinstance(v, PDict):
            return b_and(*[b_and(walk(a), walk(b)) for a, b in v.items])
        if isinstance(v, dict):
            return b_and(*[b_and(walk(a), walk(b)) for a, b in v.items()])
        if dataclasses.is_dataclass(v):
            return b_and(*[walk(getattr(v, f.name)) for f in dataclasses.fields(v)])
        return True
    return lambda *a: b_and(*[walk(x) for x in a])


PLAIN = lift(quotes_plain)
SIMPLE = lift(simple_bytes)     # byte rendering itself is under contract in the programs that use PLAIN
TOP = lambda *a: __import__("vf.vals", fromlist=["b_and"]).b_and(*[quotes_plain(x) for x in a])


def progs(tier):
    ps = []
    big = tier == "thorough"
    cf = ["O0", "O1", "O2", "O3"]
    d = 6 if big else 4
    kw = dict(time_limit=60, max_paths=4000)
    # ------------------------------------------------------------ ints, bools, None, text
    for f, n in (("str(x)", "str"), ("f'{x}'", "fstring")):
        ps.append(P(f"{n} int", "x: int", "str", f, cfgs=cf, bound=dict(digits=d), **kw))
        ps.append(P(f"{n} bool", "x: bool", "str", f, cfgs=cf))
        ps.append(P(f"{n} None", "x: None", "str", f))
        ps.append(P(f"{n} str", "x: str", "str", f, gen=dict(text_len=2), cfgs=cf))
        ps.append(P(f"{n} bytes", "x: bytes", "str", f, gen=dict(bytes_len=2), pre=TOP, cfgs=cf, **kw))
    for c in (0, 1, -1, 9, 10, -10, 99, 100, 101, 109, 999, 1000, 10 ** 20, -10 ** 20, 2 ** 64, 12345678901234567890, -1002003):
        ps.append(P(f"str {c}", "x: int", "str", f"str(x - x + ({c}))", cfgs=["O1"], bound=dict(digits=24)))
    ps.append(P("bytes quote both", "x: bytes", "str", "str(b\"'\" + x + b'\"')", gen=dict(bytes_len=1), cfgs=["O2"], **kw))
    ps.append(P("bytes long const", "x: int", "str", "str(b'\\x00\\x1f\\x20\\x7e\\x7f\\x80\\xff\\t\\n\\r\\\\\\x0b\"0a') + str(x > 3)", cfgs=cf))
    # known findings
    ps.append(P("str bytes with single quote", "x: int", "str", "str(b\"'\") + str(x > 3)", cfgs=["O0"]))
    ps.append(P("nested text with quote", "x: int", "str", "str([\"a'b\"]) + str(x > 3)", cfgs=["O0"]))
    ps.append(P("nested text with escape", "x: int", "str", "str(['a\\nb']) + str(x > 3)", cfgs=["O0"]))
    # ------------------------------------------------------------ f-strings
    ps.append(P("fstring mix", "x: int, y: bool, z: bytes", "str", "f'a{x}b{y}c{z}d'", bound=dict(digits=2), gen=dict(bytes_len=1), pre=lambda x, y, z: quotes_plain(z), **kw))
    ps.append(P("fstring braces", "x: int", "str", "f'{{{x}}}'", bound=dict(digits=2), **kw))
    ps.append(P("fstring expr", "x: int, y: int", "str", "f'{x + y}, {x < y}; {x}'", bound=dict(digits=2), **kw))
    ps.append(P("fstring adjacent", "x: str, y: str", "str", "f'{x}{y}' + f'é{y}€{x}'", gen=dict(text_len=1), **kw))
    ps.append(P("fstring constant", "x: int", "str", "f'abc' + str(x > 0)"))
    ps.append(P("fstring nested call", "x: int", "str", "f'{str(x)}-{hex(x)}'", bound=dict(digits=2), **kw))
    ps.append(P("concat str", "x: int, y: int", "str", "str(x) + ',' + str(y)", bound=dict(digits=2), **kw))
    # ------------------------------------------------------------ containers
    one = dict(bound=dict(digits=1))
    G = dict(bytes_len=1, text_len=1, text_ascii=True, list_len=2, dict_len=2, inner=[1])
    for T in ("int", "bytes", "str", "bool", "List[int]", "List[bytes]", "List[str]", "Dict[int, bytes]", "Dict[str, int]", "List[bool]"):
        g = dict(G)
        ps.append(P(f"str List[{T}]", f"x: List[{T}]", "str", "str(x)", gen=g, pre=SIMPLE if "[" in T else PLAIN, **one, **kw))
        if T in ("int", "bytes", "bool", "str"):
            ps.append(P(f"fstring List[{T}]", f"x: List[{T}]", "str", "f'<{x}>'", gen=g, pre=PLAIN, cfgs=["O2"], **one, **kw))
    for K in ("int", "bytes", "str", "bool"):
        for V in ("int", "bytes", "str", "bool", "List[int]", "Dict[int, bool]"):
            if "[" in V and K != "int":
                continue
            g = dict(G)
            if K == "str" or V == "str":
                g["text_len"] = [1]
            if K == "bytes" or V == "bytes":
                g["bytes_len"] = [1]
            ps.append(P(f"str Dict[{K}, {V}]", f"x: Dict[{K}, {V}]", "str", "str(x)", gen=g, pre=SIMPLE, cfgs=["O0", "O2"] if V == "int" else ["O2"], **one, **kw))
    ps.append(P("str tuple", "a: int, b: bytes, c: str, d: bool", "str", "str((a, b, c, d))", gen=dict(G, bytes_len=[1], text_len=[1]), pre=PLAIN, **one, **kw))
    ps.append(P("str tuple 1", "a: bytes", "str", "str((a,))", gen=G, pre=PLAIN, **kw))
    ps.append(P("str tuple 2", "a: bytes, b: int", "str", "f'{(a, b)}'", gen=G, pre=PLAIN, **one, **kw))
    ps.append(P("str tuple nested", "a: int, b: bool", "str", "str(((a, b), [a], (b,)))", **one, **kw))
    ps.append(P("str tuple 0", "a: int", "str", "str(()) + str(a > 0)", **one, **kw) if False else
              P("str pair", "x: Dict[int, bool]", "str", "r = ''\nfor p in x.items():\n    r = r + str(p)\nreturn r", gen=dict(dict_len=2), **one, **kw))
    ps.append(P("str list of tuple", "a: int, b: bool", "str", "str([(a, b), (a + 1, not b)])", **one, **kw) if False else
              P("str of keys", "x: Dict[int, bool]", "str", "r = ''\nfor p in x.keys():\n    r = r + str(p)\nreturn r", gen=dict(dict_len=2), **one, **kw))
    # every element type in every place of a container
    ts = ["int", "bytes", "str", "bool", "List[int]", "List[str]", "Dict[int, str]", "A", "Union[A, E]", "Union[int, bytes]"]
    for T in ts:
        g = dict(G, list_len=1, dict_len=1, inner=None)
        pre = PLAIN if T in ("int", "bytes", "str", "bool") else SIMPLE
        c2 = dict(one, cfgs=["O2"], pre=pre, gen=g, **kw)
        ps.append(P(f"pair with value {T}", f"x: Dict[int, {T}]", "str", "r = ''\nfor p in x.items():\n    r = r + str(p)\nreturn r", RECS, **c2))
        if T in ("bytes", "str", "bool", "A"):
            ps.append(P(f"pair with key {T}", f"x: Dict[{T}, int]", "str", "r = ''\nfor p in x.items():\n    r = r + f'{p}'\nreturn r", RECS, native_ok=T != "A", **c2))
        ps.append(P(f"dict of lists of {T}", f"x: Dict[int, List[{T}]]", "str", "str(x)", RECS, **c2))
        ps.append(P(f"tuple of {T}", f"x: {T}, b: bool", "str", "str((x,)) + str((b, x)) + f'{(x, b, x)}'", RECS, **c2))
        ps.append(P(f"list of {T} built", f"x: {T}, b: bool", "str", "str([x, x])", RECS, **c2))
        if T not in ("str", "bool", "List[str]", "Dict[int, str]"):
            for k in (0, 2):
                h = RECS + f"@dataclass()\nclass H(PlutusData):\n    CONSTR_ID = 6\n" + "".join(f"    f{i}: {T if i == k else 'int'}\n" for i in range(3)) + "\n"
                ps.append(P(f"field {k} of type {T}", f"x: {T}, n: int", "str", "str(H(" + ", ".join("x" if i == k else "n" for i in range(3)) + "))", h, **c2))
    # ------------------------------------------------------------ data objects
    ps.append(P("str E", "x: E", "str", "str(x)", RECS, cfgs=cf))
    ps.append(P("str A", "x: A", "str", "str(x)", RECS, gen=G, pre=PLAIN, cfgs=cf, **one, **kw))
    ps.append(P("fstring A", "x: A, y: E", "str", "f'{x}|{y}'", RECS, gen=G, pre=PLAIN, cfgs=["O2"], **one, **kw))
    ps.append(P("str W", "x: W", "str", "str(x)", RECS, gen=dict(G, bytes_len=[1], list_len=1, dict_len=1, inner=None), pre=SIMPLE, cfgs=["O0", "O2"], **one, **kw))
    ps.append(P("str U", "x: U", "str", "str(x)", RECS, gen=dict(G, bytes_len=[1], list_len=[1], inner=None), pre=SIMPLE, cfgs=["O0", "O2"], **one, **kw))
    ps.append(P("str S", "x: S", "str", "str(x)", RECS, gen=dict(G, text_len=[1], list_len=1, inner=None), pre=PLAIN, cfgs=["O0", "O2"], **one, **kw))
    ps.append(P("str union", "x: Union[A, E]", "str", "str(x)", RECS, gen=G, pre=PLAIN, cfgs=cf, **one, **kw))
    ps.append(P("str union int bytes", "x: Union[int, bytes]", "str", "str(x)", RECS, gen=G, pre=PLAIN, cfgs=cf, **one, **kw))
    ps.append(P("str union mixed", "x: Union[A, E, int, bytes]", "str", "str(x)", RECS, gen=G, pre=SIMPLE, cfgs=["O0", "O2"], **one, **kw))
    ps.append(P("str union prim", "x: Union[A, bytes, int]", "str", "str(x)", RECS, gen=dict(G, bytes_len=[1]), pre=PLAIN, cfgs=["O0", "O2"], **one, **kw))
    ps.append(P("str list of A", "x: List[A]", "str", "str(x)", RECS, gen=dict(G, bytes_len=[1]), pre=SIMPLE, cfgs=["O2"], **one, **kw))
    ps.append(P("str list of union", "x: List[Union[A, E]]", "str", "str(x)", RECS, gen=dict(G, bytes_len=[1]), pre=SIMPLE, cfgs=["O2"], **one, **kw))
    ps.append(P("str dict of A", "x: Dict[int, A]", "str", "str(x)", RECS, gen=dict(G, bytes_len=[1], dict_len=1), pre=SIMPLE, cfgs=["O2"], **one, **kw))
    ps.append(P("str dict keyed by A", "x: Dict[A, int]", "str", "str(x)", RECS, gen=dict(G, bytes_len=[1], dict_len=1), pre=SIMPLE, cfgs=["O2"], native_ok=False, **one, **kw))
    ps.append(P("str field", "x: W", "str", "str(x.a) + str(x.items) + str(x.m)", RECS, gen=dict(G, bytes_len=[1], list_len=1, dict_len=1, inner=None), pre=SIMPLE, cfgs=["O2"], **one, **kw))
    ps.append(P("str constructed", "x: int, y: bytes", "str", "str(U(A(x, y), [A(1, b'')]))", RECS, gen=G, pre=SIMPLE, **one, **kw))
    ps.append(P("str narrowed", "x: Union[A, E]", "str", "if isinstance(x, A):\n    return str(x)\nelse:\n    return 'e' + str(x)", RECS, gen=G, pre=SIMPLE, cfgs=["O0", "O2"], **one, **kw))
    # ------------------------------------------------------------ print (the text reaches the trace log)
    for T, gg in (("int", {}), ("bool", {}), ("str", dict(text_len=2)), ("bytes", dict(bytes_len=1)), ("List[int]", dict(list_len=2)), ("Dict[int, bool]", dict(dict_len=1))):
        ps.append(P(f"print {T}", f"x: {T}", "None", "print(x)", gen=gg, pre=TOP if T == "bytes" else None, trace=True, **one, **kw))
        ps.append(P(f"print two {T}", f"x: {T}, y: int", "int", "print(x, y > 1)\nprint('done')\nreturn y", gen=gg, pre=(lambda x, y: quotes_plain(x)) if T == "bytes" else None, trace=True, cfgs=["O0", "O2"], **one, **kw))
    ps.append(P("print A", "x: A", "None", "print('A is', x, 1)", RECS, gen=G, pre=PLAIN, trace=True, **one, **kw))
    return ps


def tasks(tier, seed):
    return prog_tasks(progs(tier), tier, seed)
