"""C03 lists, dictionaries, tuples."""
from .common import *
from . import lists

META = dict(level="translation_validation", explanation="For every supported element type, each container operation is compiled by the real compiler and the emitted "
            "script is shown equal to Python's operation for all element values, all indices and all lengths up to the stated bound; the index, slice bounds and "
            "elements themselves are unbounded. Comprehensions, in, ==, + and indexing of lists of integers, bytes and records are also discharged for "
            "lists of every length, by cutting the loop on both sides at its head (tasks \"(all lengths)\").")

REC = IMP + '''
@dataclass()
class A(PlutusData):
    CONSTR_ID = 1
    x: int
    y: bytes

@dataclass()
class B(PlutusData):
    CONSTR_ID = 2
    z: int

'''
# element type -> header, arithmetic-free literals of that type built from ints a, b
ELTS = {
    "int": ("", "7", "-1"),
    "bytes": ("", 'b"ab"', 'b""'),
    "str": ("", '"a€"', '""'),
    "bool": ("", "True", "False"),
    "A": (REC, 'A(1, b"q")', 'A(-5, b"")'),
    "List[int]": ("", "[1, 2]", "[3]"),
    "List[bytes]": ("", '[b"x"]', '[b""]'),
    "Dict[int, bytes]": ("", '{1: b"x"}', '{3: b"z"}'),
    "Union[A, B]": (REC, 'A(1, b"q")', "B(3)"),
    "Union[int, bytes]": (REC, "5", 'b"u"'),
    "Anything": (REC, "5", 'b"u"'),
    "List[List[int]]": ("", "[[1], [2, 3]]", "[[0]]"),
    "Dict[bytes, Dict[bytes, int]]": ("", '{b"p": {b"t": 1}}', '{b"": {b"": 2}}'),
}
SMALL = dict(bytes_len=1, text_len=1, list_len=3, dict_len=1)
TINY = dict(bytes_len=1, text_len=1, list_len=2, dict_len=1)


def gl(T, n=3, inner=None):
    if "List" in T or "Dict" in T:
        return dict(bytes_len=1 if inner is None else [1], text_len=1, list_len=n if inner is not None else 2, dict_len=1, inner=inner)
    if T == "str":
        return dict(bytes_len=1, text_len=1, text_ascii=True, list_len=n, exact=False)
    return dict(bytes_len=[1], text_len=[1], list_len=n, dict_len=1)


def progs(tier):
    ps = []
    big = tier == "thorough"
    N = 4 if big else 3
    for T, (H, l1, l2) in ELTS.items():
        g = gl(T, N, [1])
        gd = gl(T, N)
        slow = dict(time_limit=80, max_paths=2500)
        L = f"List[{T}]"
        # str elements with arbitrary text: contents checked elsewhere
        ps.append(P(f"{L} index", f"x: {L}, i: int", T, "x[i]", H, cfgs=["O0", "O0fa", "O2"], gen=g))
        ps.append(P(f"{L} slice", f"x: {L}, i: int, j: int", L, "x[i:j]", H, gen=g, cfgs=["O0", "O2"] if T == "int" else ["O2"], **slow))
        ps.append(P(f"{L} slice lo", f"x: {L}, i: int", L, "x[i:]", H, gen=g, cfgs=["O2"]))
        ps.append(P(f"{L} slice hi", f"x: {L}, i: int", L, "x[:i]", H, gen=g, cfgs=["O2"]))
        ps.append(P(f"{L} concat", f"x: {L}, y: {L}", L, "x + y", H, gen=gl(T, 2, [1])))
        ps.append(P(f"{L} len", f"x: {L}", "int", "len(x)", H, gen=g, cfgs=["O2"]))
        ps.append(P(f"{L} truth", f"x: {L}", "int", "return 1 if x else 2", H, gen=g, cfgs=["O2"]))
        ps.append(P(f"{L} not", f"x: {L}", "bool", "not x", H, gen=g, cfgs=["O2"]))
        ps.append(P(f"{L} iterate", f"x: {L}", T, f"r = x[0]\nfor e in x:\n    r = e\nreturn r", H, gen=gd))
        ps.append(P(f"{L} count", f"x: {L}", "int", f"r = 0\nfor e in x:\n    r += 1\nreturn r", H, gen=g, cfgs=["O2"]))
        ps.append(P(f"{L} comprehension id", f"x: {L}", L, "[e for e in x]", H, gen=gd))
        ps.append(P(f"{L} comprehension wrap", f"x: {L}", f"List[{L}]" if "Union" not in T else L,
                    "[[e] for e in x]" if "Union" not in T else "[e for e in x]", H, gen=gl(T, 2), cfgs=["O2"]))
        lit = f"[x, {l1}, x, {l2}]" if T not in ("Anything",) and not T.startswith("Union") else "[x, x]"
        ps.append(P(f"{L} literal", f"x: {T}", L, lit, H, gen=gl(T, 1)))
        if T not in ("Anything", "Union[int, bytes]", "Union[A, B]"):
            ps.append(P(f"{L} literal concat", f"x: {L}", L, f"[{l1}] + x + [{l2}]", H, gen=gl(T, 2), cfgs=["O2"]))
            ps.append(P(f"{L} const index", "i: int", T, f"[{l1}, {l2}, {l1}][i]", H))
        if T in ("int", "bytes", "str", "A", "bool"):
            ps.append(P(f"{L} index method", f"x: {L}, y: {T}", "int", "x.index(y)", H, gen=g, time_limit=60))
        if T in ("int", "bytes", "A", "Union[A, B]"):
            ps.append(P(f"{T} in {L}", f"x: {T}, y: {L}", "bool", "x in y", H, gen=g))
            ps.append(P(f"{T} not in {L}", f"x: {T}, y: {L}", "bool", "x not in y", H, gen=g))
        if not T.startswith("Dict"):      # comparing lists of dictionaries is rejected by the compiler
            ps.append(P(f"{L} == {L}", f"x: {L}, y: {L}", "bool", "x == y", H, gen=gl(T, 2) if T == "List[int]" else gl(T, 2, [1]), time_limit=60, max_paths=1500, cfgs=["O0", "O2"] if T == "int" else ["O2"]))
            ps.append(P(f"{L} != {L}", f"x: {L}, y: {L}", "bool", "x != y", H, gen=gl(T, 2, [1]), time_limit=60, max_paths=1500, cfgs=["O2"]))
        # dictionaries with this value type
        D = f"Dict[int, {T}]"
        g2 = dict(bytes_len=[1], text_len=[1], text_ascii=True, list_len=1, dict_len=2, inner=[1] if T.count("[") > 1 else None)
        ps.append(P(f"{D} getitem", f"x: {D}, k: int", T, "x[k]", H, gen=g2))
        ps.append(P(f"{D} get", f"x: {D}, k: int, d: {T}", T, "x.get(k, d)", H, gen=g2, time_limit=40))
        ps.append(P(f"{D} values", f"x: {D}", L, "x.values()", H, gen=g2, cfgs=["O2"]))
        ps.append(P(f"{D} items", f"x: {D}", L, f"r: {L} = []\nfor k, v in x.items():\n    r = r + [v] if k > 3 else r\nreturn r", H, gen=g2, cfgs=["O2"], time_limit=40))
        ps.append(P(f"{D} truth len", f"x: {D}", "int", "return len(x) + (1 if x else 0)", H, gen=g2, cfgs=["O2"]))
    for T in ("bytes", "A", "str", "List[int]", "bool", "Union[A, B]"):
        H = ELTS[T][0]
        D = f"Dict[{T}, int]"
        g2 = dict(bytes_len=[1], text_len=[1], text_ascii=True, list_len=[1], dict_len=2)
        nat = T in ("bytes", "str", "bool")
        ps.append(P(f"{D} getitem", f"x: {D}, k: {T}", "int", "x[k]", H, gen=g2, native_ok=nat, time_limit=40))
        ps.append(P(f"{D} get", f"x: {D}, k: {T}, d: int", "int", "x.get(k, d)", H, gen=g2, native_ok=nat, time_limit=40))
        ps.append(P(f"{D} keys", f"x: {D}", f"List[{T}]", "x.keys()", H, gen=g2, native_ok=nat))
        ps.append(P(f"{D} for keys", f"x: {D}", "int", "r = 0\nfor k in x.keys():\n    r = r * 3 + x[k]\nreturn r", H, gen=g2, native_ok=nat))
        ps.append(P(f"{D} items", f"x: {D}", "int", "r = 0\nfor k, v in x.items():\n    r = r * 3 + v\nreturn r", H, gen=g2, native_ok=nat))
    g = dict(list_len=N)
    I = "List[int]"
    for i in (0, 1, 2, 3, -1, -2, -4, 5, 9):
        ps.append(P(f"index {i}", f"x: {I}", "int", f"x[{i}]", gen=dict(list_len=6), cfgs=["O0", "O0fa", "O2", "O2fa3"]))
    for lo, hi in [("1", "2"), ("0", "3"), ("-2", ""), ("", "-1"), ("-3", "-1"), ("2", "1"), ("1", "-1"), ("5", "9"), ("-9", "2"), ("", ""), ("", "0"), ("-1", "")]:
        ps.append(P(f"slice {lo}:{hi}", f"x: {I}", I, f"x[{lo}:{hi}]", gen=dict(list_len=4)))
    ps.append(P("index fa", f"x: {I}, i: int", "int", "x[i]", gen=dict(list_len=7), cfgs=["O0", "O0fa", "O0fa5", "O2", "O2fa3"], time_limit=60))
    for st in ("-1", "2", "1", "s"):
        for lo, hi in (("", ""), ("1", ""), ("", "-1"), ("i", "j")):
            ps.append(P(f"slice step {lo}:{hi}:{st}", f"x: {I}, i: int, j: int, s: int", I, f"x[{lo}:{hi}:{st}]", gen=dict(list_len=3), cfgs=["O2"], may_reject=True))
    ps.append(P("index of slice", f"x: {I}, i: int", "int", "x[1:3][i]", gen=g))
    ps.append(P("slice of slice", f"x: {I}, i: int", I, "x[1:][:i]", gen=g))
    ps.append(P("aug concat", f"x: {I}, y: int", I, "x += [y]\nreturn x", gen=g))
    ps.append(P("nested index", "x: List[List[int]], i: int, j: int", "int", "x[i][j]", gen=dict(list_len=2)))
    ps.append(P("dict of dict", "x: Dict[bytes, Dict[bytes, int]], k: bytes, l: bytes", "int", "x[k][l]", gen=dict(bytes_len=[1], dict_len=2), time_limit=40))
    ps.append(P("dict of dict get", "x: Dict[bytes, Dict[bytes, int]], k: bytes, l: bytes", "int", "x.get(k, {b'': 0}).get(l, 5)", gen=dict(bytes_len=[1], dict_len=1), time_limit=40))
    ps.append(P("dict of dict sum", "x: Dict[bytes, Dict[bytes, int]]", "int",
                "r = 0\nfor p, ts in x.items():\n    for t, a in ts.items():\n        r += a * 2\nreturn r", gen=dict(bytes_len=[1], dict_len=2)))
    # comprehensions
    ps.append(P("comp map", f"x: {I}, k: int", I, "[e * k + 1 for e in x]", gen=g))
    ps.append(P("comp filter", f"x: {I}, k: int", I, "[e for e in x if e > k]", gen=g))
    ps.append(P("comp filter map", f"x: {I}, k: int", I, "[e - k for e in x if e % 2 == 0]", gen=g))
    ps.append(P("comp two ifs", f"x: {I}, k: int", I, "[e for e in x if e > 0 if e < k]", gen=g))
    ps.append(P("comp filter truthy", f"x: {I}", I, "[e + 1 for e in x if e]", gen=g))
    ps.append(P("comp bytes", "x: List[bytes]", I, "[len(e) for e in x]", gen=dict(bytes_len=2, list_len=2)))
    ps.append(P("comp to bytes", f"x: {I}", "List[bytes]", "[b'a' if e > 0 else b'' for e in x]", gen=g))
    ps.append(P("comp bools", f"x: {I}", "List[bool]", "[e > 3 for e in x]", gen=g))
    ps.append(P("comp nested", "x: List[List[int]]", I, "[sum([f + 1 for f in e]) for e in x]", gen=dict(list_len=2)))
    ps.append(P("comp range", "n: int", I, "[i * i for i in range(n)]", ints=list(range(-2, 8))))
    ps.append(P("comp shadow", f"x: {I}, e: int", "int", "y = [e + 1 for e in x]\nreturn e + len(y)", gen=g))
    ps.append(P("comp closure", f"x: {I}, k: int", I, "def f(a: int) -> int:\n    return a * k\nreturn [f(e) for e in x if f(e) > 3]", gen=dict(list_len=2)))
    ps.append(P("comp over dict items", "x: Dict[int, int]", I, "[v for k, v in x.items() if k > 0]" if False else "[v for v in x.values()]", gen=dict(dict_len=2)))
    ps.append(P("comp over keys", "x: Dict[int, int]", I, "[k + 1 for k in x.keys()]", gen=dict(dict_len=2)))
    ps.append(P("dictcomp", f"x: {I}", I, "d = {e: e * 2 for e in x}\nreturn [d[e] for e in x]", gen=dict(list_len=2)))
    ps.append(P("dictcomp filter", f"x: {I}, k: int", "int", "d = {e: e * 2 for e in x if e > k}\nreturn d.get(k + 1, -7)", gen=g))
    ps.append(P("dictcomp bytes", "x: List[bytes]", "int", "d = {e: len(e) for e in x}\nreturn d.get(b'a', -1)", gen=dict(bytes_len=2, list_len=2)))
    # dict literals
    ps.append(P("dict literal getitem", "a: int, b: int, k: int", "int", "{1: a, 2: b, 5: a + b}[k]"))
    ps.append(P("dict literal get", "a: int, b: int, k: int", "int", "{1: a, 2: b}.get(k, a - b)"))
    ps.append(P("dict literal sym keys", "a: int, b: int, k: int", "int", "{a: 1, b: 2}.get(k, 0)"))
    ps.append(P("dict literal dup", "a: int, k: int", "int", "{1: a, 1: a + 1, 2: 4}[k]"))
    ps.append(P("dict literal bytes keys", "a: bytes, k: bytes", "int", "{a: 1, b'x': 2}[k]", gen=dict(bytes_len=1)))
    ps.append(P("dict literal str values", "k: int", "str", "{1: 'a', 2: 'b€'}[k]"))
    # order of the entries, repeated keys (known findings, see known_findings.jsonl)
    ps.append(P("dict literal values order", "a: int, b: int", "List[int]", "{1: a, 2: b}.values()", cfgs=["O0"], native_ok=False))
    ps.append(P("dict comprehension repeated key", "a: int, b: int", "int", "d = {e: e + i for e in [a, b] for i in [1]}[a]" if False else
                "d = {e // 10: e for e in [a, b]}\nreturn d[a // 10]", cfgs=["O2"], native_ok=False))
    # equality of nested lists, tuples
    ps.append(P("list == literal", f"x: {I}", "bool", "x == [1, 2]", gen=g))
    ps.append(P("empty list", f"x: {I}", "bool", "y: List[int] = []\nreturn x == y", gen=g))
    ps.append(P("empty list grow", f"x: {I}", I, "y: List[int] = []\nfor e in x:\n    y = [e] + y\nreturn y", gen=g))
    ps.append(P("empty dict", "x: int", "int", "d: Dict[int, int] = {}\nreturn d.get(x, 4) + len(d)"))
    ps.append(P("tuple index", "a: int, b: bytes", "int", "t = (a, b, a + 1)\nreturn t[0] + t[2] * t[-1] + len(t[1])", gen=dict(bytes_len="seq")))
    ps.append(P("tuple neg index", "a: int, b: bytes", "bytes", "t = (a, b)\nreturn t[-1]", gen=dict(bytes_len="seq")))
    ps.append(P("tuple unpack", "a: int, b: int", "int", "x, y = b, a\nreturn x - y"))
    ps.append(P("tuple swap", "a: int, b: int", "int", "a, b = b, a\nreturn a - 2 * b"))
    ps.append(P("tuple swap3", "a: int, b: int, c: int", "int", "a, b, c = b, c, a\nreturn a - 2 * b + 5 * c"))
    ps.append(P("tuple nested", "a: int, b: bytes", "bytes", "t = ((a, b), (b, a))\nu = t[1]\nreturn u[0] + t[0][1]", gen=dict(bytes_len="seq")))
    ps.append(P("tuple unpack nested", "a: int, b: int", "int", "(x, y), z = (a, b), a * b\nreturn x - y + z"))
    ps.append(P("tuple of list", f"x: {I}", "int", "t = (x, len(x))\nr = 0\nfor e in t[0]:\n    r += e * t[1]\nreturn r", gen=g))
    ps.append(P("pair from items", "x: Dict[int, bytes]", "bytes", "r = b''\nfor p in x.items():\n    r = r + p[1] if p[0] > 2 else r\nreturn r", gen=dict(dict_len=2, bytes_len=[1])))
    ps.append(P("pair neg index", "x: Dict[int, bytes]", "bytes", "r = b''\nfor p in x.items():\n    r = r + p[-1] if p[-2] > 2 else r\nreturn r", gen=dict(dict_len=2, bytes_len=[1])))
    ps.append(P("items index", "x: Dict[int, int], i: int", "int", "p = x.items()[i]\nreturn p[0] * 10 + p[1]", gen=dict(dict_len=2), native_ok=False))
    ps.append(P("enumerate by range", f"x: {I}", "int", "r = 0\nfor i in range(len(x)):\n    r += i * x[i]\nreturn r", gen=g))
    ps.append(P("while index", f"x: {I}, k: int", "int", "i = 0\nwhile i < len(x) and x[i] != k:\n    i += 1\nreturn i", gen=g))
    ps.append(P("list in list lookup", "x: List[bytes], y: List[int], k: bytes", "int", "return y[x.index(k)]", gen=dict(bytes_len=[1], list_len=2)))
    ps.append(P("list of bool", "x: List[bool]", "bool", "r = True\nfor e in x:\n    r = r and e\nreturn r", gen=g))
    ps.append(P("list of str concat", "x: List[str]", "str", "r = ''\nfor e in x:\n    r = r + e\nreturn r", gen=dict(list_len=2, text_len=1)))
    return ps


def tasks(tier, seed):
    return lists.tasks_for("C03", tier, seed) + prog_tasks(progs(tier), tier, seed)
