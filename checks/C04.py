"""C04 built-in functions."""
from .common import *
from . import lists

META = dict(level="translation_validation", explanation="Every accepted call of a Python built-in is compiled by the real compiler and the emitted script is shown equal to the "
            "built-in for all arguments; integers, booleans and byte strings are unbounded where the built-in is not a fold, list lengths, text lengths and "
            "digit counts are bounded as stated per obligation. sum, len, any, all, max and min are also discharged for lists of every length (loops cut at their heads).")

I = "List[int]"


def progs(tier):
    ps = []
    big = tier == "thorough"
    N = 5 if big else 4
    cf = ["O0", "O1", "O2", "O3"]
    g = dict(list_len=N)
    # ------------------------------------------------------------ numbers
    ps.append(P("abs", "x: int", "int", "abs(x)", cfgs=cf))
    ps.append(P("abs expr", "x: int, y: int", "int", "abs(x - y) - abs(y)"))
    ps.append(P("abs bool free", "x: int", "bool", "abs(x) == abs(-x)"))
    for e in range(0, 9):
        ps.append(P(f"pow {e}", "x: int", "int", f"pow(x, {e})", bound=dict(rep=10)))
    ps.append(P("pow", "x: int, y: int", "int", "pow(x, y)", cfgs=cf, pre=lambda x, y: y >= 0, bound=dict(rep=7 if big else 5), ints=list(range(-4, 20)), time_limit=60))
    for c in (0, 1, 2, -1, -3, 10):
        ps.append(P(f"pow base {c}", "y: int", "int", f"pow({c}, y)", pre=lambda y: y >= 0, bound=dict(rep=12), ints=list(range(-4, 20)), time_limit=60))
    ps.append(P("pow negative fails", "x: int, y: int", "int", "assert y < 0\nr = pow(x, y)\nassert False\nreturn r", ints=list(range(-9, 1))))
    for op in ("max", "min"):
        ps.append(P(op, f"x: {I}", "int", f"{op}(x)", cfgs=cf, gen=g))
        ps.append(P(f"{op} pair", "x: int, y: int", "int", f"{op}([x, y])", cfgs=cf))
        ps.append(P(f"{op} triple", "x: int, y: int, z: int", "int", f"{op}([x, y, z]) - {op}([z, x])"))
        ps.append(P(f"{op} single", "x: int", "int", f"{op}([x])"))
        ps.append(P(f"{op} const", "x: int", "int", f"{op}([3, x, -2])"))
        ps.append(P(f"{op} of comprehension", f"x: {I}", "int", f"{op}([abs(e) for e in x])", gen=dict(list_len=3)))
    ps.append(P("sum", f"x: {I}", "int", "sum(x)", cfgs=cf, gen=dict(list_len=6)))
    ps.append(P("sum literal", "x: int, y: int", "int", "sum([x, y, 3, x])"))
    ps.append(P("sum empty", "x: int", "int", "y: List[int] = []\nreturn sum(y) + x"))
    ps.append(P("sum comprehension", f"x: {I}, k: int", "int", "sum([e * 2 for e in x if e != k])", gen=dict(list_len=3)))
    ps.append(P("sum values", "x: Dict[int, int]", "int", "sum(x.values())", gen=dict(dict_len=3)))
    # ------------------------------------------------------------ quantifiers
    for op in ("all", "any"):
        ps.append(P(op, "x: List[bool]", "bool", f"{op}(x)", cfgs=cf, gen=dict(list_len=N)))
        ps.append(P(f"{op} literal", "x: bool, y: bool, z: bool", "bool", f"{op}([x, y, z])"))
        ps.append(P(f"{op} comprehension", f"x: {I}, k: int", "bool", f"{op}([e > k for e in x])", gen=g))
        ps.append(P(f"not {op}", "x: List[bool]", "bool", f"not {op}(x)", gen=dict(list_len=3)))
        ps.append(P(f"{op} empty", "x: int", "bool", f"y: List[bool] = []\nreturn {op}(y)"))
    # ------------------------------------------------------------ range, reversed, len
    ps.append(P("range", "n: int", I, "range(n)", native_ok=False, bound=dict(rng=6), ints=list(range(-5, 12)), cfgs=cf))
    ps.append(P("range for", "n: int", "int", "r = 1\nfor i in range(n):\n    r = r * 3 + i\nreturn r", bound=dict(rng=6), ints=list(range(-5, 12))))
    for c in (0, 1, 2, 5, -1, -3):
        ps.append(P(f"range {c}", "x: int", I, f"[x + i for i in range({c})]", bound=dict(rng=8)))
    ps.append(P("range len", f"x: {I}", I, "[i for i in range(len(x))]", gen=g))
    ps.append(P("len range", "n: int", "int", "len(range(n))", bound=dict(rng=6), ints=list(range(-5, 12)), native_ok=False))
    for T, h in (("int", ""), ("bytes", ""), ("str", ""), ("bool", ""), ("List[int]", ""), ("Dict[int, bytes]", "")):
        gg = dict(list_len=3, bytes_len=[1], text_len=[1], dict_len=1, inner=[1])
        ps.append(P(f"reversed {T}", f"x: List[{T}]", f"List[{T}]", "reversed(x)", native_ok=False, gen=gg))
        ps.append(P(f"reversed {T} iterate", f"x: List[{T}]", f"List[{T}]", "[e for e in reversed(x)]", gen=gg))
        ps.append(P(f"reversed reversed {T}", f"x: List[{T}]", f"List[{T}]", "reversed(reversed(x))", native_ok=False, gen=gg))
        ps.append(P(f"len List[{T}]", f"x: List[{T}]", "int", "len(x)", gen=gg))
    ps.append(P("len bytes", "x: bytes", "int", "len(x)", gen=dict(bytes_len="seq"), cfgs=cf))
    ps.append(P("len bytes cat", "x: bytes, y: bytes", "int", "len(x + y) - len(y)", gen=dict(bytes_len="seq")))
    ps.append(P("len dict", "x: Dict[int, int]", "int", "len(x)", gen=dict(dict_len=4)))
    ps.append(P("len tuple", "x: int, y: bytes", "int", "len((x, y, x)) + len((x, y))", gen=dict(bytes_len=1)))
    ps.append(P("len const", "x: int", "int", "x + len([1, 2, 3]) + len(b'abc')"))
    # ------------------------------------------------------------ conversions
    ps.append(P("chr", "x: int", "str", "chr(x)", cfgs=cf, ints=[-1, 0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0x10ffff, 0x110000]))
    ps.append(P("chr cat", "x: int, y: int", "str", "chr(x) + chr(y)", time_limit=60))
    ps.append(P("chr encode", "x: int", "bytes", "chr(x).encode()"))
    ps.append(P("chr eq", "x: int, y: int", "bool", "chr(x) == chr(y)", time_limit=60, pre=NOSURR))
    d = 6 if big else 4
    for op in ("hex", "oct"):
        ps.append(P(op, "x: int", "str", f"{op}(x)", cfgs=cf, bound=dict(digits=d), time_limit=60))
        ps.append(P(f"{op} cat", "x: int", "str", f"{op}(x) + '!'", bound=dict(digits=2), time_limit=60))
        for c in (0, 1, -1, 15, 16, 255, 256, -256, 2 ** 64, 7, 8, 63, 64, 10 ** 18):
            ps.append(P(f"{op} {c}", "x: int", "str", f"{op}(x - x + {c})", bound=dict(digits=24), cfgs=["O1"], time_limit=40))
    ps.append(P("int int", "x: int", "int", "int(x)", cfgs=cf))
    ps.append(P("int bool", "x: bool", "int", "int(x)", cfgs=cf))
    ps.append(P("int cmp", "x: int, y: int", "int", "int(x < y) * 3 + int(x == y)"))
    ps.append(P("int str", "x: str", "int", "int(x)", gen=dict(text_len=3, text_ascii=True), cfgs=cf, time_limit=100, max_paths=8000))
    ps.append(P("int str unstripped", "x: str", "int", "int(x)", gen=dict(text_len=[4, 5] if big else [4], text_ascii=True), time_limit=100, max_paths=9000, cfgs=["O2"],
                pre=DIGITLIKE))
    ps.append(P("int str literal prefix", "x: str", "int", "int('-1_' + x)", gen=dict(text_len=2, text_ascii=True), time_limit=80, max_paths=4000, cfgs=["O1"]))
    ps.append(P("int str literal suffix", "x: str", "int", "int(x + '0 ')", gen=dict(text_len=2, text_ascii=True), time_limit=80, max_paths=4000, cfgs=["O1"]))
    ps.append(P("int of str of int", "x: int", "bool", "int(str(x)) == x", bound=dict(digits=3), time_limit=60))
    ps.append(P("int of non-ASCII digit", "x: int", "int", "x * 0 + int('٣')", cfgs=["O0"]))
    for T, gg in (("int", {}), ("bool", {}), ("bytes", dict(bytes_len="seq")), ("str", dict(text_len=1)), ("List[int]", dict(list_len=2)), ("List[bytes]", dict(list_len=2, bytes_len=1)),
                  ("Dict[int, int]", dict(dict_len=2))):
        ps.append(P(f"bool {T}", f"x: {T}", "bool", "bool(x)", gen=gg, cfgs=cf))
        ps.append(P(f"not bool {T}", f"x: {T}", "bool", "not bool(x)", gen=gg))
        ps.append(P(f"if bool {T}", f"x: {T}", "int", "return 5 if bool(x) else 6", gen=gg))
    ps.append(P("bool None", "x: None", "bool", "bool(x)"))
    ps.append(P("bytes bytes", "x: bytes", "bytes", "bytes(x)", gen=dict(bytes_len="seq"), cfgs=cf))
    ps.append(P("bytes int", "x: int", "bytes", "bytes(x)", bound=dict(rep=5), ints=list(range(-5, 12)), cfgs=cf))
    ps.append(P("bytes list", f"x: {I}", "bytes", "bytes(x)", gen=dict(list_len=N), cfgs=cf, ints=list(range(-2, 5)) + [127, 128, 255, 256, 257]))
    ps.append(P("bytes literal", "x: int, y: int", "bytes", "bytes([x, y, 7])", ints=list(range(-2, 5)) + [127, 128, 255, 256, 257]))
    ps.append(P("bytes of list of bytes", "x: bytes", "bool", "bytes([x[0], x[1]]) == x", gen=dict(bytes_len=3)))
    # ------------------------------------------------------------ compositions, used as values
    ps.append(P("sum map abs max", f"x: {I}", "int", "max([sum(x), abs(min(x))]) if x else 0", gen=dict(list_len=3), time_limit=60))
    ps.append(P("shadow free", f"x: {I}", "int", "def max2(a: int, b: int) -> int:\n    return max([a, b])\nreturn max2(sum(x), len(x))", gen=dict(list_len=3)))
    ps.append(P("nested fn builtin", "x: int", "str", "def f(a: int) -> str:\n    return hex(abs(a))\nreturn f(x) if x < 16 else oct(x % 8)", bound=dict(digits=2), time_limit=60))
    return ps


def NOSURR(*xs):
    """code points that are not surrogates (Python texts with lone surrogates have no on-chain representation)"""
    import z3
    from vf.vals import b_and, b_not, i_le
    return b_and(*[b_not(b_and(i_le(0xD800, x), i_le(x, 0xDFFF))) for x in xs])


def DIGITLIKE(x):
    """characters drawn from digits, signs, underscore and space"""
    import z3
    if isinstance(x, str):
        return all(c in "0123456789+-_ " for c in x)
    return z3.And(*[z3.Or(z3.And(c >= 48, c <= 57), c == 43, c == 45, c == 95, c == 32) if z3.is_expr(c) else c in (43, 45, 95, 32) or 48 <= c <= 57 for c in x.vec])


def tasks(tier, seed):
    return lists.tasks_for("C04", tier, seed) + prog_tasks(progs(tier), tier, seed)
