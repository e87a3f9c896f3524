"""C02 byte strings and text."""
from .common import *

META = dict(level="translation_validation", explanation="Concatenation, comparison, length, indexing, slicing, truth value and encode/decode round trips are discharged for byte strings "
            "and texts of every length (z3 sequences); repetition, hex conversions, padding and UTF-8 of individual code points are discharged for all "
            "contents up to the stated lengths (bounded).")

SEQ = dict(bytes_len="seq", text_len="seq")
B3, B2 = dict(bytes_len=3), dict(bytes_len=2)
CMP = ["<", "<=", ">", ">=", "==", "!="]


def progs(tier):
    ps = []
    big = tier == "thorough"
    cf = ["O0", "O1", "O2", "O3"]
    # ---- any length
    for T in ("bytes", "str"):
        ps.append(P(f"{T} + {T}", f"x: {T}, y: {T}", T, "x + y", cfgs=cf, gen=SEQ))
        ps.append(P(f"{T} aug +=", f"x: {T}, y: {T}", T, "x += y\nreturn x", gen=SEQ))
        ps.append(P(f"{T} + 3", f"x: {T}, y: {T}, z: {T}", T, "x + (y + z) + x", gen=SEQ))
        if T == "bytes":
            ps.append(P(f"len {T}", f"x: {T}", "int", "len(x)", gen=SEQ, cfgs=cf))
        ps.append(P(f"truth {T}", f"x: {T}", "int", "return 1 if x else 2", gen=SEQ))
        ps.append(P(f"not {T}", f"x: {T}", "bool", "not x", gen=SEQ, cfgs=cf))
        ps.append(P(f"bool {T}", f"x: {T}", "bool", "bool(x)", gen=SEQ))
        for op in CMP if T == "bytes" else ("==", "!="):
            ps.append(P(f"{T} {op} {T}", f"x: {T}, y: {T}", "bool", f"x {op} y", cfgs=cf, gen=SEQ))
            ps.append(P(f"{T} {op} {T} bounded", f"x: {T}, y: {T}", "bool", f"x {op} y", gen=dict(bytes_len=2, text_len=2)))
            lit = 'b"ab"' if T == "bytes" else '"a€"'
            ps.append(P(f"{T} {op} lit", f"x: {T}", "bool", f"x {op} {lit}", gen=dict(bytes_len=3, text_len=2)))
            ps.append(P(f"lit {op} {T}", f"x: {T}", "bool", f"{lit} {op} x", gen=dict(bytes_len=3, text_len=2)))
    ps.append(P("bytes chain", "x: bytes, y: bytes, z: bytes", "bool", "x < y <= z", gen=SEQ))
    ps.append(P("bytes index", "x: bytes, i: int", "int", "x[i]", cfgs=cf, gen=SEQ))
    for i in (0, 1, 2, -1, -2, 5):
        ps.append(P(f"bytes index {i}", "x: bytes", "int", f"x[{i}]", gen=SEQ))
    ps.append(P("bytes index bounded", "x: bytes, i: int", "int", "x[i]", gen=B3))
    ps.append(P("bytes index expr", "x: bytes, i: int", "int", "x[i - 1] + x[-i]", gen=B3))
    ps.append(P("bytes slice", "x: bytes, i: int, j: int", "bytes", "x[i:j]", gen=SEQ, time_limit=90))
    ps.append(P("bytes slice lo", "x: bytes, i: int", "bytes", "x[i:]", gen=SEQ))
    ps.append(P("bytes slice hi", "x: bytes, i: int", "bytes", "x[:i]", gen=SEQ))
    ps.append(P("bytes slice all", "x: bytes", "bytes", "x[:]", gen=SEQ))
    for lo, hi in [("1", "2"), ("0", "3"), ("-2", ""), ("", "-1"), ("-3", "-1"), ("2", "1"), ("1", "-1"), ("5", "9"), ("-9", "2"), ("", "0")]:
        ps.append(P(f"bytes slice {lo}:{hi}", "x: bytes", "bytes", f"x[{lo}:{hi}]", gen=SEQ))
    ps.append(P("bytes slice bounded", "x: bytes, i: int, j: int", "bytes", "x[i:j]", gen=B3))
    for st in ("-1", "2", "1", "s"):
        for lo, hi in (("", ""), ("1", ""), ("", "-1"), ("i", "j")):
            ps.append(P(f"bytes slice step {lo}:{hi}:{st}", "x: bytes, i: int, j: int, s: int", "bytes", f"x[{lo}:{hi}:{st}]", gen=B3, cfgs=["O2"], may_reject=True))
    ps.append(P("slice concat", "x: bytes, i: int", "bytes", "x[:i] + x[i:]", gen=SEQ))
    ps.append(P("slice of slice", "x: bytes, i: int", "bytes", "x[1:][i:]", gen=B3))
    ps.append(P("len of slice", "x: bytes, i: int, j: int", "int", "len(x[i:j])", gen=SEQ))
    ps.append(P("index of slice", "x: bytes, i: int", "int", "x[1:4][i]", gen=dict(bytes_len=4)))
    ps.append(P("const slice", "i: int, j: int", "bytes", 'b"\\x00abc\\xff"[i:j]'))
    ps.append(P("const index", "i: int", "int", 'b"\\x00abc\\xff"[i]'))
    # ---- utf8
    ps.append(P("encode", "x: str", "bytes", "x.encode()", gen=SEQ, cfgs=cf))
    ps.append(P("decode", "x: bytes", "str", "x.decode()", gen=SEQ, cfgs=cf))
    ps.append(P("decode encode", "x: str", "str", "x.encode().decode()", gen=SEQ))
    ps.append(P("encode decode", "x: bytes", "bytes", "x.decode().encode()", gen=SEQ))
    ps.append(P("encode len", "x: str", "int", "len(x.encode())", gen=dict(text_len=2), time_limit=40))
    ps.append(P("decode bounded", "x: bytes", "str", "x.decode()", gen=dict(bytes_len=4 if big else 3), time_limit=60))
    ps.append(P("decode concat", "x: bytes, y: str", "str", "x.decode() + y", gen=SEQ))
    ps.append(P("str lit concat", "x: str", "str", '"a€" + x + "😀\\n"', gen=SEQ))
    ps.append(P("bytes lit concat", "x: bytes", "bytes", 'b"\\x00" + x + b"\\xff\\n"', gen=SEQ))
    ps.append(P("str lit encode", "x: bytes", "bytes", '"a€😀".encode() + x', gen=SEQ))
    ps.append(P("bytes lit decode", "x: str", "str", 'b"\\xc3\\xa9".decode() + x', gen=SEQ))
    # ---- repetition
    for T in ("bytes", "str"):
        ps.append(P(f"{T} * int", f"x: {T}, n: int", T, "x * n", gen=B2, ints=list(range(-2, 6)), concrete=40, cfgs=cf))
        ps.append(P(f"int * {T}", f"x: {T}, n: int", T, "n * x", gen=B2, ints=list(range(-2, 6)), concrete=40, cfgs=cf))
        for n in (0, 1, 3, -1):
            ps.append(P(f"{T} * {n}", f"x: {T}", T, f"x * ({n})", gen=B2))
            ps.append(P(f"{n} * {T}", f"x: {T}", T, f"({n}) * x", gen=B2))
        ps.append(P(f"{T} * int seq", f"x: {T}, n: int", T, "x * n", gen=SEQ, ints=list(range(-2, 6)), bound=dict(rep=4)))
    ps.append(P("bytes lit * int", "n: int", "bytes", 'b"ab" * n', ints=list(range(-2, 6)), bound=dict(rep=6)))
    ps.append(P("bytes aug *=", "x: bytes, n: int", "bytes", "x *= n\nreturn x", gen=B2, ints=list(range(-2, 6))))
    # ---- hex
    ps.append(P("hex", "x: bytes", "str", "x.hex()", gen=B3, cfgs=cf, concrete=40, time_limit=40))
    ps.append(P("fromhex", "x: str", "bytes", "b''.fromhex(x)", gen=dict(text_len=4 if big else 3, text_ascii=True), time_limit=60, max_paths=3000,
                pre=NOWS, concrete=0))
    ps.append(P("fromhex unicode", "x: str", "bytes", "b''.fromhex(x)", gen=dict(text_len=2), time_limit=60, max_paths=3000, pre=NOWS))
    ps.append(P("fromhex hex", "x: bytes", "bytes", "b''.fromhex(x.hex())", gen=B2, concrete=20))
    ps.append(P("hex fromhex", "x: str", "str", "b''.fromhex(x).hex()", gen=dict(text_len=[0, 2], text_ascii=True), pre=NOWS, time_limit=60))
    ps.append(P("fromhex lit", "x: bytes", "bytes", 'bytes.fromhex("00fFA9") + x', gen=SEQ, cfgs=["O2", "O3"]))
    # ---- padding
    for m in ("ljust", "rjust"):
        ps.append(P(f"{m}", "x: bytes, n: int, f: bytes", "bytes", f"x.{m}(n, f)", gen=B2, time_limit=40, ints=list(range(-2, 9)), concrete=40))
        for n in (0, 1, 3, -2):
            ps.append(P(f"{m} {n}", "x: bytes", "bytes", f'x.{m}({n}, b"\\x00")', gen=dict(bytes_len=4)))
        ps.append(P(f"{m} fill", "n: int", "bytes", f'b"ab".{m}(n, b" ")', bound=dict(rep=5), ints=list(range(-2, 9))))
        ps.append(P(f"{m} any length", "x: bytes, n: int", "bytes", f'x.{m}(n, b"\\x07")', gen=SEQ, bound=dict(rep=4), ints=list(range(-2, 9))))
    # ---- membership
    ps.append(P("bytes in list", "x: bytes, y: List[bytes]", "bool", "x in y", gen=dict(bytes_len=1, list_len=2), cfgs=cf))
    ps.append(P("bytes in list seq", "x: bytes, y: List[bytes]", "bool", "x in y", gen=dict(bytes_len="seq", list_len=3)))
    ps.append(P("bytes not in list", "x: bytes, y: List[bytes]", "bool", "x not in y", gen=dict(bytes_len="seq", list_len=3)))
    ps.append(P("bytes in literal", "x: bytes", "bool", 'x in [b"a", b"", b"bc"]', gen=SEQ))
    # ---- combinations
    ps.append(P("iterate slices", "x: bytes", "int", "r = 0\nfor i in range(len(x)):\n    r = r * 256 + x[i]\nreturn r", gen=B3))
    ps.append(P("reverse bytes", "x: bytes", "bytes", 'r = b""\nfor i in range(len(x)):\n    r = x[i:i + 1] + r\nreturn r', gen=B3))
    ps.append(P("bytes ternary", "x: bytes, y: bytes", "bytes", "x if x < y else y", gen=SEQ))
    return ps


def NOWS(*args):
    from vf.vals import ST, is_sym
    import z3
    cs = []
    for a in args:
        if isinstance(a, ST):
            for c in a.vec:
                if is_sym(c):
                    cs += [c != w for w in (9, 10, 11, 12, 13, 32)]
    return z3.And(*cs) if cs else True


def tasks(tier, seed):
    return prog_tasks(progs(tier), tier, seed)
