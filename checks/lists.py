"""Programs whose obligations are discharged for lists of every length and loops of every number of rounds (vf/induct.py).

They repeat constructs that the bounded programs of C03, C04, C06 and C09 cover; those remain the ones that report violations."""
from .common import *
from vf import induct
from vf.runner import Task

I, B = "List[int]", "List[bytes]"
RD = '''@dataclass()
class R(PlutusData):
    CONSTR_ID = 2
    x: int
    y: bytes

'''


def L(name, sig, ret, body, hdr="", **kw):
    kw.setdefault("cfgs", ["O0", "O2"])
    return P(name + " (all lengths)", sig, ret, body, hdr, gen=dict(bytes_len="seq"), **kw)


def tasks_for(pid, tier, seed):
    ps = PS[pid]
    out = []
    for i in range(0, len(ps), 10):
        def go(chunk=ps[i:i + 10]):
            r = Result(f"{chunk[0].name} ..")
            for p in chunk:
                if tier == "thorough" and p.cfgs != ["O0"]:   # (at O3 the names that pair the loop variables are gone)
                    p.cfgs = ["O0", "O1", "O2"] if pid == "C09" else ["O0", "O1", "O2", "O3"]
                merge(r, induct.verify(p, tier, seed))
            return r
        out.append(Task(f"{ps[i].name} ..", go, timeout=240))
    return out


ARG = f"x: {I}, a: int"
REC = IMP + RD
C3 = [
    L("[e + a for e in x]", ARG, I, "[e + a for e in x]"),
    L("[e // a for e in x if e > a]", ARG, I, "[e // a for e in x if e > a]"),
    L("two conditions", ARG, I, "[e for e in x if e > a if e < 2 * a]"),
    L("bytes comprehension", f"x: {B}, a: bytes", B, "[e + a for e in x if len(e) > 2]"),
    L("bytes to lengths", f"x: {B}, a: bytes", I, "[len(e) for e in x if e != a]"),
    L("ints to bytes", f"x: {I}, a: bytes", B, "[a[e:] for e in x if e != 3]"),
    L("record filter", "x: List[R], a: bytes", "List[R]", "[e for e in x if e.y == a]", REC),
    L("record map", "x: List[R], a: bytes", "List[R]", "[R(e.x + 1, a) for e in x if e.y != a]", REC),
    L("record fields", "x: List[R], a: bytes", B, "[e.y + a for e in x if e.x > 0]", REC),
    L("comprehension of comprehension", ARG, I, "[e * 2 for e in [f + a for f in x if f > 0] if e < 9]"),
    L("comprehension variable", ARG, "int", "e = a\ny = [e + 1 for e in x]\nreturn e"),
    L("a in x", ARG, "bool", "a in x"),
    L("a not in x bytes", f"x: {B}, a: bytes", "bool", "a not in x"),
    L("a in x records", "x: List[R], a: R", "bool", "a in x", REC),
    L("a in comprehension", ARG, "bool", "a in [e * 2 for e in x]"),
    L("x + [a]", ARG, I, "x + [a]"),
    L("x + y", f"x: {I}, y: {I}", I, "x + y"),
    L("y + x + y", f"x: {B}, y: {B}", B, "y + x + y"),
    L("x + y records", "x: List[R], y: List[R]", "List[R]", "x + y", REC),
    L("x == y", f"x: {I}, y: {I}", "bool", "x == y"),
    L("x != y bytes", f"x: {B}, y: {B}", "bool", "x != y"),
    L("x == y records", "x: List[R], y: List[R]", "bool", "x == y", REC),
    L("x[a]", ARG, "int", "x[a]", cfgs=["O0"]),
    L("x[a] bytes", f"x: {B}, a: int", "bytes", "x[a]", cfgs=["O0"]),
    L("x[0]", ARG, "int", "x[0]"),
    L("x[2]", ARG, "int", "x[2]"),
    L("x[1] bytes", f"x: {B}, a: bytes", "bytes", "x[1] + a"),
    L("x[-1]", ARG, "int", "x[-1]", cfgs=["O0"]),
    L("x as condition", ARG, "int", "1 if x else 2"),
    L("not x", ARG, "int", "1 if not x else x[0]"),
    L("x and", ARG, "int", "3 if a > 2 and not x else 4"),
    L("find record", "x: List[R], a: bytes", "int", "[e for e in x if e.y == a][0].x", REC),
]
C4 = [
    L("sum", ARG, "int", "sum(x)"),
    L("len", ARG, "int", "len(x)"),
    L("len bytes", f"x: {B}, a: int", "int", "len(x)"),
    L("len records", "x: List[R], a: int", "int", "len(x)", REC),
    L("max", ARG, "int", "max(x)"),
    L("min", ARG, "int", "min(x) + a"),
    L("any", ARG, "bool", "any([e > a for e in x])"),
    L("all", ARG, "bool", "all([e > a for e in x])"),
    L("any of parameter", "x: List[bool], a: int", "bool", "any(x)"),
    L("all of parameter", "x: List[bool], a: int", "bool", "all(x)"),
    L("sum of comprehension", ARG, "int", "sum([e * e for e in x if e > a])"),
    L("sum of fields", "x: List[R], a: bytes", "int", "sum([e.x for e in x if e.y == a])", REC),
    L("len of comprehension", ARG, "int", "len([e for e in x if e > a])"),
    L("max of comprehension", ARG, "int", "max([e * a for e in x])"),
    L("sum * len", ARG, "int", "sum(x) * len(x)"),
    L("sum of sum", f"x: {I}, y: {I}", "int", "sum(x + y)"),
    L("len of concatenation", f"x: {I}, y: {I}", "int", "len(x + y)"),
    L("any in all", ARG, "bool", "all([e > a for e in x]) or any([e < 0 for e in x])"),
]
C6 = [
    L("identity", ARG, I, "x"),
    L("identity bytes", f"x: {B}, a: int", B, "x"),
    L("identity records", "x: List[R], a: int", "List[R]", "x", REC),
    L("record of element", "x: List[R], a: int", "R", "x[0]", REC),
    L("second list", f"x: {B}, y: {I}, a: int", I, "y"),
    L("choice of lists", f"x: {I}, y: {I}, a: int", I, "x if a > 0 else y"),
]
C9 = [
    L("for fold", ARG, "int", "r = a\nfor e in x:\n    r = r * 31 + e\nreturn r"),
    L("for early return", ARG, "int", "r = 1\nfor e in x:\n    if e == a:\n        return r\n    r += e\nreturn -r"),
    L("for over records", "x: List[R], a: bytes", "int", "r = 1\ns = b''\nfor e in x:\n    if e.y == a:\n        r += e.x\n    else:\n        s = e.y + s\nreturn r + len(s)", REC),
    L("for two variables", ARG, "int", "r = 1\ns = a\nfor e in x:\n    r, s = s, r + e\nreturn r - 2 * s"),
    L("for with assert", ARG, "int", "r = 1\nfor e in x:\n    assert e > a\n    r = r + e // a\nreturn r"),
    L("for else", ARG, "int", "r = 1\nfor e in x:\n    r = r + e\nelse:\n    r = r * 2\nreturn r"),
    L("for then for", f"x: {I}, y: {I}", "int", "r = 1\nfor e in x:\n    r = r + e\nfor f in y:\n    r = r * f\nreturn r"),
    L("for twice", ARG, "int", "r = 1\nfor e in x:\n    r = r + e\nfor e in x:\n    r = r * e - a\nreturn r"),
    L("nested for", f"x: {I}, y: {I}", "int", "r = 1\nfor e in x:\n    for f in y:\n        r = r + e * f\nreturn r"),
    L("nested for return", f"x: {I}, y: {I}", "int", "for e in x:\n    for f in y:\n        if f == e:\n            return e\nreturn 0"),
    L("for in function", ARG, "int", "def g(l: List[int], b: int) -> int:\n    r = 0\n    for e in l:\n        if e > b:\n            return e\n        r += e\n    return r\nreturn g(x, a) + a"),
    L("for in function twice", f"x: {I}, y: {I}", "int", "def g(l: List[int], b: int) -> int:\n    r = b\n    for e in l:\n        r += e * b\n    return r\nreturn g(x, g(y, 2))"),
    L("for with bool", ARG, "int", "r = 0\nf = False\nfor e in x:\n    if f:\n        r += e\n    f = e > a\nreturn r"),
    L("for with str", f"x: {I}, a: str", "str", "r = ''\nfor e in x:\n    r = a + r if e > 3 else r\nreturn r"),
    L("for with call", ARG, "int", "def h(u: int, v: int) -> int:\n    return u * 3 - v\nr = 0\nfor e in x:\n    r = h(r, e)\nreturn r"),
    L("for variable after", ARG, "int", "e = a\nfor e in x:\n    pass\nreturn e"),
    L("for in if", ARG, "int", "r = 2\nif a > 3:\n    for e in x:\n        r = r * 2 + e\nelse:\n    for e in x:\n        r = r - e\nreturn r"),
    L("for over comprehension", ARG, "int", "r = 2\nfor e in [f + 1 for f in x if f > a]:\n    r = r * 2 + e\nreturn r"),
    L("for over concatenation", f"x: {I}, y: {I}", "int", "r = 2\nfor e in x + y:\n    r = r * 2 + e\nreturn r"),
    L("for conditional update", ARG, "int", "r = 0\ns = 1\nfor e in x:\n    if e > a:\n        r = r + s\n    elif e < 0:\n        s = s * 2\nreturn r + s"),
    L("while", "a: int, b: int", "int", "i = 0\nr = b\nwhile i < a:\n    r = r * 2 - i\n    i += 1\nreturn r"),
    L("while return", "a: int, b: int", "int", "i = 0\nwhile i != a:\n    i += b\n    if i > 7:\n        return i // b\nreturn -i"),
    L("while else", "a: int, b: int", "int", "i = b\nwhile i < a:\n    i += b\nelse:\n    i = i * 2\nreturn i"),
    L("while bytes", "a: bytes, b: int", "int", "i = 0\nwhile len(a) > b:\n    i += a[0]\n    a = a[1:]\nreturn i"),
    L("gcd", "a: int, b: int", "int", "while b != 0:\n    a, b = b, a % b\nreturn a"),
    L("while in for", f"x: {I}, b: int", "int", "r = 0\nfor e in x:\n    while e > b:\n        e -= 3\n        r += 1\n    r += e\nreturn r"),
    L("for in while", f"x: {I}, b: int", "int", "r = 0\nwhile r < b:\n    for e in x:\n        if e > r:\n            return e\n        r += e\nreturn r"),
    L("while in while", "a: int, b: int", "int", "r = 0\nwhile r < a:\n    i = 0\n    while i < b:\n        i += 2\n        r += i\n    r += 1\nreturn r"),
    L("while with assert", "a: int, b: int", "int", "i = 0\nwhile i < a:\n    assert i != b\n    i += 1\nreturn i"),
    L("while with and", "a: int, b: int", "int", "i = 0\nwhile i < a and i * i < b:\n    i += 1\nreturn i"),
    L("while in function", "a: int, b: int", "int", "def g(n: int, m: int) -> int:\n    while n > m:\n        n = n - m\n    return n\nreturn g(a, b) + g(b, a)"),
]
PS = dict(C03=C3, C04=C4, C06=C6, C09=C9)
