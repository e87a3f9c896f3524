"""C19 class tests narrow types soundly: every accepted program uses a narrowed value only as Python would."""
import itertools
import zlib

from .common import *
from .C18 import grouped

META = dict(level="translation_validation",
            technique="contract-based deductive verification: relational contracts (source program against the script emitted by the real compiler) on all combinations of class tests, path shapes and uses; accepted programs are discharged for all inputs by z3/cvc5",
            explanation="For a boolean expression over class tests of one or two variables and an independent condition (and, or, not, nesting), each path shape (if, elif, early return, nested if, conditional expression, loop, assertion, variable "
            "reassignment, copies and containers) and each use on each path, the program is compiled. If the compiler accepts it, the script must compute what Python computes for every value of the union and every condition "
            "(Python raises AttributeError/TypeError on a use that is invalid for the actual class, the script would read another class's field). A rejection is always sound.",
            assumptions=["the fold-over texts/bytes lengths in uses are bounded; class, field values and conditions are unbounded"])

CLS = IMP + '''
@dataclass()
class A(PlutusData):
    CONSTR_ID = 1
    x: int
    z: int
@dataclass()
class B(PlutusData):
    CONSTR_ID = 2
    z: int
    y: int
@dataclass()
class C(PlutusData):
    CONSTR_ID = 3
    w: int
    y: int
'''
UNIONS = {"AB": "Union[A, B]", "ABC": "Union[A, B, C]", "AI": "Union[A, int]", "IY": "Union[int, bytes]", "ABIY": "Union[A, B, int, bytes]", "LDI": "Union[List[Anything], Dict[Anything, Anything], int]", "ABL": "Union[A, B, List[Anything]]"}
NAMES = {"A": "A", "B": "B", "C": "C", "I": "int", "Y": "bytes", "L": "List", "D": "Dict"}
USES = {"A": "u.x", "B": "u.y", "C": "u.w", "I": "u + 1", "Y": "len(u)", "L": "len(u)", "D": "len(u.items())"}
SHARED = {"AB": ["u.z"], "ABC": ["u.z", "u.y"], "ABIY": ["u.z"], "ABL": ["u.z"]}


def is_(v, m):
    return f"isinstance({v}, {NAMES[m]})"


def tests(ms, tier):
    """boolean expressions over tests of u (members ms), a second union v and a condition"""
    a = [is_("u", m) for m in ms]
    p = "k > 0"
    out = list(a[:3]) + [f"not {t}" for t in a[:2]]
    x, y = a[0], a[1]
    out += [f"{x} or {y}", f"{x} and {y}", f"{x} and {p}", f"{p} and {x}", f"{x} or {p}", f"{p} or {x}", f"not ({x} and {p})", f"not ({x} or {p})", f"not ({x} or {y})", f"not ({x} and {y})", f"not {x} and {p}", f"not {x} or {p}",
            f"not not {x}", f"{x} and not {y}", f"{x} or not {y}", f"not {x} and not {y}", f"not {x} or not {y}",
            f"({x} and {p}) or {y}", f"({x} or {p}) and {y}", f"({x} or {y}) and {p}", f"({x} and {p}) or ({y} and {p})", f"({x} or {p}) and ({y} or {p})", f"({x} and {p}) or ({x} and k < 5)", f"{x} and {p} and k < 5", f"{x} or {p} or k < -5", f"{p} and k < 5 and {x}",
            f"{x} and {y} and {p}", f"{x} or {y} or {p}", f"not ({x} and {p} and k < 5)", f"not ({x} or {p} or k < -5)", f"{p} and not ({x} or k > 7)",
            f"{x} == {p}", f"{x} == True", f"{x} != {y}", f"({x}) in [True]", f"({x} if {p} else {y})", f"({x} if {p} else {x})", f"bool({x})", f"({x} or {p}) == False"]
    if len(ms) > 2:
        w = a[2]
        out += [f"{x} or {y} or {w}", f"({x} or {y}) and ({y} or {w})", f"not ({x} or {y} or {w})", f"not {x} and not {y} and not {w}", f"({x} or {y}) and not {y}", f"not ({x} and {p}) and not {y}", f"({x} or {y}) and ({x} or {w})", f"not (not {x} and not {y})", f"not (not {x} or not {y})",
                f"({x} or {y} or {w}) and {p}", f"({x} and {p}) or {y} or {w}"]
    return out


SHAPES = {
    "if": "if {t}:\n    return {a}\nelse:\n    return {b}",
    "early return": "if {t}:\n    return {a}\nreturn {b}",
    "early return of the rest": "if {t}:\n    pass\nelse:\n    return {b}\nreturn {a}",
    "conditional": "r = {a} if {t} else {b}\nreturn r",
    "assertion": "if k > 100:\n    return {b}\nassert {t}\nreturn {a}",
    "assertion message": "assert {t}, 'no'\nr = {a}\nreturn r",
    "while": "r = 0\nn = 0\nwhile ({t}) and n < 2:\n    r += {a}\n    n += 1\nreturn r + {b}",
    "while else": "r = 0\nn = 0\nwhile n < 2 and ({t}):\n    r += {a}\n    n += 1\nelse:\n    r += {b}\nreturn r",
    "and": "return 1 if ({t}) and {a} > 0 else 0",
    "or": "return 1 if ({t}) or {b} > 0 else 0",
    "not or": "return 1 if not ({t}) or {a} > 0 else 0",
    "and in a comparison": "c = ({t}) and {a} > 0\nreturn 1 if c else 2",
    "comprehension": "return sum([{a} if {t} else {b} for i in [1, 2]])",
    "comprehension filter": "return sum([{a} for i in [1, 2] if {t}])",
    "after the branch": "r = 0\nif {t}:\n    r = {a}\nr += {b}\nreturn r",
    "raise in branch": "if {t}:\n    assert False\nreturn {b}",
    "raise in else": "if {t}:\n    r = 1\nelse:\n    assert False, 'x'\nreturn {a}",
    "nested function": "def f(q: int) -> int:\n    return {b}\nif {t}:\n    return f(1)\nreturn 2",
    "closure in branch": "if {t}:\n    def f(q: int) -> int:\n        return {a} + q\n    return f(1)\nreturn 2",
    "for": "r = 0\nfor i in [1, 2]:\n    if {t}:\n        r += {a}\n    else:\n        r += {b}\nreturn r",
    "for return": "for i in [1, 2]:\n    if {t}:\n        return {a}\nreturn {b}",
    "for else": "for i in [1]:\n    if {t}:\n        return {a}\nelse:\n    return {b}\nreturn 1",
    "both return inside": "if k > 3:\n    if {t}:\n        return {a}\n    else:\n        return {b}\nreturn {b}",
    "return inside one": "if k > 3:\n    if {t}:\n        return {a}\nreturn {b}",
}
UNSOUND = "one"


def progs(tier):
    ps = []
    full = tier != "quick"
    for ms, U in UNIONS.items():
        ts = tests(ms, tier)
        uses = [USES[m] for m in ms] + SHARED.get(ms, [])
        uses = list(dict.fromkeys(uses))
        for t in ts:
            for sh, body in SHAPES.items():
                first = sh in ("if", "early return", "conditional")
                h = zlib.crc32(f"{ms}|{t}|{sh}".encode())
                if not full and not (sh == "if" and ms in ("AB", "ABC", "AI", "ABIY") or h % 48 == 0 or ms in ("AB", "ABC") and h % 12 == 0):
                    continue
                for side in ("a", "b"):
                    if "{%s}" % side not in body:
                        continue
                    for use in uses:
                        g = dict(t=t, a="7", b="8")
                        g[side] = use
                        ps.append(P(f"{sh}: {U}: {t}: {use} when {'true' if side == 'a' else 'false'}", f"u: {U}, k: int", "int", body.format(**g), CLS, cfgs=("O0", "O3") if h % 4 == 0 else ("O2",),
                                    may_reject=True, gen=dict(bytes_len=1, list_len=1, dict_len=1), time_limit=20, concrete=2))
    return ps


HAND = []


def h(name, sig, ret, body, **kw):
    kw.setdefault("cfgs", ("O0", "O2", "O3"))
    kw.setdefault("gen", dict(bytes_len=1, list_len=2, dict_len=1))
    HAND.append(P(name, sig, ret, body, CLS, may_reject=kw.pop("may_reject", True), **kw))


def hand():
    AB, AI, IY = "u: Union[A, B]", "u: Union[A, int]", "u: Union[int, bytes]"
    h("reassigned in branch", AB + ", w: Union[A, B]", "int", "if isinstance(u, A):\n    u = w\n    return u.x\nreturn u.y")
    h("reassigned before use", AB + ", w: B", "int", "if isinstance(u, A):\n    u = w\n    return u.y\nreturn 0")
    h("reassigned in loop", AB + ", w: B, l: List[int]", "int", "r = 0\nif isinstance(u, A):\n    for i in l:\n        r += u.x\n        u = w\nreturn r")
    h("reassigned in while", AB + ", w: B", "int", "r = 0\nn = 0\nwhile isinstance(u, A) and n < 2:\n    u = w\n    r += u.x\n    n += 1\nreturn r")
    h("narrowed by while, reassigned", AB + ", w: B", "int", "r = 0\nwhile isinstance(u, A):\n    r += u.x\n    u = w\nreturn r + u.y")
    h("while else narrowing", AB + ", w: B", "int", "while isinstance(u, A):\n    u = w\nelse:\n    return u.y\nreturn 3")
    h("narrowed twice", "u: Union[A, B, C]", "int", "if isinstance(u, A) or isinstance(u, B):\n    if isinstance(u, A):\n        return u.x\n    return u.y\nreturn u.w")
    h("elif", "u: Union[A, B, C]", "int", "if isinstance(u, A):\n    return u.x\nelif isinstance(u, B):\n    return u.y + u.z\nelse:\n    return u.w")
    h("elif with condition", "u: Union[A, B, C], k: int", "int", "if isinstance(u, A) and k > 0:\n    return u.x\nelif isinstance(u, B):\n    return u.y + u.z\nelse:\n    return u.w")
    h("elif with condition, sound", "u: Union[A, B, C], k: int", "int", "if isinstance(u, A) and k > 0:\n    return u.x\nelif isinstance(u, B):\n    return u.y + u.z\nelif isinstance(u, C):\n    return u.w\nelse:\n    return u.x", may_reject=False)
    h("sequence of returns", "u: Union[A, B, C]", "int", "if isinstance(u, A):\n    return u.x\nif isinstance(u, B):\n    return u.y\nreturn u.w", may_reject=False)
    h("return in else of nested", "u: Union[A, B], k: int", "int", "if k > 0:\n    if isinstance(u, A):\n        r = 1\n    else:\n        return 5\nelse:\n    if isinstance(u, A):\n        r = 2\n    else:\n        r = 3\nreturn u.x + r")
    h("all other paths return", "u: Union[A, B], k: int", "int", "if k > 0:\n    if isinstance(u, B):\n        return 5\nelse:\n    if isinstance(u, B):\n        return 6\nreturn u.x")
    h("one path keeps the union", "u: Union[A, B], k: int", "int", "if k > 0:\n    if isinstance(u, B):\n        return 5\nreturn u.x")
    h("loop returns for one class", "u: Union[A, B], l: List[int]", "int", "for i in l:\n    if isinstance(u, B):\n        return i\nreturn u.x")
    h("while returns for one class", "u: Union[A, B], k: int", "int", "while k > 0:\n    if isinstance(u, B):\n        return 3\n    k -= 2\nreturn u.x", pre=lambda u, k: k < 5)
    h("two variables", "u: Union[A, B], v: Union[A, B]", "int", "if isinstance(u, A) and isinstance(v, B):\n    return u.x + v.y\nif isinstance(u, A) or isinstance(v, A):\n    return u.z + v.z\nreturn u.z")
    h("two variables, or", "u: Union[A, B], v: Union[A, B]", "int", "if isinstance(u, A) or isinstance(v, B):\n    return u.x\nreturn u.y + v.x")
    h("two variables, not and", "u: Union[A, B], v: Union[A, B]", "int", "if not (isinstance(u, A) and isinstance(v, B)):\n    return u.z\nreturn u.x + v.y")
    h("copy", AI, "int", "if isinstance(u, int):\n    y = u\nelse:\n    y = u.x\nreturn y", may_reject=False)
    h("copy of union", AB, "int", "v = u\nif isinstance(u, A):\n    return v.x\nreturn 0")
    h("copy tested", AB, "int", "v = u\nif isinstance(v, A):\n    return u.x\nreturn 0")
    h("constant or narrowed", AI, "int", "y = 3\nif isinstance(u, int):\n    y = u\nreturn y", may_reject=False)
    h("new union from branches", AI, "int", "if isinstance(u, int):\n    y = 1\nelse:\n    y = A(4, 5)\nreturn 1 if isinstance(y, int) else 2")
    h("narrowed in list", IY, "int", "if isinstance(u, int):\n    l = [u]\n    return l[0] + 1\nreturn 0", may_reject=False)
    h("narrowed in dict", IY, "int", "if isinstance(u, int):\n    l = {u: 5, 100: u}\n    return l[u] + l[100]\nreturn 0")
    h("narrowed in tuple", IY, "int", "if isinstance(u, int):\n    l = (u, 2)\n    return l[0] * l[1]\nreturn 0", may_reject=False)
    h("narrowed in comprehension", IY, "int", "if isinstance(u, int):\n    l = [u + y for y in [u, 1]]\n    return l[0] * l[1]\nreturn 0")
    h("narrowed in closure", IY, "int", "if isinstance(u, int):\n    def f(y: int) -> int:\n        return u + y\n    return f(u)\nreturn 0")
    h("closure before narrowing", IY, "int", "def f(y: int) -> int:\n    return u + y\nif isinstance(u, int):\n    return f(u)\nreturn 0")
    F = "def f(q: int) -> int:\n    return "
    h("closure called where less is known", AB, "int", F + "u.x + q\nif isinstance(u, B):\n    return f(1)\nreturn f(2)")
    h("closure defined after an early return", AB, "int", "if isinstance(u, B):\n    return 3\n" + F + "u.x + q\nreturn f(2)", may_reject=False)
    h("closure defined between early returns", "u: Union[A, B, C]", "int", "if isinstance(u, A):\n    return 3\n" + F + "u.y + q\nif isinstance(u, B):\n    return f(2)\nreturn f(4)", may_reject=False)
    h("closure defined between early returns, wrong field", "u: Union[A, B, C]", "int", "if isinstance(u, A):\n    return 3\n" + F + "u.w + q\nif isinstance(u, B):\n    return f(2)\nreturn f(4)")
    h("closure called between assertions", "u: Union[A, B, C], k: int", "int", F + "u.z + q\nif k > 0:\n    return f(2)\nassert not isinstance(u, C)\nif k < -5:\n    return f(3)\nassert isinstance(u, A)\nreturn f(4)")
    h("closure defined after an assertion", AB, "int", "assert isinstance(u, A)\n" + F + "u.x + q\nreturn f(2)")
    h("closure of a closure", AB, "int", "def g(q: int) -> int:\n    def f(p: int) -> int:\n        return u.x + p\n    return f(q)\nif isinstance(u, B):\n    return g(1)\nreturn g(2)")
    h("closure of a closure, narrowed", AB, "int", "if isinstance(u, B):\n    return 1\ndef g(q: int) -> int:\n    def f(p: int) -> int:\n        return u.x + p\n    return f(q)\nreturn g(2)", may_reject=False)
    h("closure of a narrowed then reassigned variable", AB + ", w: Union[A, B]", "int", "if isinstance(u, A):\n    def f(q: int) -> int:\n        return u.x + q\nelse:\n    def f(q: int) -> int:\n        return q\nu = w\nreturn f(1)")
    h("closure of a narrowed variable reassigned in the branch", AB + ", w: Union[A, B]", "int", "if isinstance(u, A):\n    def f(q: int) -> int:\n        return u.x + q\n    u = w\n    return f(1)\nreturn 2")
    h("closure after an early return, reassigned", AB + ", w: Union[A, B]", "int", "if isinstance(u, B):\n    return 2\n" + F + "u.x + q\nu = w\nreturn f(1)")
    h("closure after an early return, reassigned in a branch", AB + ", w: Union[A, B], k: int", "int", "if isinstance(u, B):\n    return 2\n" + F + "u.x + q\nif k > 0:\n    u = w\nreturn f(1)")
    h("closure of a local union", AI + ", k: int", "int", "v = u\n" + F + "v.x + q\nif isinstance(v, int):\n    return v\nreturn f(k)")
    h("closure of a local union, called before", AI + ", k: int", "int", "v = u\n" + F + "v.x + q\nif k > 3:\n    return f(1)\nif isinstance(v, int):\n    return v\nreturn f(k)")
    h("closure of a variable assigned in branches", "k: int", "int", "def f(q: int) -> int:\n    return y + q if isinstance(y, int) else q\nif k > 0:\n    y = 1\n    r = f(1)\nelse:\n    y = b'ab'\n    r = f(2)\nreturn r + f(3)")
    h("closure of a variable assigned in one branch", AI + ", k: int", "int", "y = 4\ndef f(q: int) -> int:\n    return y + q\nr = f(1)\nif isinstance(u, int):\n    y = u\n    r += f(2)\nreturn r + f(3)", may_reject=False)
    h("closure of a loop variable", "l: List[Union[A, B]]", "int", "r = 0\nfor e in l:\n    def f(q: int) -> int:\n        return e.x + q\n    if isinstance(e, B):\n        r += f(1)\nreturn r")
    h("recursive closure", AB + ", k: int", "int", "def f(q: int) -> int:\n    return u.x if q <= 0 else f(q - 1)\nif isinstance(u, B):\n    return f(1)\nreturn f(2)")
    h("mutually recursive closures", AB + ", k: int", "int", "def f(q: int) -> int:\n    return u.x if q <= 0 else g(q - 1)\ndef g(q: int) -> int:\n    return f(q)\nif isinstance(u, B):\n    return g(1)\nreturn f(2)")
    h("narrowed as argument", IY, "int", "def f(y: int) -> int:\n    return y + 1\nif isinstance(u, int):\n    return f(u)\nreturn len(u)")
    h("narrowed returned as union", AB, "Union[A, B]", "if isinstance(u, A):\n    return A(u.x + 1, u.z)\nreturn u", may_reject=False)
    h("narrowed in arithmetic", IY, "int", "return (u + u * 2 - u // 3 if isinstance(u, int) else len(u + u))", may_reject=False)
    h("narrowed compared", IY, "bool", "return u == 3 if isinstance(u, int) else u == b'a'", may_reject=False)
    h("narrowed in text", IY, "str", "return f'{u}' if isinstance(u, int) else 'b'", gen=dict(bytes_len=1, list_len=1))
    h("narrowed loop variable", "l: List[Union[A, B]]", "int", "r = 0\nfor e in l:\n    if isinstance(e, A):\n        r += e.x\n    else:\n        r += e.y\nreturn r", may_reject=False)
    h("loop variable after loop", "l: List[Union[A, B]]", "int", "for e in l:\n    if isinstance(e, A):\n        pass\nreturn e.x")
    h("comprehension filter on element", "l: List[Union[A, B]]", "int", "return sum([e.x for e in l if isinstance(e, A)])")
    h("comprehension conditional", "l: List[Union[A, B]]", "int", "return sum([e.x if isinstance(e, A) else e.y for e in l])")
    h("field of union type", "l: List[Union[A, B]]", "int", "e = l[0]\nassert isinstance(e, B)\nreturn e.y", may_reject=False)
    h("for else merge", AI + ", l: List[int]", "int", "for i in l:\n    if isinstance(u, int):\n        y = u\nelse:\n    y = 4\nreturn y")
    h("for target merge", "u: Union[A, int], l: List[int]", "int", "y = u\nfor y in l:\n    pass\nreturn y.x if isinstance(y, A) else y")
    h("for body merge", "u: Union[A, int], l: List[int]", "int", "y = 3\nfor i in l:\n    y = y + 1\n    if isinstance(u, int):\n        y = u\nreturn y")
    h("parameter shadowing", AB, "int", "def f(u: Union[A, B]) -> int:\n    return u.z\nif isinstance(u, A):\n    return f(B(1, 2)) + u.x\nreturn f(u)")
    h("parameter shadowing, invalid", AB + ", w: Union[A, B]", "int", "def f(u: Union[A, B]) -> int:\n    return u.x\nif isinstance(u, A):\n    return f(w)\nreturn 0")
    h("recursive function", AB + ", k: int", "int", "def f(v: Union[A, B], n: int) -> int:\n    if n <= 0:\n        return v.z\n    if isinstance(v, A):\n        return f(B(v.x, v.z), n - 1) + v.x\n    return f(v, n - 1) + v.y\nreturn f(u, k)", pre=lambda u, k: k < 3, bounded="recursion depth 2")
    h("assertion in one branch", AB + ", k: int", "int", "if k > 0:\n    assert isinstance(u, A)\nreturn u.x")
    h("assertion in both branches", AB + ", k: int", "int", "if k > 0:\n    assert isinstance(u, A)\nelse:\n    assert isinstance(u, A), 'no'\nreturn u.x")
    h("assertion of disjunction", "u: Union[A, B, C]", "int", "assert isinstance(u, A) or isinstance(u, B)\nreturn u.z", may_reject=False)
    h("assertion of negation", "u: Union[A, B, C]", "int", "assert not isinstance(u, A)\nreturn u.y", may_reject=False)
    h("wrong positions", "u: Union[A, B, C]", "int", "assert not isinstance(u, C)\nreturn u.z", may_reject=False)
    h("test of a field", "u: Union[A, B], w: Union[A, B]", "int", "l = [u, w]\nif isinstance(l[0], A):\n    x: A = l[0]\n    return x.x\nreturn 0")
    h("test of an expression keeps the variable", "u: Union[A, B], k: int", "int", "if isinstance((u if k > 0 else B(1, 2)), A):\n    return u.x\nreturn 0")
    h("narrowed to list", "u: Union[List[Anything], Dict[Anything, Anything], int]", "int", "if isinstance(u, List):\n    return len(u)\nelif isinstance(u, int):\n    return u\nreturn len(u)")
    h("class of narrowed", "u: Union[A, B, C]", "int", "if isinstance(u, A):\n    return u.CONSTR_ID\nreturn u.CONSTR_ID * 10 + u.y")
    h("dead branch", "u: A", "int", "if isinstance(u, A):\n    return u.x\nreturn 3")
    h("tautology", "u: Union[A, B]", "int", "if isinstance(u, A) or isinstance(u, B):\n    return u.z\nreturn u.x")
    h("try both again", "u: Union[A, B]", "int", "if isinstance(u, A):\n    if isinstance(u, A):\n        return u.x\n    return u.z\nreturn u.y")
    h("narrowing ends after the branch", "u: Union[A, B], k: int", "int", "if isinstance(u, A):\n    k = u.x\nif k > 3:\n    return u.x\nreturn u.z")
    h("narrowing ends after the loop", "u: Union[A, B], k: int", "int", "while isinstance(u, A) and k > 0:\n    k = k - 5\nreturn u.y", pre=lambda u, k: k < 10)
    h("module variable", "k: int", "int", "return f(B(k, 2))" if False else "def g(v: Union[A, B]) -> int:\n    w = v\n    if isinstance(w, A):\n        return w.x\n    return w.y\nreturn g(B(k, 2)) + g(A(k, 1))")
    for e in ("return l[0]", "m: List[int] = l\nreturn m[0]", "return f(l)", "n = l + [1]\nreturn n[0]", "return l.index(u)", "for z in l:\n    pass\nreturn z", "return l[0] if u in l else 1", "z, w = l\nreturn z", "return max(l)", "return sum(l)"):
        h(f"list of narrowed: {e!r}", IY, "int", "def f(l: List[int]) -> int:\n    return l[0]\nassert isinstance(u, int)\nl = [u, u]\n" + e)
    return HAND


def tasks(tier, seed):
    return grouped(progs(tier), tier, seed, 24) + prog_tasks(hand(), tier, seed)
