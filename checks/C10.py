"""C10 optimisation settings: the script of every configuration against the script of the unoptimised one."""
import importlib
from .common import *

META = dict(level="translation_validation", explanation="For every program of the family the script emitted at each optimisation level and with each single optimisation switched on is compared, path by path and for all "
            "values of the parameters on that path, with the script emitted without optimisation (both are executed symbolically; Python is not involved). The family: the whole-program family of C09, "
            "and programs aimed at each optimiser (constants of every type and nesting, constant functions, classes and branches; dead variables, names, constants, conditions, unreachable code; "
            "indexing at every offset; functions with union parameters).",
            assumptions=["traces are not compared: removing traces is what the highest level documents"])

ALL = ["O1", "O2", "O3", "O0cf", "O0dc", "O0fa", "O0eu", "O3eu"]
FEW = ["O2", "O3eu", "O0cf"]
PROGS = []
CLS = '''from typing import Dict, List, Union
from dataclasses import dataclass
from pycardano import Datum as Anything, PlutusData
@dataclass()
class A(PlutusData):
    CONSTR_ID = 0
    x: int

@dataclass()
class B(PlutusData):
    CONSTR_ID = 1
    x: int
    y: bytes

@dataclass()
class C(PlutusData):
    CONSTR_ID = 2
    a: A
    l: List[int]
    d: Dict[bytes, int]

@dataclass()
class E(PlutusData):
    CONSTR_ID = 0

@dataclass()
class D(PlutusData):
    CONSTR_ID = 300
    u: Union[A, B]

@dataclass()
class F(PlutusData):
    CONSTR_ID = 4
    a: Anything
    l: List[A]
    b: B

'''


def p(name, sig, ret, body, hdr="", **kw):
    kw.setdefault("cfgs", ALL)
    kw.setdefault("gen", dict(list_len=3, bytes_len=1, text_len=1, dict_len=2))
    kw.setdefault("base", "O0")
    PROGS.append(P(name, sig, ret, body, CLS + hdr, **kw))


# constants of every type: (type, expressions)
CONST = [
    ("int", ["0", "-1", "5", "2 ** 70", "-7 // 2", "-7 % 3", "len('äb')", "int('0x1f'[3:3] + '12')", "abs(-3)", "pow(2, 10)", "pow(2, 5, 7)", "sum([1, 2, 3])", "max([3, 1])", "min(2, 1)", "10 if 3 > 2 else 20"]),
    ("bool", ["True", "False", "not 3 > 2", "3 < 4 < 5", "b'a' < b'b'", "1 in [1, 2]", "bool(0)", "any([False, True])", "all([False])"]),
    ("bytes", ["b''", "b'\\x00\\xff'", "b'a' + b'b'", "b'ab' * 3", "b'abc'[1:]", "b'abc'[-2:]", "bytes([1, 2])", "'ä'.encode()"]),
    ("str", ["''", "'ä€\\n'", "'a' + 'b'", "'ab' * 3", "str(5)", "str(-5)", "b'x'.decode()", "hex(255)", "oct(8)", "chr(8364)", "f'{3}x'", "b'\\x0a'.hex()", "str(True)", "str(b'\\x01')", "str([1, 2])"]),
    ("None", ["None"]),
    ("List[int]", ["[1, 2]", "[1] + [2]", "range(3)", "[x for x in [1, 2, 3] if x > 1]", "[1, 2, 3][1:]", "reversed([1, 2])"]),
    ("List[bytes]", ["[b'', b'a']"]), ("List[str]", ["['', 'ä']"]), ("List[bool]", ["[True, False]"]),
    ("List[List[int]]", ["[[1], [2, 3]]"]), ("List[A]", ["[A(1), A(2)]"]),
    ("Dict[int, bytes]", ["{1: b'a'}"]), ("Dict[bytes, List[int]]", ["{b'': [1, 2]}"]), ("Dict[str, A]", ["{'k': A(1)}"]), ("List[Dict[int, int]]", ["[{1: 2}, {3: 4}]"]),
    ("A", ["A(5)", "A(2 + 3)"]), ("B", ["B(-1, b'q')"]), ("C", ["C(A(1), [1, 2], {b'': 3})"]), ("E", ["E()"]),
    ("F", ["F(5, [A(1)], B(2, b'z'))", "F(b'x', [A(1), A(2)], B(2, b'z'))"]),
]
EMPTY = [("List[int]", "[]"), ("List[bytes]", "[]"), ("List[A]", "[]"), ("List[List[int]]", "[[]]"), ("List[List[int]]", "[[1], []]"), ("Dict[int, bytes]", "{}"), ("Dict[bytes, List[int]]", "{b'': []}"),
         ("List[Dict[int, int]]", "[{}]"), ("List[str]", "[]"), ("List[bool]", "[]")]


def build():
    for T, es in CONST:
        n = f"constants {T}"
        # one path per constant
        sel = lambda f: "\n".join(f"if z == {i}:\n    return {f(i, e)}" for i, e in enumerate(es))
        p(f"{n} returned", "z: int", T, sel(lambda i, e: e) + f"\nreturn {es[0]}", cfgs=["O2", "O3", "O0cf"])
        p(f"{n} in module variable", "z: int", T, sel(lambda i, e: f"K{i}") + "\nreturn K0", "".join(f"K{i} = {e}\n" for i, e in enumerate(es)) + "\n", cfgs=["O2", "O0cf"])
        p(f"{n} through function", "z: int", T, sel(lambda i, e: f"f{i}()") + "\nreturn g(z)", "".join(f"def f{i}() -> {T}:\n    w = {e}\n    return w\n" for i, e in enumerate(es)) + f"def g(q: int) -> {T}:\n    w = {es[0]}\n    assert q != 50\n    return w\n", cfgs=["O2", "O0cf"])
        if T != "None":
            p(f"{n} chosen", f"z: int, o: {T}", T, "\n".join(f"if z == {i}:\n    return o if z > 3 else {e}" for i, e in enumerate(es)) + "\nreturn o", cfgs=["O2", "O0cf", "O3"], gen=dict(list_len=1, bytes_len=1, text_len=1, dict_len=1, inner=1))
        if T in ("int", "bool", "bytes", "str", "List[int]", "A", "B", "C", "E"):
            p(f"{n} compared", f"z: int, o: {T}", "bool", sel(lambda i, e: f"o == ({e})") + f"\nreturn ({es[0]}) == o", cfgs=["O2", "O0cf"], gen=dict(list_len=1, bytes_len=1, text_len=1, dict_len=1))
    for T, e in EMPTY:
        p(f"empty {T} {e} local", "z: int", T, f"x: {T} = {e}\nassert z > 0\nreturn x", cfgs=["O2", "O3", "O0cf"])
        p(f"empty {T} {e} module", "z: int", T, "assert z > 0\nreturn K", f"K: {T} = {e}\n\n", cfgs=["O2", "O3", "O0cf"])
        p(f"empty {T} {e} joined", f"o: {T}", T, f"x: {T} = {e}\nreturn x + o" if T.startswith("List") else f"x: {T} = {e}\nreturn x if len(o) > 1 else o", cfgs=["O2", "O3", "O0cf"], gen=dict(list_len=1, bytes_len=1, dict_len=1, inner=1))
    # ------------------------------------------------------------ folding: scope, order, side conditions
    c = dict(cfgs=["O0cf", "O2", "O3"])
    p("fold variable then parameter", "x: int", "int", "return x + f(x)", "y = 5\ndef f(y: int) -> int:\n    return y * 2\n\n", **c)
    p("fold shadowed module constant", "a: int", "int", "k = a\nreturn k + g()", "k = 7\ndef g() -> int:\n    return k\n\n", **c)
    p("fold reassigned", "a: int", "int", "k = 5\nif a > 3:\n    k = 6\nreturn k", **c)
    p("fold in branch only", "a: int", "int", "if a > 3:\n    k = 6\nelse:\n    k = 7\nreturn k", **c)
    p("fold possibly unbound", "a: int", "int", "if a > 3:\n    k = 6\nreturn k", **c)
    p("fold in loop", "a: int", "int", "s = 0\nfor i in [1, 2, 3]:\n    k = i * 2\n    s += k + a\nreturn s", **c)
    p("fold while", "a: int", "int", "k = 0\nwhile k < 3:\n    k += 1\nreturn k + a", **c)
    p("fold for over constant", "a: int", "int", "s = 0\nfor i in L:\n    s += i * a\nreturn s", "L = [1, 2, 3]\n\n", **c)
    p("fold comprehension over constant", "a: int", "List[int]", "return [i * a for i in L if i != 2]", "L = [1, 2, 3]\n\n", **c)
    p("fold comprehension name", "i: int", "int", "return i + sum([i for i in [1, 2]])", **c)
    p("fold function constant args", "a: int", "int", "return f(3) + f(a)", "def f(x: int) -> int:\n    return x * x - 1\n\n", **c)
    p("fold failing function", "a: int", "int", "if a > 3:\n    return f(0)\nreturn 1", "def f(x: int) -> int:\n    return 10 // x\n\n", **c)
    p("fold failing expression", "a: int", "int", "if a > 3:\n    return 1 // 0\nreturn 1", **c)
    p("fold failing index", "a: int", "int", "if a > 3:\n    return [1, 2][5]\nreturn 1", **c)
    p("fold failing assert", "a: int", "int", "if a > 3:\n    assert f(3) == 4\nreturn 1", "def f(x: int) -> int:\n    assert x == 4\n    return x\n\n", **c)
    p("fold missing key", "a: int", "int", "if a > 3:\n    return {1: 2}[3]\nreturn 1", **c)
    p("fold recursion", "a: int", "int", "return f(5) + a", "def f(x: int) -> int:\n    return 1 if x <= 0 else x * f(x - 1)\n\n", **c)
    p("fold mutual recursion", "a: int", "int", "return (1 if even(6) else 0) + a", "def odd(x: int) -> bool:\n    return False if x == 0 else even(x - 1)\ndef even(x: int) -> bool:\n    return True if x == 0 else odd(x - 1)\n\n", **c)
    p("fold function redefined", "a: int", "int", "return f(3) + a", "def f(x: int) -> int:\n    return x * x - 1\ndef f(x: int) -> int:\n    return x + 1\n\n", **c)
    p("fold function of global", "a: int", "int", "return f(3) + a", "k = 2\ndef f(x: int) -> int:\n    return x * k\n\n", **c)
    p("fold function of later global", "a: int", "int", "return f(3) + a", "def f(x: int) -> int:\n    return x * k\nk = 2\n\n", **c)
    p("fold method", "a: int", "int", "return V(3).dbl() + V(a).dbl()", "@dataclass()\nclass V(PlutusData):\n    CONSTR_ID = 9\n    x: int\n    def dbl(self) -> int:\n        return self.x * 2\n\n", **c)
    p("fold overridden name", "a: int", "int", "return f(3) + a", "def f(abs: int) -> int:\n    return abs + 1\n\n", **c)
    p("fold user function named like python builtin", "a: int", "int", "return divmod(3, 4) + a", "def divmod(x: int, y: int) -> int:\n    return x * 10 + y\n\n", **c)
    p("fold local function named like python builtin", "a: int", "int", "def sorted(x: int) -> int:\n    return x * 10\nreturn sorted(4) + a", **c)
    p("fold variable named like python builtin", "a: int", "int", "round = 4\nreturn round + a", **c)
    p("fold parameter named like python builtin", "hash: int", "int", "return hash + 1", **c)
    p("fold field of constant object", "a: int", "int", "b = B(4, b'xyz')\nreturn b.x + len(b.y) + a", **c)
    p("fold field of module object", "a: int", "int", "return K.x + len(K.y) + a", "K = B(4, b'xyz')\n\n", **c)
    p("fold nested object", "a: int", "int", "return K.a.x + K.l[1] + K.d[b'k'] + a", "K = C(A(3), [1, 2], {b'k': 6})\n\n", **c)
    p("fold cbor", "a: int", "bytes", "return K.to_cbor() + bytes([a])", "K = C(A(3), [1, 2], {b'k': 6})\n\n", **c)
    p("fold text of object", "a: int", "str", "return str(K) + str(a > 3)", "K = B(3, b'a')\n\n", **c)
    p("fold object equality", "o: B", "bool", "return o == K", "K = B(3, b'a')\n\n", **c)
    p("fold object in list", "o: A", "bool", "return o in K", "K = [A(1), A(2)]\n\n", **c)
    p("fold list of objects loop", "a: int", "int", "s = a\nfor o in K:\n    s += o.x\nreturn s", "K = [A(1), A(2)]\n\n", **c)
    p("fold dict lookup", "a: int", "bytes", "return K[a]", "K = {1: b'a', 2: b'b'}\n\n", **c)
    p("fold dict keys", "a: int", "int", "s = a\nfor k in K.keys():\n    s = s * 3 + k\nreturn s", "K = {7: b'a'}\n\n", **c)
    p("fold two entry dict keys", "a: int", "int", "s = a\nfor k in K.keys():\n    s = s * 3 + k\nreturn s", "K = {7: b'a', 8: b'b'}\n\n", **c)
    p("fold two entry dict text", "a: int", "str", "return str(K)", "K = {7: b'a', 8: b'b'}\n\n", **c)
    p("fold dict repeated key", "a: int", "int", "return {1: 2, 1: 3}[1] + a", **c)
    p("fold tuple", "a: int", "int", "t = (1, b'ab')\nreturn t[0] + len(t[1]) + a", **c)
    p("fold tuple destructure", "a: int", "int", "x, y = 3, 4\nx, y = y, x\nreturn x * 10 + y + a", **c)
    p("fold and or on ints", "a: int", "int", "return (1 if (5 and 3) == 3 else 0) + a", **c)
    p("fold and on bools", "a: int", "bool", "return (3 > 2 and 2 > 1) or a > 3", **c)
    p("fold conditional constant", "a: int", "int", "return (a if 3 > 2 else 1 // 0) + (1 if not True else 2)", **c)
    p("fold union variable", "a: int", "int", "u: Union[A, B] = A(1)\nif isinstance(u, A):\n    return u.x + a\nreturn len(u.y)", **c)
    p("fold union variable else", "a: int", "int", "u: Union[A, B] = B(1, b'z')\nif isinstance(u, A):\n    return u.x + a\nreturn len(u.y)", **c)
    p("fold union list", "a: int", "int", "m: List[Union[A, B]] = [A(4), A(5)]\ns = a\nfor e in m:\n    if isinstance(e, A):\n        s += e.x\n    else:\n        s += len(e.y)\nreturn s", **c)
    p("fold union list mixed", "a: int", "int", "m: List[Union[A, B]] = [A(4), B(5, b'z')]\ns = a\nfor e in m:\n    if isinstance(e, A):\n        s += e.x\n    else:\n        s += len(e.y)\nreturn s", **c)
    p("fold union field", "a: int", "int", "d = D(A(4))\nu = d.u\nif isinstance(u, A):\n    return u.x + a\nreturn len(u.y)", **c)
    p("fold union field reassigned", "a: int", "int", "d = D(A(1))\nif a > 3:\n    d = D(B(2, b''))\nreturn d.u.x + a", **c)
    p("fold union field list", "a: int", "int", "l = [D(A(1)), D(B(2, b''))]\nreturn l[0].u.x + l[1].u.x + a", **c)
    p("fold union int bytes", "a: int", "int", "x: Union[int, bytes] = 5\ny: Union[int, bytes] = b'5'\nreturn (x if isinstance(x, int) else len(x)) + (y if isinstance(y, int) else len(y)) + a", **c)
    p("fold union argument", "a: int", "int", "return f(A(3)) + f(B(1, b'z')) + a", "def f(u: Union[A, B]) -> int:\n    if isinstance(u, A):\n        return u.x\n    return len(u.y)\n\n", **c)
    p("fold union constant argument", "a: int", "int", "return f(K) + f(L) + a", "def f(u: Union[A, B]) -> int:\n    if isinstance(u, A):\n        return u.x\n    return len(u.y)\nK = A(3)\nL = B(2, b'z')\n\n", **c)
    p("fold anything", "a: int", "bool", "x: Anything = 5\ny: Anything = a\nreturn x == y", **c)
    p("fold none", "a: int", "int", "x = None\nreturn 5 + a if x is None else 4", **c) if False else None
    p("fold constant index", "l: List[int]", "int", "return l[K - 1] + l[-K]", "K = 2\n\n", **c)
    p("fold constant slice", "b: bytes", "bytes", "return b[K - 2:K + 1]", "K = 2\n\n", gen=dict(bytes_len=4), **c)
    p("fold bytes of constant list", "a: int", "bytes", "return bytes([1, 2, 3]) + bytes([a])", **c)
    p("fold text formatting", "a: int", "str", "return f'{K}-{a > 3}-{[1, 2]}-{b\"q\"}'", "K = 5\n\n", **c)
    p("fold bool constants", "a: bool", "bool", "return (a == True) if 1 == 1 else False", **c)
    p("fold comparison mixed", "a: int", "bool", "return (1 == True) and a > 3", **c)
    p("fold assertion in module", "a: int", "int", "return a + K", "K = 5\nassert K == 5\n\n", **c)
    p("fold print kept", "a: int", "int", "print('x')\nk = 3\nprint(str(k))\nreturn a + k", **c)
    p("fold function printing", "a: int", "int", "return f(3) + a", "def f(x: int) -> int:\n    print('called')\n    return x + 1\n\n", **c)
    p("fold class with eq", "a: int", "bool", "return V(3) == V(3) and V(a) == V(3)", "@dataclass()\nclass V(PlutusData):\n    CONSTR_ID = 9\n    x: int\n    def __eq__(self, other: 'V') -> bool:\n        return self.x != other.x\n\n".replace("'V'", "Self").replace("@dataclass", "from typing import Self\n@dataclass", 1), **c)
    # ------------------------------------------------------------ dead code
    c = dict(cfgs=["O0dc", "O1", "O2", "O3"])
    for nm, e in (("division", "10 // a"), ("index", "[1, 2][a]"), ("bytes index", "b'ab'[a]"), ("call", "f(a)"), ("conversion", "chr(a)"), ("dict", "{1: 2}[a]"), ("pow", "2 ** a"), ("attribute", "B(a, b'').x"), ("compare", "a > 3 // a"),
                  ("conditional", "1 if a > 3 else 5 // 0"), ("boolop", "a > 3 and 5 // 0 > 1"), ("comprehension", "[1 // e for e in [a]]"), ("list", "[a // a]"), ("unary", "-(1 // a)"), ("slice", "b'abc'[a:1 // a]"), ("tuple", "(1 // a, 2)"), ("fstring", "f'{1 // a}'")):
        h = "def f(x: int) -> int:\n    assert x > 3\n    return x\n\n" if nm == "call" else ""
        q = dict(c, bound=dict(rep=3)) if nm in ("pow", "conversion") else c
        pre = dict(pre=lambda a: a <= 3) if nm == "pow" else dict(pre=lambda a: (a <= 300)) if nm == "conversion" else {}
        p(f"dead {nm} variable", "a: int", "int", f"x = {e}\nreturn 3", h, **q, **pre)
        p(f"dead {nm} expression", "a: int", "int", f"{e}\nreturn 3", h, **q, **pre)
        p(f"dead {nm} in branch", "a: int", "int", f"if a != 7:\n    x = {e}\nreturn 3", h, **q, **pre)
        p(f"dead {nm} after return", "a: int", "int", f"if a < 7:\n    return 1\n    {e}\nelse:\n    return 2\n{e}\nreturn 3", h, **q, **pre)
    p("dead name unbound", "a: int", "int", "if a > 3:\n    x = 1\nx\nreturn 3", **c)
    p("dead copy unbound", "a: int", "int", "if a > 3:\n    x = 1\ny = x\nreturn 3", **c)
    p("dead copy of copy", "a: int", "int", "x = a\ny = x\nz = y\nreturn 3", **c)
    p("dead unbound for", "l: List[int]", "int", "for e in l:\n    x = e\nx\nreturn 3", **c)
    p("dead unbound for target", "l: List[int]", "int", "for e in l:\n    pass\ny = e\nreturn 3", **c)
    p("dead unbound while", "a: int", "int", "while a > 0:\n    x = a\n    a -= 1\nx\nreturn 3", pre=lambda a: a <= 2, ints=[-1, 0, 1, 2], **c)
    p("dead unbound else", "a: int", "int", "if a > 3:\n    x = 1\nelse:\n    y = 2\nx\nreturn 3", **c)
    p("dead unbound nested", "a: int", "int", "if a > 3:\n    if a > 5:\n        x = 1\n    x\nelse:\n    x = 2\nreturn 3", **c)
    p("dead both branches", "a: int", "int", "if a > 3:\n    x = 1\nelse:\n    x = 2\nx\nreturn 3", **c)
    p("dead unbound function", "a: int", "int", "if a > 3:\n    def f(x: int) -> int:\n        return x\nf\nreturn 3", **c)
    p("dead unbound outer", "a: int", "int", "def g(x: int) -> int:\n    k\n    return x\nif a > 3:\n    k = 1\nreturn g(a)", **c)
    p("dead unbound closure", "a: int", "int", "def g(x: int) -> int:\n    y = k\n    return x\nr = g(a) if a > 5 else 0\nk = 1\nreturn r + g(a)", **c)
    p("dead local shadow", "a: int", "int", "return f(a)", "k = 1\ndef f(x: int) -> int:\n    if x > 3:\n        k = 2\n    k\n    return x\n\n", **c)
    p("dead function", "a: int", "int", "def f(x: int) -> int:\n    assert x > 3\n    return x\nreturn a", **c)
    p("dead class", "a: int", "int", "return a", "@dataclass()\nclass V(PlutusData):\n    CONSTR_ID = 9\n    x: int\n    def m(self) -> int:\n        return self.x // 0\n\n", **c)
    p("dead narrowing assignment", "u: Union[int, bytes]", "int", "x: int = u\nreturn 3", **c)
    p("dead data cast", "u: Anything", "int", "x: int = u\nreturn 3", **c)
    p("dead data cast record", "u: Anything", "int", "x: B = u\nreturn 3", **c)
    p("dead method", "a: int", "int", "V(a) == V(a)\nreturn a", "from typing import Self\n@dataclass()\nclass V(PlutusData):\n    CONSTR_ID = 9\n    x: int\n    def __eq__(self, other: Self) -> bool:\n        assert self.x > 3\n        return True\n\n", **c)
    p("unreachable after return", "a: int", "int", "return a\nassert False\nreturn 1", **c)
    p("unreachable after if", "a: int", "int", "if a > 3:\n    return 1\nelse:\n    return 2\nassert False", **c)
    p("unreachable after assert", "a: int", "int", "if a > 3:\n    assert False\n    return 1\nreturn a", **c)
    p("fall through fold", "a: int, b: int", "int", "x = 1\nif a > 3:\n    return b\nelse:\n    x = 2\nx += a\nif b > 3:\n    x += 1\nelse:\n    return x * 2\nx += 5\nreturn x", **c)
    p("fall through fold unbound", "a: int, b: int", "int", "if a > 3:\n    return b\nelse:\n    x = 2\n    if b > 3:\n        return 7\nreturn x", **c)
    p("fall through in loop", "l: List[int], b: int", "int", "s = 0\nfor e in l:\n    if e > b:\n        return s\n    else:\n        s += e\n    s += 1\nreturn s", **c)
    p("fall through while else", "a: int", "int", "while a > 0:\n    if a == 2:\n        return 9\n    a -= 1\nelse:\n    a = 5\nreturn a", pre=lambda a: a <= 3, ints=[-1, 0, 1, 2, 3], **c)
    p("constant branches", "a: int", "int", "if True:\n    a += 1\nelse:\n    a = 1 // 0\nif 0:\n    a += 1\nif '':\n    a += 2\nif b'x':\n    a += 3\nif 'x' and a > 3:\n    a += 10\nif False or a > 5:\n    a += 100\nreturn a", **c)
    p("constant conditions", "a: int", "int", "return (1 if True else a) + (2 if not True else a) + (3 if a > 3 and True else 4) + (5 if a > 3 or False else 6) + (7 if a > 3 and False else 8) + (9 if a > 3 or True else 10)", **c)
    p("constant condition failing operand", "a: int", "int", "return (1 if 1 // a > 0 or True else 2) + (1 if False and 1 // a > 0 else 2)", **c)
    p("constant condition failing operand order", "a: int", "int", "return 1 if 1 // a > 0 and False else 2", **c)
    p("constant condition short circuit", "a: int", "int", "return 1 if True or 1 // a > 0 else 2", **c)
    p("constant assert", "a: int", "int", "assert True\nassert 1\nassert 'x', 'msg'\nif a > 3:\n    assert 0\nreturn a", **c)
    p("while false", "a: int", "int", "while False:\n    a += 1\nelse:\n    a += 5\nreturn a", **c)
    p("empty branches", "a: int", "int", "if a > 3:\n    pass\nif 1 // a > 0:\n    pass\nelse:\n    pass\nfor i in [1, 2]:\n    pass\nreturn a", **c)
    p("empty loop failing iterator", "a: int", "int", "for i in [1 // a]:\n    pass\nreturn a", **c)
    p("empty while", "a: int", "int", "while 1 // a > 5:\n    pass\nreturn a", **c)
    p("dead loop variable", "l: List[int]", "int", "s = 0\nfor e in l:\n    x = 10 // e\n    s += 1\nreturn s", **c)
    p("dead tuple part", "a: int, b: int", "int", "x, y = a // b, b\nreturn y", **c)
    p("dead accumulators", "l: List[int]", "int", "s = 0\nt = 0\nfor e in l:\n    s += e\n    t += s\nreturn s", **c)
    p("dead argument", "a: int", "int", "return f(a, 1 // a)", "def f(x: int, y: int) -> int:\n    return x\n\n", **c)
    p("dead argument object", "a: int", "int", "b = B(1 // a, b'')\nreturn a", **c)
    p("dead print", "a: int", "int", "x = print(str(1 // a))\nreturn a", **c)
    # ------------------------------------------------------------ fast list access
    c = dict(cfgs=["O0fa", "O0fa5", "O2fa3", "O2"])
    p("index any", "l: List[int], i: int", "int", "l[i]", gen=dict(list_len=7), **c)
    p("index constant", "l: List[int]", "int", "l[0] + l[3] * 10 + l[-1] * 100", gen=dict(list_len=6), **c)
    p("index far", "i: int", "int", "[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13][i]", **c)
    p("index negative far", "i: int", "int", "[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13][i - 14]", **c)
    p("index bytes list", "l: List[bytes], i: int", "bytes", "l[i]", gen=dict(list_len=4, bytes_len=0), **c)
    p("index records", "l: List[A], i: int", "int", "l[i].x", gen=dict(list_len=6), **c)
    p("index lists", "l: List[List[int]], i: int", "int", "len(l[i])", gen=dict(list_len=4, inner=1), **c)
    p("index any list", "l: List[Anything], i: int", "Anything", "l[i]", gen=dict(list_len=4), **c)
    p("fields", "r: C", "int", "r.a.x + len(r.l) + r.d[b'']", gen=dict(list_len=2, dict_len=1, bytes_len=1), **c)
    p("many fields", "r: G", "int", "r.a + r.b * 2 + r.c * 3 + r.d * 5 + r.e * 7 + r.f * 11 + r.g * 13 + r.h * 17", "@dataclass()\nclass G(PlutusData):\n    CONSTR_ID = 7\n    a: int\n    b: int\n    c: int\n    d: int\n    e: int\n    f: int\n    g: int\n    h: int\n\n", **c)
    p("slice list", "l: List[int], i: int, j: int", "List[int]", "l[i:j]", gen=dict(list_len=3), **c)
    # ------------------------------------------------------------ union expansion
    c = dict(cfgs=["O0eu", "O3eu"])
    AB = "Union[A, B]"
    use = "return f(A(a)) * 100 + f(B(a, b'xy'))"
    for nm, body in {
        "if": "if isinstance(u, A):\n    return u.x\nreturn len(u.y)",
        "if else": "if isinstance(u, B):\n    r = len(u.y)\nelse:\n    r = u.x\nreturn r",
        "not": "if not isinstance(u, A):\n    return len(u.y)\nreturn u.x",
        "conditional": "return u.x if isinstance(u, A) else len(u.y)",
        "and": "return 1 if isinstance(u, B) and len(u.y) > 1 else u.x",
        "or": "return 1 if isinstance(u, A) or len(u.y) > 1 else 2",
        "shared field": "return u.x",
        "assert": "assert isinstance(u, A)\nreturn u.x",
        "while": "n = 0\nwhile isinstance(u, B) and n < 2:\n    n += 1\nreturn n + u.x",
        "for": "s = 0\nfor i in [1, 2]:\n    if isinstance(u, A):\n        s += u.x\n    else:\n        s += i\nreturn s",
        "reassigned": "u = B(1, b'z')\nif isinstance(u, A):\n    return u.x\nreturn len(u.y) + 5",
        "loop rebinds": "s = 0\nfor u in [A(1), A(2)]:\n    if isinstance(u, A):\n        s += u.x\nreturn s",
        "comprehension rebinds": "return sum([1 if isinstance(u, A) else 10 for u in [A(1), A(2)]]) + u.x",
        "nested function same name": "def g(u: Union[A, B]) -> int:\n    if isinstance(u, A):\n        return 1\n    return 2\nreturn g(B(1, b'')) + 10 * g(u)",
        "nested function reads": "def g(k: int) -> int:\n    if isinstance(u, A):\n        return k\n    return 2 * k\nreturn g(5)",
        "passed on": "def g(w: Union[A, B]) -> int:\n    return 1 if isinstance(w, A) else 2\nreturn g(u) * 3",
        "aliased": "v = u\nif isinstance(v, A):\n    return 1\nreturn 2",
        "both": "r = 0\nif isinstance(u, A):\n    r += 1\nif isinstance(u, B):\n    r += 2\nreturn r",
        "recursive": "if isinstance(u, B):\n    return f(A(u.x + 1)) + 1\nreturn u.x",
        "constructor comparison": "return 1 if u == A(3) else 2",
        "unreachable field": "if isinstance(u, A):\n    return u.x\nelif isinstance(u, B):\n    return len(u.y)\nreturn 0",
    }.items():
        p(f"expand {nm}", "a: int", "int", use, f"def f(u: {AB}) -> int:\n{ind(body)}\n", **c)
        p(f"expand {nm} unknown", f"w: {AB}", "int", "return f(w)", f"def f(u: {AB}) -> int:\n{ind(body)}\n", gen=dict(bytes_len=2), **c)
        p(f"expand {nm} local", "a: int", "int", f"def f(u: {AB}) -> int:\n{ind(body)}{use}", **c)
    p("expand int bytes", "a: int, b: bytes", "int", "return f(a) * 10 + f(b)", "def f(x: Union[int, bytes]) -> int:\n    if isinstance(x, int):\n        return x + 1\n    return len(x)\n\n", **c)
    p("expand two unions", "a: int, b: bytes", "int", "return f(a, b) + f(b, a) * 3 + f(a, a) * 5 + f(b, b) * 7", "def f(x: Union[int, bytes], y: Union[bytes, int]) -> int:\n    r = 0\n    if isinstance(x, int):\n        r += x\n    else:\n        r += len(x)\n    if isinstance(y, int):\n        return r * 2\n    return r + len(y)\n\n", **c)
    p("expand partly reassigned", "a: int, b: bytes", "int", "return f(a, b) + f(b, a) * 3", "def f(x: Union[int, bytes], y: Union[bytes, int]) -> int:\n    r = 0\n    if isinstance(x, int):\n        r += x\n    y = x\n    if isinstance(y, int):\n        return r * 2\n    return r + 3\n\n", **c)
    p("expand containers", "l: List[Anything], a: int", "int", "return f(l) + f(a)", "def f(x: Union[int, List[Anything]]) -> int:\n    if isinstance(x, int):\n        return x\n    return len(x)\n\n", gen=dict(list_len=2), **c)
    p("expand dict", "d: Dict[Anything, Anything], a: int", "int", "return f(d) + f(a)", "def f(x: Union[int, Dict[Anything, Anything]]) -> int:\n    if isinstance(x, int):\n        return x\n    return len(x)\n\n", gen=dict(dict_len=1), **c)
    p("expand returns union", "a: int", "int", "r = f(A(a))\nif isinstance(r, B):\n    return len(r.y)\nreturn r.x", "def f(u: Union[A, B]) -> Union[A, B]:\n    if isinstance(u, A):\n        return B(u.x, b'abc')\n    return u\n\n", **c)
    p("expand method", "a: int", "int", "return V(a).m(A(1)) + V(a).m(B(1, b''))", "@dataclass()\nclass V(PlutusData):\n    CONSTR_ID = 9\n    x: int\n    def m(self, u: Union[A, B]) -> int:\n        if isinstance(u, A):\n            return self.x\n        return 2\n\n", **c)
    p("expand mixed arguments", "a: int", "int", "return f(a, A(1), b'q') + f(a, B(1, b''), b'')", "def f(k: int, u: Union[A, B], z: bytes) -> int:\n    if isinstance(u, A):\n        return k + len(z)\n    return k * 2\n\n", **c)
    p("expand closure", "a: int", "int", "def f(u: Union[A, B]) -> int:\n    if isinstance(u, A):\n        return a\n    return 2\na += 5\nreturn f(A(1)) + f(B(1, b''))", **c)
    p("expand three classes", "a: int", "int", "return f(A(a)) + f(B(a, b'')) * 10 + f(D(A(a))) * 100", "def f(u: Union[A, B, D]) -> int:\n    if isinstance(u, A):\n        return 1\n    elif isinstance(u, D):\n        w = u.u\n        return 3 if isinstance(w, A) else 4\n    return 2\n\n", **c)
    p("expand joined argument", "a: int", "int", "u: Union[A, B] = A(a) if a > 3 else B(2, b'')\nreturn f(u)", "def f(x: Union[A, B]) -> int:\n    if isinstance(x, A):\n        return 1\n    return 2\n\n", **c)
    p("expand narrowed argument", "u: Union[A, B]", "int", "if isinstance(u, A):\n    return f(u)\nreturn f(u) * 10", "def f(x: Union[A, B]) -> int:\n    if isinstance(x, A):\n        return 1\n    return 2\n\n", **c)
    p("expand function value", "a: int", "int", "h = f\nreturn h(A(a)) + h(B(a, b''))", "def f(x: Union[A, B]) -> int:\n    if isinstance(x, A):\n        return 1\n    return 2\n\n", **c)
    p("expand validator parameter", "u: Union[A, B], w: Union[int, bytes]", "int", "r = 0\nif isinstance(u, A):\n    r += 1\nif isinstance(w, int):\n    r += 2\nreturn r", gen=dict(bytes_len=1), **c)
    # ------------------------------------------------------------ the whole-program family of C09
    c09 = importlib.import_module("checks.C09")
    import copy
    for q in c09.progs("quick"):
        if q.may_reject or q.reject or "prelude" in q.name:
            continue
        q = copy.copy(q)
        q.name = "whole: " + q.name
        q.base, q.cfgs, q.trace = "O0", list(FEW), False
        PROGS.append(q)


def progs(tier):
    if not PROGS:
        build()
    return PROGS


def tasks(tier, seed):
    return prog_tasks(progs(tier), tier, seed)
