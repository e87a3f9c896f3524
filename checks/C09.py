"""C09 whole programs: statements, control flow, functions, scoping."""
from .common import *
from . import lists

META = dict(level="translation_validation", explanation="A family of programs covering every statement form and its combinations (assignment forms, branches, while/for loops with else, early returns, "
            "asserts, functions, recursion, mutual recursion, closures, shadowing, comprehensions, short-circuit evaluation, module-level code, classes with methods, validators with parameters, imports) "
            "is compiled by the real compiler at four optimisation levels; for every path the script's outcome equals CPython's for all integer, boolean, byte-string and object inputs on that path; "
            "list lengths and iteration counts are bounded as stated, except for 31 programs with for and while loops that are discharged for every length and "
            "number of rounds by cutting both loops at their heads.")

CF = ["O0", "O1", "O2", "O3"]
G = dict(list_len=3, bytes_len=1, text_len=1, dict_len=2)
CLS = IMP + '''
@dataclass()
class A(PlutusData):
    CONSTR_ID = 0
    x: int
    y: bytes

@dataclass()
class B(PlutusData):
    CONSTR_ID = 1
    x: int
    z: int

'''
PROGS = []


def p(name, sig, ret, body, hdr="", **kw):
    kw.setdefault("cfgs", CF)
    kw.setdefault("gen", G)
    PROGS.append(P(name, sig, ret, body, hdr, **kw))


def build():
    # ------------------------------------------------------------ assignments
    p("assign chain", "a: int, b: int", "int", "x = a\ny = x + b\nx = y * 2\ny = x - y\nreturn x + y")
    p("augmented", "a: int, b: int", "int", "x = a\nx += b\nx -= 3\nx *= b\nreturn x")
    p("augmented floor mod", "a: int, b: int", "int", "x = a\nx //= b\ny = a\ny %= b\nreturn x * 1000 + y")
    p("augmented text", "a: str, b: bytes", "str", "x = a\nx += 'z'\ny = b\ny += b'q'\nreturn x + str(len(y))")
    p("augmented list", "a: List[int], b: int", "List[int]", "x = a[:]\nx += [b]\nreturn x + a")
    p("augmented list alias", "a: List[int], b: int", "List[int]", "x = a\nx += [b]\nreturn x + a")
    p("tuple assign", "a: int, b: int", "int", "x, y = a, b\nx, y = y, x\nreturn x * 10 + y")
    p("tuple assign three", "a: int, b: int, c: int", "int", "x, y, z = a, b, c\nx, y, z = z, x, y\nreturn x * 100 + y * 10 + z")
    p("tuple assign depends", "a: int, b: int", "int", "x, y = a, b\nx, y = x + y, x - y\nreturn x * 10 + y")
    p("tuple assign nested", "a: int, b: int, c: int", "int", "(x, y), z = (a, b), c\nreturn x * 100 + y * 10 + z")
    p("tuple from variable", "a: int, b: bytes", "int", "t = (a, b)\nx, y = t\nreturn x + len(y)")
    p("annotated", "a: int", "int", "x: int = a\ny: int = x + 1\nx = y\nreturn x")
    p("annotated reassign union", "a: int, b: bytes", "int", "x: Union[int, bytes] = a\nif a > 3:\n    x = b\nif isinstance(x, bytes):\n    return len(x)\nreturn x")
    p("swap in loop", "a: int, b: int, l: List[int]", "int", "x, y = a, b\nfor e in l:\n    x, y = y, x + e\nreturn x * 10 + y")
    # ------------------------------------------------------------ keyword calls
    K = "def f(a: int, b: int) -> int:\n    return a * 10 - b\n\n"
    p("keyword call", "x: int, y: int", "int", "f(a=x, b=y)", K)
    p("keyword call swapped", "x: int, y: int", "int", "f(b=x, a=y)", K)
    p("keyword call mixed", "x: int, y: int", "int", "f(y, b=x)", K)
    p("keyword call nested", "x: int, y: int", "int", "f(b=f(b=x, a=y), a=f(x, b=y))", K)
    p("keyword call inner function same name", "x: int, y: int", "int", "def g(u: int) -> int:\n    def f(b: int, a: int) -> int:\n        return a - b * 3\n    return f(a=u, b=y)\nreturn g(x) + f(b=x, a=y)", K)
    p("keyword call method", "x: int, y: int", "int", "C(v=x).m(b=y, a=x) + C(y).m(x, b=3)", IMP + "@dataclass()\nclass C(PlutusData):\n    CONSTR_ID = 0\n    v: int\n    def m(self, a: int, b: int) -> int:\n        return self.v * 100 + a * 10 - b\n\n", may_reject=True)
    p("keyword construction", "x: int, y: int", "int", "o = C(w=x, v=y)\nreturn o.v * 10 + o.w", IMP + "@dataclass()\nclass C(PlutusData):\n    CONSTR_ID = 0\n    v: int\n    w: int\n\n")
    p("keyword call redefinition", "x: int, y: int", "int", "g(x, y)", K + "def g(x: int, y: int) -> int:\n    return f(a=x, b=y)\n\ndef f(b: int, a: int) -> int:\n    return a * 10 - b\n\n", may_reject=True)
    p("keyword call reassigned", "x: int, y: int", "int", "f = g\nreturn f(a=x, b=y)", "def g(b: int, a: int) -> int:\n    return a * 10 - b\n\n" , may_reject=True)
    p("keyword call rebound", "x: int, y: int", "int", "def f(a: int, b: int) -> int:\n    return a * 10 - b\nif x > 3:\n    f = g\nreturn f(a=x, b=y)", "def g(b: int, a: int) -> int:\n    return a * 10 - b\n\n", may_reject=True)
    T = "def n(v: int) -> int:\n    print('n' + str(v))\n    return v\n\n"
    T += "def t(v: str) -> str:\n    print('t' + v)\n    return v\n\ndef B(v: bytes) -> bytes:\n    print('b')\n    return v\n\ndef L(v: List[int]) -> List[int]:\n    print('L')\n    return v\n\n"
    CC = IMP + "@dataclass()\nclass C(PlutusData):\n    CONSTR_ID = 0\n    v: int\n    w: int\n\n"
    EFF = {
        "keyword call": ("f(b=n(x), a=n(y))", K), "positional call": ("f(n(x), n(y)) + n(3) * n(4)", K), "nested call": ("f(f(n(x), n(1)), n(y))", K),
        "add": ("n(x) + n(y) - n(1)", ""), "divide": ("n(x) // n(y)", ""), "compare": ("1 if n(x) < n(y) else 2", ""), "equal": ("1 if n(x) == n(y) else 2", ""), "reverse compare": ("1 if n(x) > n(y) else n(7)", ""), "not equal": ("1 if n(x) != n(y) else 2", ""),
        "ge": ("1 if n(x) >= n(y) else 2", ""), "chain": ("1 if n(x) < n(y) <= n(3) else 2", ""), "and or": ("1 if n(x) > 1 and n(y) > 2 or n(3) == x else 2", ""),
        "not": ("1 if not n(x) > 3 else n(y)", ""), "in": ("1 if n(x) in [n(y), n(2)] else 2", ""), "list": ("[n(x), n(y), n(2)][1]", ""), "tuple": ("(n(x), n(y))[0]", ""), "dict": ("{n(x): n(y)}[x]", ""),
        "record": ("C(n(x), n(y)).v", CC), "record keyword": ("C(w=n(x), v=n(y)).v", CC), "text": ("len((t('a') + t('b')).encode())", ""), "bytes times": ("len(n(2) * B(b'q'))", ""), "index": ("L([x, y])[n(1)]", ""), "negative index": ("L([x, y])[n(-1)]", ""), "slice": ("len(L([x, y, x])[n(0):n(2)])", ""), "bytes index": ("B(b'qrs')[n(1)]", ""), "bytes slice": ("len(B(b'qrs')[n(0):n(2)])", ""),
        "comprehension": ("sum([n(e) * n(y) for e in L([x, y]) if n(e) > 1])", ""), "dict comprehension": ("len({n(e): n(e + 1) for e in [x, x + 1]})", ""), "builtin": ("max([n(x), n(y)]) + pow(n(2), n(3)) + abs(n(x))", ""), "conditional": ("n(x) if n(y) > 2 else n(3)", ""),
        "assign tuple": ("p, q = n(x), n(y)\nreturn p - q", ""), "augmented": ("p = n(x)\np += n(y)\nreturn p", ""), "for": ("r = 0\nfor e in L([n(x), n(y)]):\n    r += n(e)\nreturn r", ""), "while": ("r = 0\nwhile n(r) < 3:\n    r += n(1)\nreturn r + x + y", ""),
        "assert": ("assert n(x) > 2, t('m')\nreturn n(y)", ""), "print": ("print(n(x), n(y))\nreturn 1", ""), "f string": ("print(f'{n(x)} and {n(y)}')\nreturn 1", ""), "return": ("if n(x) > 2:\n    return n(y)\nn(5)\nreturn n(6)", ""), "expression": ("n(x)\nn(y)\nreturn 1", ""),
        "default of closure": ("k = n(x)\ndef g(u: int) -> int:\n    return u + k\nreturn g(n(y)) + g(n(3))", ""),
    }
    for nm, (body, hd) in EFF.items():
        p("order of effects " + nm, "x: int, y: int", "int", body, (hd or IMP) + T if hd != K else IMP + hd + T, cfgs=["O0", "O1"], trace=True, pre=lambda x, y: z3_and(x > -9, x < 9, y > -9, y < 9), max_paths=300)
    # ------------------------------------------------------------ branches
    p("if", "a: int, b: int", "int", "x = 0\nif a > b:\n    x = a\nreturn x")
    p("if else", "a: int, b: int", "int", "if a > b:\n    x = a\nelse:\n    x = b\nreturn x")
    p("if elif else", "a: int", "int", "if a < 0:\n    x = -1\nelif a == 0:\n    x = 0\nelif a < 10:\n    x = 1\nelse:\n    x = 2\nreturn x")
    p("nested if", "a: int, b: int", "int", "x = 1\nif a > 0:\n    if b > 0:\n        x = 2\n    else:\n        x = 3\n    x = x * 10\nelse:\n    if b > 0:\n        x = 4\nreturn x")
    p("early return", "a: int", "int", "if a > 5:\n    return a\na = a * 2\nif a > 4:\n    return a + 1\nreturn a - 1")
    p("early return nested", "a: int, b: int", "int", "if a > 0:\n    if b > 0:\n        return 1\n    x = 2\nelse:\n    x = 3\n    if b > 5:\n        return 4\nreturn x")
    p("return in both", "a: int", "int", "if a > 0:\n    return 1\nelse:\n    return 2")
    p("conditional expression", "a: int, b: int", "int", "(a if a > b else b) + (1 if a == b else 2 if a > b else 3)")
    p("unbound use", "a: int", "int", "if a > 3:\n    x = 1\nreturn x")
    p("unbound in one branch", "a: int", "int", "if a > 3:\n    x = 1\nelse:\n    y = 2\nif a > 3:\n    return x\nreturn y")
    p("truth of values", "a: int, b: bytes, l: List[int]", "int", "x = 0\nif a:\n    x += 1\nif b:\n    x += 10\nif l:\n    x += 100\nif not a:\n    x += 1000\nreturn x")
    p("truth of text and dict", "s: str, d: Dict[int, int]", "int", "(1 if s else 2) + (10 if d else 20) + (100 if not s else 200)")
    p("pass", "a: int", "int", "if a > 3:\n    pass\nelse:\n    a = 4\npass\nreturn a")
    p("expression statement", "a: int", "int", "a + 1\n10 // a\nreturn a", cfgs=["O0", "O1"])
    p("expression statement call", "a: int", "int", "def f(x: int) -> int:\n    assert x > 3\n    return x\nf(a)\nreturn a")
    # ------------------------------------------------------------ asserts
    p("assert", "a: int", "int", "assert a > 3\nreturn a")
    p("assert message", "a: int", "int", "assert a > 3, 'too small'\nreturn a")
    p("assert false branch", "a: int", "int", "if a > 3:\n    assert False, 'no'\nreturn a")
    p("assert after return", "a: int", "int", "if a > 3:\n    return 1\nassert a == 3\nreturn 2")
    p("assert unused value", "a: int, b: int", "int", "x = a // b\nreturn 3", cfgs=["O0", "O1"])
    p("assert in loop", "l: List[int]", "int", "s = 0\nfor e in l:\n    assert e >= 0, 'neg'\n    s += e\nreturn s")
    p("assert on non bool", "a: int, b: bytes", "int", "assert a\nassert b\nreturn 1")
    # ------------------------------------------------------------ while
    w = dict(bound=dict(rep=3), max_paths=300)
    p("while count", "a: int", "int", "i = 0\ns = 0\nwhile i < a:\n    s += i\n    i += 1\nreturn s", pre=lambda a: a <= 4, ints=list(range(-2, 5)))
    p("while else", "a: int", "int", "i = 0\nwhile i < a:\n    i += 2\nelse:\n    i += 100\nreturn i", pre=lambda a: a <= 5, ints=list(range(-2, 6)))
    p("while return", "a: int, b: int", "int", "i = 0\nwhile i < a:\n    if i * i == b:\n        return i\n    i += 1\nreturn -1", pre=lambda a, b: a <= 4, ints=list(range(-2, 5)))
    p("while nested", "a: int", "int", "i = 0\nc = 0\nwhile i < a:\n    j = 0\n    while j < i:\n        c += 1\n        j += 1\n    i += 1\nreturn c", pre=lambda a: a <= 3, ints=list(range(-2, 4)))
    p("while shadow", "a: int", "int", "while a > 0:\n    b = a\n    a = a - 2\nreturn a", pre=lambda a: a <= 5, ints=list(range(-2, 6)))
    p("while unbound after", "a: int", "int", "while a > 0:\n    b = a\n    a = a - 2\nreturn b", pre=lambda a: a <= 5, ints=list(range(-2, 6)))
    p("while on list", "l: List[int]", "int", "s = 0\nwhile l:\n    s = s * 3 + l[0]\n    l = l[1:]\nreturn s")
    p("while two conditions", "a: int, b: int", "int", "i = 0\nwhile i < a and i < b:\n    i += 1\nreturn i", pre=lambda a, b: a <= 3, ints=list(range(-2, 4)))
    # ------------------------------------------------------------ for
    L = "l: List[int]"
    p("for sum", L, "int", "s = 0\nfor e in l:\n    s += e\nreturn s")
    p("for with target after", L + ", d: int", "int", "e = d\nfor e in l:\n    pass\nreturn e")
    p("for target unbound after", L, "int", "for e in l:\n    pass\nreturn e")
    p("for else", L, "int", "s = 0\nfor e in l:\n    s += e\nelse:\n    s += 100\nreturn s")
    p("for return", L + ", k: int", "int", "i = 0\nfor e in l:\n    if e == k:\n        return i\n    i += 1\nreturn -1")
    p("for return else", L + ", k: int", "int", "for e in l:\n    if e == k:\n        return 1\nelse:\n    return 2\nreturn 3" if False else "for e in l:\n    if e == k:\n        return 1\nelse:\n    k = 7\nreturn k")
    p("for nested", L, "int", "s = 0\nfor a in l:\n    for b in l:\n        if a < b:\n            s += 1\nreturn s", gen=dict(list_len=2))
    p("for nested return", L + ", k: int", "int", "for a in l:\n    for b in l:\n        if a + b == k:\n            return a * b\nreturn -k", gen=dict(list_len=2))
    p("for max", L, "int", "m = l[0]\nfor e in l[1:]:\n    if e > m:\n        m = e\nreturn m")
    p("for bool flag", L, "bool", "f = False\nfor e in l:\n    f = f or e > 3\nreturn f")
    p("for over range", "n: int", "int", "s = 0\nfor i in range(n):\n    s += i * i\nreturn s", pre=lambda n: n <= 4, ints=list(range(-2, 5)))
    p("for over dict items", "d: Dict[int, int]", "int", "s = 0\nfor k, v in d.items():\n    s += k * v\nreturn s")
    p("for over dict keys", "d: Dict[int, int]", "int", "s = 0\nfor k in d.keys():\n    s = s * 2 + k\nreturn s")
    p("for over dict values", "d: Dict[int, bytes]", "int", "s = 0\nfor v in d.values():\n    s = s * 2 + len(v)\nreturn s")
    p("for tuple target", "l: List[int]", "int", "s = 0\nfor a, b in zip(l, l):\n    s += a * b\nreturn s" if False else "s = 0\nfor a in [(x, x + 1) for x in l]:\n    s += a[0] * a[1]\nreturn s" if False else "s = 0\nfor a in l:\n    b, c = a, a + 1\n    s += b * c\nreturn s")
    p("for over literal list", "a: int, b: int", "int", "s = 0\nfor x in [a, b, a + b]:\n    s = s * 2 + x\nreturn s")
    p("for modifies iterated name", L, "int", "s = 0\nfor e in l:\n    l = [1]\n    s += e\nreturn s + len(l)")
    p("for loop variable assigned", L, "int", "s = 0\nfor e in l:\n    e = e + 1\n    s = s * 2 + e\nreturn s")
    p("for new variable kept", L, "int", "x = 0\nfor e in l:\n    y = e\n    x = y\nreturn x")
    p("for unbound variable kept", L, "int", "for e in l:\n    y = e * 2\nreturn y")
    p("for bytes", "b: bytes", "int", "s = 0\nfor c in [x for x in b]:\n    s += c\nreturn s" if False else "s = 0\nfor i in range(len(b)):\n    s = s * 3 + b[i]\nreturn s", gen=dict(bytes_len=2))
    p("for list of lists", "l: List[List[int]]", "int", "s = 0\nfor r in l:\n    for e in r:\n        s = s * 2 + e\n    s += 1\nreturn s", gen=dict(list_len=2))
    p("sequential loops", L, "int", "s = 0\nfor e in l:\n    s += e\nfor e in l:\n    s = s * 2 - e\nreturn s", gen=dict(list_len=2))
    p("loop in branch", L + ", a: int", "int", "s = a\nif a > 0:\n    for e in l:\n        s += e\nelse:\n    while s < 0:\n        s += 4\nreturn s", pre=lambda l, a: a >= -6, ints=list(range(-6, 6)))
    p("branch in loop", L, "int", "p = 0\nn = 0\nfor e in l:\n    if e > 0:\n        p += e\n    elif e < 0:\n        n -= e\n    else:\n        return -1\nreturn p * 3 + n")
    # ------------------------------------------------------------ functions
    p("function", "a: int, b: int", "int", "return f(a, b) + f(b, a)", "def f(x: int, y: int) -> int:\n    return x * 2 - y\n\n")
    p("function order", "a: int, b: int", "int", "return f(a, g(b))", "def g(x: int) -> int:\n    return x + 1\n\ndef f(x: int, y: int) -> int:\n    return x * y + g(y)\n\n")
    p("argument shadowing", "a: int, b: int", "int", "x = 5\nreturn f(b) + x + a", "x = 3\n\ndef f(x: int) -> int:\n    x = x * 2\n    return x\n\n")
    p("global read", "a: int", "int", "return f(a) + k", "k = 7\n\ndef f(x: int) -> int:\n    return x * k\n\n")
    p("global from expression", "a: int", "int", "return a + m[1] + len(n)", "k = 7\nm = [k, k * 2]\nn = b'abc' * 2\n\n")
    p("closure", "a: int, b: int", "int", "def f(x: int) -> int:\n    return x + a\nreturn f(b) * f(1)")
    p("closure sees later assignment", "a: int, b: int", "int", "def f(x: int) -> int:\n    return x + a\na = a + 1\nreturn f(b)")
    p("closure own variable", "a: int", "int", "def f(x: int) -> int:\n    y = x * 2\n    return y\ny = 1\nreturn f(a) + y")
    p("closure two levels", "a: int, b: int", "int", "def f(x: int) -> int:\n    def g(y: int) -> int:\n        return x + y + a\n    return g(b) + g(1)\nreturn f(2)")
    p("closure in loop", "l: List[int], k: int", "int", "def f(x: int) -> int:\n    return x * k\ns = 0\nfor e in l:\n    s += f(e)\n    k = k + 1\nreturn s")
    p("function without return value", "a: int", "int", "f(a)\nreturn a", "def f(x: int) -> None:\n    assert x > 2\n\n")
    p("function returning early", "a: int", "int", "return f(a) + f(a + 1)", "def f(x: int) -> int:\n    if x > 3:\n        return 1\n    for i in [1, 2, 3]:\n        if x == i:\n            return i * 10\n    return 0\n\n")
    p("function as value", "a: int", "int", "def f(x: int) -> int:\n    return x + 1\ng = f\nreturn g(a)")
    p("two functions same local", "a: int", "int", "return f(a) + g(a)", "def f(x: int) -> int:\n    t = x + 1\n    return t\n\ndef g(x: int) -> int:\n    t = x * 2\n    return t\n\n")
    # function values: a call through a variable passes the environment of the variable's type
    for nm, b in (("reassigned", "h = f\nh = g\nreturn h(1)"), ("branch", "if a > b:\n    h = f\nelse:\n    h = g\nreturn h(1)"), ("conditional", "return (f if a > b else g)(1)"),
                  ("conditional stored", "h = f if a > b else g\nreturn h(1)"), ("overwritten", "f = g\nreturn f(1)"), ("loop", "h = f\nfor i in [1, 2]:\n    h = g\nreturn h(1)")):
        for nm2, fb, gb in (("different", "b", "a"), ("first none", "3", "a"), ("second none", "b", "3"), ("recursive", "b", "g(x - 1) if x > 0 else b"), ("calls other", "b", "f(x) + 1")):
            if nm == "overwritten" and nm2 == "calls other":
                continue
            p(f"function value {nm} {nm2}", "a: int, b: int", "int", f"def f(x: int) -> int:\n    return {fb}\ndef g(x: int) -> int:\n    return {gb}\n{b}", cfgs=["O0", "O2"], may_reject=True)
        p(f"function value {nm} same", "a: int, b: int", "int", f"def f(x: int) -> int:\n    return a + b\ndef g(x: int) -> int:\n    return a - b\n{b}", cfgs=["O0", "O2"])
    p("redefined function", "a: int", "int", "return f(a)", "def f(x: int) -> int:\n    return x + 1\n\ndef f(x: int) -> int:\n    return x + 2\n\n")
    p("nested function shadows outer", "a: int", "int", "def f(x: int) -> int:\n    return x * 10\nreturn f(a) + g(a)", "def f(x: int) -> int:\n    return x + 1\n\ndef g(x: int) -> int:\n    return f(x)\n\n")
    p("parameter named like function", "f: int", "int", "return g(f)", "def f(x: int) -> int:\n    return x + 1\n\ndef g(x: int) -> int:\n    return f(x) * 2\n\n")
    p("variable named like builtin", "len: int", "int", "return len + 1")
    p("unused failing function", "a: int", "int", "return a", "def f(x: int) -> int:\n    assert False\n    return x\n\n")
    p("argument evaluation", "a: int, b: int", "int", "return f(10 // a, b)", "def f(x: int, y: int) -> int:\n    return y\n\n", cfgs=["O0", "O1"])
    # ------------------------------------------------------------ recursion
    p("factorial", "n: int", "int", "return fac(n)", "def fac(n: int) -> int:\n    return 1 if n <= 0 else n * fac(n - 1)\n\n", pre=lambda n: n <= 4, ints=list(range(-2, 6)))
    p("fibonacci", "n: int", "int", "return fib(n)", "def fib(n: int) -> int:\n    if n < 2:\n        return n\n    return fib(n - 1) + fib(n - 2)\n\n", pre=lambda n: n <= 5, ints=list(range(-2, 7)))
    p("recursion on list", "l: List[int]", "int", "return f(l, 1)", "def f(l: List[int], k: int) -> int:\n    if l == []:\n        return 0\n    return l[0] * k + f(l[1:], k + 1)\n\n" if False else "def f(l: List[int], k: int) -> int:\n    if len(l) == 0:\n        return 0\n    return l[0] * k + f(l[1:], k + 1)\n\n")
    p("recursion inner", "a: int, n: int", "int", "def f(x: int) -> int:\n    return a if x <= 0 else f(x - 1) + a\nreturn f(n)", pre=lambda a, n: n <= 4, ints=list(range(-2, 6)))
    p("mutual recursion", "n: int", "bool", "return even(n)", "def even(n: int) -> bool:\n    return True if n == 0 else odd(n - 1)\n\ndef odd(n: int) -> bool:\n    return False if n == 0 else even(n - 1)\n\n", pre=lambda n: z3_and(n >= 0, n <= 4), ints=list(range(0, 6)))
    p("mutual recursion inner", "n: int, k: int", "int", "def f(x: int) -> int:\n    return k if x <= 0 else g(x - 1) + 1\ndef g(x: int) -> int:\n    return k * 2 if x <= 0 else f(x - 1) * 2\nreturn f(n)", pre=lambda n, k: n <= 3, ints=list(range(-2, 5)))
    p("recursion with accumulator", "n: int, acc: int", "int", "return f(n, acc)", "def f(n: int, acc: int) -> int:\n    if n <= 0:\n        return acc\n    acc = acc * 2 + n\n    return f(n - 1, acc)\n\n", pre=lambda n, acc: n <= 4, ints=list(range(-2, 6)))
    p("gcd", "a: int, b: int", "int", "return gcd(a, b)", "def gcd(a: int, b: int) -> int:\n    return a if b == 0 else gcd(b, a % b)\n\n", pre=lambda a, b: z3_and(b >= -3, b <= 3), ints=list(range(-6, 7)))
    # ------------------------------------------------------------ short circuit
    p("and short circuit", "a: int, b: int", "bool", "b != 0 and a // b > 2")
    p("or short circuit", "a: int, b: int", "bool", "b == 0 or a // b > 2")
    p("mixed short circuit", "a: int, l: List[int]", "bool", "(len(l) > a and a >= 0 and l[a] == 3) or a < -5")
    p("not and or", "a: int, b: int", "bool", "not (a > 3 and b > 3) or not a == b")
    p("chained comparison", "a: int, b: int, c: int", "bool", "a < b <= c != a")
    p("chained short circuit", "a: int, b: int", "bool", "0 < b < a // b")
    p("chained evaluates once", "a: int", "bool", "return 1 < f(a) < 10", "def f(x: int) -> int:\n    print('f')\n    return x\n\n", trace=True, cfgs=["O0", "O1", "O2"])
    p("condition with call", "a: int", "int", "if f(a) and a < 10:\n    return 1\nreturn 2", "def f(x: int) -> bool:\n    return x > 3\n\n")
    p("and of ints is a bool", "a: int, b: int", "bool", "return (a and b) == b")
    p("value of and", "a: bytes, b: bytes", "int", "x = a and b\nreturn 1 if x else 0")
    # ------------------------------------------------------------ comprehensions
    p("comprehension", L, "List[int]", "[x * 2 for x in l]")
    p("comprehension filter", L + ", k: int", "List[int]", "[x + k for x in l if x > k]")
    p("comprehension two filters", L + ", k: int", "List[int]", "[x for x in l if x > k if x < 10]")
    p("comprehension scope", L, "int", "x = 5\ny = [x for x in l]\nreturn x + len(y)")
    p("comprehension in loop", L, "int", "s = 0\nfor e in l:\n    s += len([x for x in l if x < e])\nreturn s", gen=dict(list_len=2))
    p("comprehension nested", L, "List[List[int]]", "[[x + y for x in l] for y in l]", gen=dict(list_len=2))
    p("comprehension calls closure", L + ", k: int", "List[int]", "def f(x: int) -> int:\n    return x * k\nreturn [f(x) for x in l]")
    p("dict comprehension", L, "int", "d = {x: x * 2 for x in l}\nreturn d.get(1, -1)")
    p("comprehension over range", "n: int", "List[int]", "[i * i for i in range(n)]", pre=lambda n: n <= 4, ints=list(range(-2, 6)))
    p("sum of comprehension", L, "int", "sum([x * x for x in l if x > 0])")
    # ------------------------------------------------------------ objects in control flow
    p("union branch loop", "l: List[Union[A, B]]", "int", "s = 0\nfor e in l:\n    if isinstance(e, A):\n        s += e.x\n    else:\n        s -= e.z\nreturn s", CLS, gen=dict(list_len=2, bytes_len=[1]))
    p("object accumulate", "l: List[int]", "A", "a = A(0, b'')\nfor e in l:\n    a = A(a.x + e, a.y + b'!')\nreturn a", CLS)
    p("object in while", "a: A", "int", "n = 0\nwhile a.x > 0:\n    a = A(a.x - 2, a.y)\n    n += 1\nreturn n", CLS, pre=lambda a: a.x <= 5, ints=list(range(-2, 6)))
    p("record equality branch", "a: A, b: A", "int", "if a == b:\n    return 1\nelif a.x == b.x:\n    return 2\nreturn 3", CLS)
    p("function taking object", "a: A, k: int", "A", "return f(f(a, k), k)", CLS + "def f(a: A, k: int) -> A:\n    return A(a.x * k, a.y)\n\n")
    p("function returning union", "k: int", "int", "r = f(k)\nif isinstance(r, B):\n    return r.z\nreturn r.x", CLS + "def f(k: int) -> Union[A, B]:\n    if k > 3:\n        return A(k, b'')\n    return B(k, k * 2)\n\n")
    p("list of objects", "k: int", "int", "l = [A(k, b''), A(k + 1, b'x')]\nreturn l[1].x + len(l[1].y)", CLS)
    p("dict of objects", "k: int", "int", "d = {1: A(k, b''), 2: A(k + 1, b'x')}\nreturn d[2].x", CLS)
    # ------------------------------------------------------------ lists / dicts in control flow
    p("list build", "n: int", "List[int]", "r: List[int] = []\ni = 0\nwhile i < n:\n    r = r + [i * i]\n    i += 1\nreturn r", pre=lambda n: n <= 4, ints=list(range(-2, 6)))
    p("list reverse", L, "List[int]", "r: List[int] = []\nfor e in l:\n    r = [e] + r\nreturn r")
    p("list filter dedupe", L, "List[int]", "r: List[int] = []\nfor e in l:\n    if e not in r:\n        r += [e]\nreturn r")
    p("insertion sort", L, "List[int]", "r: List[int] = []\nfor e in l:\n    r = ins(r, e)\nreturn r", "def ins(l: List[int], x: int) -> List[int]:\n    if len(l) == 0:\n        return [x]\n    if x <= l[0]:\n        return [x] + l\n    return [l[0]] + ins(l[1:], x)\n\n".replace("List", "List"))
    p("dict lookup branch", "d: Dict[int, int], k: int", "int", "if k in d.keys():\n    return d[k]\nreturn d.get(k + 1, -1)")
    p("dict loop build", L, "int", "d: Dict[int, int] = {}\ns = 0\nfor k, v in d.items():\n    s += 1\nreturn s + len(l)")
    # ------------------------------------------------------------ prints
    tr = dict(trace=True, cfgs=["O0", "O1"])
    p("print order", "a: int", "int", "print('a')\nif a > 3:\n    print('b')\nprint('c')\nreturn a", **tr)
    p("print in loop", "l: List[int]", "int", "for e in l:\n    print('x')\nprint('y')\nreturn 1", **tr)
    p("print in function", "a: int", "int", "x = f(a) + f(a)\nreturn x", "def f(x: int) -> int:\n    print('f')\n    return x\n\n", **tr)
    p("print several", "a: bytes", "int", "print('n', 'm')\nreturn 1", **tr)
    # ------------------------------------------------------------ validators
    p("several parameters", "a: int, b: bytes, c: bool, d: str", "int", "(a if c else -a) + len(b) + len(d.encode())")
    p("no return annotation value", "a: int", "None", "assert a > 3")
    p("return bool", "a: int", "bool", "a > 3")
    p("return None explicit", "a: int", "None", "if a > 3:\n    return None\nassert a > 0\nreturn None")
    p("return list", "a: int", "List[int]", "[a, a + 1]")
    p("uses prelude types", "t: TxOutRef", "int", "t.idx + len(t.id)", PRE)
    p("prelude union", "c: Credential", "bytes", "c.credential_hash", PRE)
    # ------------------------------------------------------------ scoping details
    p("assigned in branch of function", "a: int", "int", "x = 1\ndef f(y: int) -> int:\n    if y > 0:\n        x = 10\n    else:\n        x = 20\n    return x + y\nreturn f(a) + x")
    p("inner function reads enclosing loop variable", "l: List[int]", "int", "s = 0\nfor e in l:\n    def g(x: int) -> int:\n        return x + e\n    s += g(s)\nreturn s", gen=dict(list_len=2))
    p("module function reads later global", "a: int", "int", "return f(a)", "def f(x: int) -> int:\n    return x + k\n\nk = 10\n\n")
    p("name reused with same type", "a: int", "int", "x = a\nfor x in [1, 2]:\n    a += x\nreturn x + a")
    p("module level assert", "a: int", "int", "return a", "assert 1 < 2\n\n")
    p("module level failing assert", "a: int", "int", "return a", "assert 1 > 2\n\n", native_ok=False) if False else None


# ------------------------------------------------------------ every statement form inside every block form
INNER = {
    "assign": "x = x + a",
    "augmented": "x += b\ny -= x",
    "swap": "x, y = y, x + 1",
    "branch return": "if a > b:\n    return x",
    "branch assign": "if a > x:\n    x = a\nelif b > y:\n    y = b\nelse:\n    x = 1",
    "return": "return x + 1",
    "assert": "assert x != 3, 'three'\nx = x * 2",
    "closure": "def g(q: int) -> int:\n    return q + x\nx = g(b)\nx = g(y)",
    "closure assigned later": "def g(q: int) -> int:\n    return q * y\ny = y + 1\nx = g(a)",
    "comprehension": "x = sum([e + x for e in [a, b] if e > y])",
    "comprehension shadow": "y = sum([x for x in [a, y]]) + x",
    "for": "for x in [a, b]:\n    y += x",
    "for return": "for z in [a, b, y]:\n    if z > 2:\n        return z",
    "while": "while x < 2:\n    x += 2\n    y += 1",
    "conditional": "x = x if a > b else y",
    "annotated": "x: int = x * 2",
    "pass": "pass",
    "items": "for k, v in {1: a, 2: x}.items():\n    y += k * v",
    "call": "x = h(x, y)",
    "call by name": "x = h(s=x, r=y)",
    "conditional binding": "if a > 0:\n    w = x\nelse:\n    w = y\nx = w",
    "partial binding": "if a > 0:\n    w = x\ny = w",
    "short circuit": "if b != 0 and a // b > 1 or x == 1:\n    x = 7",
    "nested function": "def g(q: int) -> int:\n    def f(x: int) -> int:\n        return x + q + y\n    return f(x)\nx = g(a)",
    "recursive function": "def g(q: int) -> int:\n    return x if q <= 0 else g(q - 1) + 1\ny = g(2)",
    "tuple": "t = (x, a)\nx = t[1]\ny, x = t",
    "list": "m = [x, y, a]\nx = m[1]\nm = m[1:]\ny = m[-1]",
    "object": "o = R(x, y)\nx = o.y\ny = o.x",
}
OUTER = {
    "if": "if a > 0:\n{1}",
    "else": "if a > 0:\n    x = 4\nelse:\n{1}",
    "elif": "if a > 5:\n    y = 3\nelif a > b:\n{1}\nelse:\n    x = y",
    "for": "for i in [1, b]:\n    y += i\n{1}",
    "for before": "for i in [1, b]:\n{1}\n    y += i",
    "for else": "for i in [a]:\n    x = i\nelse:\n{1}",
    "while": "i = 0\nwhile i < 2:\n    i += 1\n{1}",
    "while else": "i = 0\nwhile i < 1:\n    i += 1\n    x += i\nelse:\n{1}",
    "function": "def F(x: int, y: int) -> int:\n{1}\n    return x * 3 + y\nx = F(y, x) + F(b, a)",
    "function of outer": "def F(p: int) -> int:\n    x = p\n    y = p + 1\n{1}\n    return x * 3 + y\nx = F(y)",
    "after return": "if a < -3:\n    return y\n{0}",
    "after loop return": "for i in [a, b]:\n    if i == 4:\n        return i\n{0}",
    "if in for": "for i in [1, a]:\n    if i > b:\n{2}\n    y += 1",
    "for in if": "if b > 1:\n    for i in [a, 2]:\n{2}",
    "function in for": "for i in [a, 2]:\n    def F(x: int, y: int) -> int:\n{2}\n        return x + i\n    x = F(i, x)",
    "module": None,
}


def grid():
    out = []
    H = "@dataclass()\nclass R(PlutusData):\n    CONSTR_ID = 2\n    x: int\n    y: int\n\ndef h(r: int, s: int) -> int:\n    return r * 2 - s\n\n"
    for o, ot in OUTER.items():
        for i, it in INNER.items():
            if ot is None:
                if "return x" in it or "return z" in it:
                    continue
                body = it if "a" not in it else it
                hdr = IMP + H + "a = 2\nb = 5\nx = 1\ny = 3\n" + body + "\n\n"
                out.append(P(f"{i} at module level", "c: int", "int", "return x * 10 + y + c", hdr, cfgs=["O0", "O2"], may_reject=True, concrete=1))
                continue
            body = "x = a - b\ny = b\n" + ot.format(it, ind(it, 4).rstrip("\n"), ind(it, 8).rstrip("\n")) + "\nreturn x * 10 + y"
            out.append(P(f"{i} in {o}", "a: int, b: int", "int", body, IMP + H, cfgs=["O0", "O2"], gen=dict(list_len=2), concrete=2, max_paths=400, ints=list(range(-4, 7)), **(dict(pre=lambda a, b: z3_and(a > -6, a < 6, b > -6, b < 6)) if "while" in i or "recursive" in i else {})))
    return out


def z3_and(*a):
    import z3
    return z3.And(*a) if any(z3.is_expr(x) for x in a) else all(a)


def progs(tier):
    if not PROGS:
        build()
    return PROGS


def tasks(tier, seed):
    return lists.tasks_for("C09", tier, seed) + prog_tasks(progs(tier), tier, seed) + grouped(grid(), tier, seed, 6)
