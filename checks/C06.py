"""C06 data encoding at the script boundary."""
from .common import *
from . import lists

META = dict(level="translation_validation", explanation="For every type of an enumerated universe (all atomic, record and union types, all lists and dictionaries of them, selected "
            "deeper nestings) the compiled identity validator returns the data it was given, an argument decoded at its declared type is equal to the Python value, "
            "and a value built inside the script is written as the documented encoding; for all contents, container sizes bounded as stated. Lists of integers, byte strings and records are also discharged for every length (loops cut at their heads).")

HDR = IMP + '''
@dataclass()
class E(PlutusData):
    CONSTR_ID = 0

@dataclass()
class A(PlutusData):
    CONSTR_ID = 1
    x: int
    y: bytes

@dataclass()
class N(PlutusData):
    CONSTR_ID = 130
    a: A
    l: List[int]
    d: Dict[bytes, List[A]]
    u: Union[A, E, int]

'''
BASE = ["int", "bytes", "str", "bool", "None", "E", "A", "Union[A, E]", "Union[int, bytes]", "Union[A, int]", "Anything"]
KEYS = ["int", "bytes", "str", "bool", "A", "Union[A, E]", "List[int]"]


def progs(tier):
    ps = []
    big = tier == "thorough"

    def g(T):
        deep = T.count("[") - T.count("Union[")
        d = dict(bytes_len=1 if deep else 2, text_len=1, list_len=1 if deep > 2 else 2, dict_len=1 if deep > 1 else 2, inner=[0, 1] if deep == 2 else [1] if deep > 2 else None,
                    text_ascii="[" in T)
        if T in ("N", "Union[N, E]", "List[N]"):
            d.update(bytes_len=[1], list_len=[1], dict_len=[1], inner=[1])
        if T.startswith("Dict[str"):
            d.update(text_len=[1])
        return d

    def ident(T, cfgs, **kw):
        nat = not T.startswith(("Dict[A", "Dict[Union", "Dict[List"))
        ps.append(P(f"identity {T}", f"x: {T}", T, "x", HDR, gen=g(T), cfgs=cfgs, native_ok="Dict[A" not in T and "Dict[Union" not in T and "Dict[List" not in T,
                    max_paths=2000, time_limit=60, **kw))
    for T in BASE:
        ident(T, ["O0", "O1", "O2", "O3", "O0raw", "O2raw"])
        ident(f"List[{T}]", ["O0", "O2", "O3", "O2raw"])
        ident(f"List[List[{T}]]", ["O0", "O2", "O2raw"])
        for K in KEYS:
            ident(f"Dict[{K}, {T}]", ["O0", "O2", "O2raw"] if K == "int" else ["O2"])
        ident(f"List[Dict[int, {T}]]", ["O2", "O2raw"])
        ident(f"Dict[int, List[{T}]]", ["O2"])
        ident(f"Dict[bytes, Dict[bytes, {T}]]", ["O2"])
        if big:
            ident(f"List[List[List[{T}]]]", ["O0", "O2"])
            ident(f"List[Dict[bytes, List[{T}]]]", ["O2"])
            ident(f"Dict[int, List[Dict[int, {T}]]]", ["O2"])
    for T in ("N", "Union[N, E]", "Union[A, E, int, bytes]", "Union[int, List[Anything]]", "Union[int, Dict[Anything, Anything]]", "List[N]",
              "List[List[List[int]]]", "List[List[List[str]]]", "List[Dict[bytes, List[bool]]]", "Dict[int, List[Dict[int, str]]]"):
        kw = {}
        ident(T, ["O0", "O2", "O3"] if T == "N" else ["O2"])
    # ------------------------------------------------------------ the decoded value is the Python value: observe it natively
    obs = {"int": "x + 1", "bytes": "len(x) * 1000 + (x[0] if len(x) > 0 else -1)", "str": "len(x.encode())", "bool": "(3 if x else 4)", "A": "x.x * 2 + len(x.y)",
           "Union[int, bytes]": "(x + 5 if isinstance(x, int) else len(x))", "Union[A, E]": "(x.x if isinstance(x, A) else 7)", "Union[A, int]": "(x.x if isinstance(x, A) else x * 2)"}
    for T, e in obs.items():
        ps.append(P(f"observe {T}", f"x: {T}", "int", e, HDR, gen=g(T), cfgs=["O0", "O2", "O3", "O0raw", "O2raw"]))
        ps.append(P(f"observe List[{T}]", f"x: List[{T}]", "int", f"r = 0\nfor y in x:\n    r = r * 7 + {e.replace('x', 'y').replace('y.y', 'y.q').replace('y.y', 'y.x') if False else 'f(y)'}\nreturn r",
                    HDR + f"def f(x: {T}) -> int:\n    return {e}\n\n", gen=dict(bytes_len=1, text_len=1, list_len=2), cfgs=["O2", "O2raw"], time_limit=60, max_paths=2000))
        ps.append(P(f"observe Dict[int, {T}]", f"x: Dict[int, {T}]", "int", "r = 0\nfor k, y in x.items():\n    r = r * 7 + k * f(y)\nreturn r",
                    HDR + f"def f(x: {T}) -> int:\n    return {e}\n\n", gen=dict(bytes_len=1, text_len=1, dict_len=2), cfgs=["O2"], time_limit=60, max_paths=2000))
        if T not in ("Union[int, bytes]",):
            ps.append(P(f"observe Dict[{T}, int]", f"x: Dict[{T}, int]", "int", "r = 0\nfor k, y in x.items():\n    r = r * 7 + y * f(k)\nreturn r", HDR + f"def f(x: {T}) -> int:\n    return {e}\n\n",
                        gen=dict(bytes_len=[1], text_len=[1], dict_len=2), cfgs=["O2"], time_limit=60, max_paths=2000, native_ok=T in ("int", "bytes", "str", "bool")))
    ps.append(P("observe None", "x: None", "int", "return 3 if x == None else 4"))
    ps.append(P("None in list", "x: None", "List[None]", "[x, None]", cfgs=["O0", "O2", "O2raw"]))
    ps.append(P("None from list", "x: List[None]", "int", "len(x)", cfgs=["O0", "O2"]))
    ps.append(P("None list iterate", "x: List[None]", "None", "r = None\nfor e in x:\n    r = e\nreturn r", cfgs=["O0", "O2"]))
    ps.append(P("None through function", "x: None", "List[None]", "def f(a: None) -> None:\n    return a\nreturn [f(x)]", cfgs=["O0", "O2"]))
    # ------------------------------------------------------------ results built by the script
    cf = ["O0", "O2", "O3", "O0raw", "O2raw"]
    one = dict(gen=dict(bytes_len=1, text_len=1))
    ps.append(P("build bool", "x: int", "bool", "x > 3", cfgs=cf))
    ps.append(P("build bool const", "x: int", "bool", "True", cfgs=cf))
    ps.append(P("build str", "x: str, y: str", "str", "x + y + 'é€'", cfgs=cf, **one))
    ps.append(P("build None", "x: int", "None", "None", cfgs=cf))
    ps.append(P("implicit None", "x: int", "None", "assert x > 3", cfgs=cf))
    ps.append(P("return statement", "x: int", "None", "if x > 3:\n    return None\nassert x < 0", cfgs=cf))
    ps.append(P("build list", "x: int, y: int", "List[int]", "[x, y, 3]", cfgs=cf))
    ps.append(P("build empty list", "x: int", "List[int]", "y: List[int] = []\nreturn y", cfgs=cf))
    for T in BASE[:8]:
        ps.append(P(f"build empty List[{T}]", "x: int", f"List[{T}]", f"y: List[{T}] = []\nreturn y", HDR, cfgs=["O0", "O2", "O2raw"]))
        ps.append(P(f"build nested empty List[List[{T}]]", "x: int", f"List[List[{T}]]", f"z: List[{T}] = []\ny: List[List[{T}]] = [z]\nreturn y + [z]", HDR, cfgs=["O0", "O2"]))
    ps.append(P("build list bool", "x: int, y: int", "List[bool]", "[x > 1, y > x, False]", cfgs=cf))
    ps.append(P("build list str", "x: str, y: str", "List[str]", "[x, y, '']", cfgs=cf, **one))
    ps.append(P("build nested", "x: int, y: bytes", "List[List[bytes]]", "[[y], [y, b'a']]", cfgs=cf, **one))
    ps.append(P("build dict", "x: int, y: bytes", "Dict[int, bytes]", "{x: y}", cfgs=cf, **one))
    ps.append(P("build dict str bool", "x: int, y: str", "Dict[str, bool]", "{y: x > 1}", cfgs=cf, **one))
    ps.append(P("build dict list", "x: int, y: bytes", "Dict[int, List[bytes]]", "{x: [y, b'']}", cfgs=cf, **one))
    ps.append(P("build dict of dict", "x: int, y: bytes", "Dict[int, Dict[bytes, bool]]", "{x: {y: x > 4}}", cfgs=cf, **one))
    ps.append(P("build record", "x: int, y: bytes", "A", "A(x, y)", HDR, cfgs=cf, **one))
    ps.append(P("build empty record", "x: int", "E", "E()", HDR, cfgs=cf))
    ps.append(P("build nested record", "x: int, y: bytes", "N", "N(A(x, y), [x, 2], {y: [A(1, b'')]}, E())", HDR, cfgs=cf, **one))
    ps.append(P("build nested record 2", "x: int, y: bytes", "N", "N(A(x, y), [x], {y: [A(1, b'q')]}, x)", HDR, cfgs=cf, **one))
    ps.append(P("build union rec", "x: int, y: bytes", "Union[A, E]", "A(x, y) if x > 3 else E()", HDR, cfgs=cf, **one))
    ps.append(P("build union prim", "x: int, y: bytes", "Union[int, bytes]", "if x > 3:\n    return x\nelse:\n    return y", HDR, cfgs=cf, **one))
    ps.append(P("build union ifexp", "x: int, y: bytes", "Union[int, bytes]", "x if x > 3 else y", HDR, cfgs=cf, **one))
    ps.append(P("build union mixed", "x: int, y: bytes", "Union[A, int]", "if x > 3:\n    return A(x, y)\nreturn x", HDR, cfgs=cf, **one))
    ps.append(P("build anything", "x: int, y: bytes", "Anything", "return x" , HDR, cfgs=["O0", "O2", "O3"], **one))
    ps.append(P("build anything list", "x: int, y: bytes", "Anything", "return [x, 2]" , HDR, cfgs=["O0", "O2", "O3"], **one))
    ps.append(P("build anything str", "x: int, y: str", "Anything", "return y" , HDR, cfgs=["O0", "O2", "O3"], **one))
    ps.append(P("build anything bool", "x: int", "Anything", "return x > 1" , HDR, cfgs=["O0", "O2", "O3"], **one))
    # ------------------------------------------------------------ argument order and arity
    ps.append(P("two args", "a: int, b: int", "int", "a - 2 * b", cfgs=cf))
    ps.append(P("three args", "a: bytes, b: int, c: bytes", "bytes", "a if b > 3 else c", cfgs=cf, **one))
    ps.append(P("five args", "a: int, b: int, c: int, d: int, e: int", "List[int]", "[e, d, c, b, a]", cfgs=cf))
    ps.append(P("mixed args", "a: A, b: List[int], c: Dict[int, int], d: Union[int, bytes], e: bool", "int", "a.x + len(b) * 10 + len(c) * 100 + (d if isinstance(d, int) else 5) + (1000 if e else 0)",
                HDR, cfgs=cf, gen=dict(bytes_len=1, list_len=1, dict_len=1)))
    ps.append(P("unused args", "a: int, b: bytes, c: A", "bytes", "b", HDR, cfgs=cf, **one))
    return ps


def tasks(tier, seed):
    return lists.tasks_for("C06", tier, seed) + prog_tasks(progs(tier), tier, seed)
