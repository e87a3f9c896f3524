"""Python side: the program's own source is executed by CPython itself, with operators routed to symbolic values.

The source text is parsed, every operator / call / truth test / literal container is rewritten to a call into the runtime
below, and the result is exec'd.  Control flow, scoping, closures, comprehensions, classes and dataclasses are therefore
those of the real CPython interpreter; only the primitive operations are re-implemented (on native values they defer to
the native operation, so that a program run on concrete inputs exercises exactly CPython).
"""
import ast
import builtins
import dataclasses
import functools
import importlib
import inspect
import typing
import z3
from . import kernel as K
from .kernel import EngineError, Infeasible, Incomplete, truth as ktruth, assume, is_sym, Fail
from .vals import *
from .abi import AnyVal, PDict, SList, fields_of, to_data
from . import uplcsem as U

RT = "vf_rt__"


class Bound:
    """Bounds used when a symbolic number drives the length of something (recorded on the path as 'bounded')."""
    rep = 3
    digits = 2
    rng = 3


def bounded(n, hi, what):
    """Restrict a symbolic integer to n <= hi on this path (the path is then labelled bounded)."""
    K.P.notes.setdefault("bounded", set()).add(what)
    K.assume_feasible(n <= hi)


# ------------------------------------------------------------------ instrumentation
class Instr(ast.NodeTransformer):
    def __init__(self, modname="<prog>"):
        self.modname = modname

    def rt(self, fn, *args):
        return ast.Call(ast.Attribute(ast.Name(RT, ast.Load()), fn, ast.Load()), list(args), [])

    def lam(self, e):
        return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        return self.rt("binop", ast.Constant(type(n.op).__name__), n.left, n.right)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and isinstance(n.operand.value, int):
            return n
        return self.rt("unop", ast.Constant(type(n.op).__name__), n.operand)

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return self.rt("boolop", ast.Constant(type(n.op).__name__), *[self.lam(v) for v in n.values])

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            return self.rt("cmp", ast.Constant(type(n.ops[0]).__name__), n.left, n.comparators[0])
        return self.rt("chain", n.left, *[ast.Tuple([ast.Constant(type(o).__name__), self.lam(c)], ast.Load()) for o, c in zip(n.ops, n.comparators)])

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test = self.rt("truth", n.test)
        return n

    def _test(self, n):
        self.generic_visit(n)
        n.test = self.rt("truth", n.test)
        return n
    visit_If = visit_While = visit_Assert = _test

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.ifs = [self.rt("truth", i) for i in n.ifs]
        n.iter = self.rt("iter", n.iter)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = self.rt("iter", n.iter)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return self.rt("mkdict", ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load()))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return self.rt("mkdict", ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators))

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                parts.append(self.rt("fmt", self.visit(v.value), ast.Constant(v.conversion)))
        return self.rt("fstr", *parts)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load):
            self.generic_visit(n)
            if isinstance(n.slice, ast.Slice):
                s = n.slice
                c = lambda x: x if x is not None else ast.Constant(None)
                return self.rt("slice", n.value, c(s.lower), c(s.upper), c(s.step))
            return self.rt("getitem", n.value, n.slice)
        return self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        tgt = n.target
        load = ast.Name(tgt.id, ast.Load())
        return ast.Assign([tgt], self.rt("binop", ast.Constant(type(n.op).__name__), load, n.value))

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute):
            return ast.Call(ast.Attribute(ast.Name(RT, ast.Load()), "callm", ast.Load()), [n.func.value, ast.Constant(n.func.attr)] + n.args, n.keywords)
        return ast.Call(ast.Attribute(ast.Name(RT, ast.Load()), "call", ast.Load()), [n.func] + n.args, n.keywords)

    def visit_Assign(self, n):
        # tuple targets keep native unpacking
        self.generic_visit(n)
        return n

    def visit_AnnAssign(self, n):
        ann = n.annotation
        if n.value is not None:
            n.value = self.visit(n.value)
        n.annotation = ann
        return n

    def visit_FunctionDef(self, n):
        n.body = [self.visit(s) for s in n.body]
        n.body = [y for x in n.body for y in (x if isinstance(x, list) else [x])]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef,)) else s for s in n.body]
        return n

    def visit_ImportFrom(self, n):
        if n.module and n.module.startswith("opshin.") and any(a.name == "*" for a in n.names):
            return ast.Expr(self.rt("star", ast.Constant(n.module), ast.Call(ast.Name("globals", ast.Load()), [], [])))
        if n.module and n.module.startswith("opshin."):
            return [ast.Expr(self.rt("names", ast.Constant(n.module), ast.Constant(tuple((a.name, a.asname) for a in n.names)),
                                     ast.Call(ast.Name("globals", ast.Load()), [], [])))]
        if n.module == "hashlib":
            return [ast.Expr(self.rt("hashnames", ast.Constant(tuple((a.name, a.asname) for a in n.names)),
                                     ast.Call(ast.Name("globals", ast.Load()), [], [])))]
        return n


_mod_cache = {}


def instrument(src, filename="<prog>"):
    tree = ast.parse(src) if isinstance(src, str) else src
    tree = Instr(filename).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


_code_cache = {}


def load_src(src, filename="<prog>"):
    """exec an instrumented program; returns its namespace"""
    key = src
    if key not in _code_cache:
        _code_cache[key] = instrument(src, filename)
    ns = {"__name__": "vf_prog", RT: Runtime}
    exec(_code_cache[key], ns)
    return ns


_modsrc = {}


def load_module(name):
    """instrumented copy of an opshin library module, from /repo's current source"""
    if name in _mod_cache:
        return _mod_cache[name]
    if name == "opshin.bridge":
        from . import bridgesym
        ns = bridgesym.bridge_ns(load_module("opshin.std.bls12_381"))
    elif name == "opshin.std.bls12_381":
        from . import bridgesym
        ns = bridgesym.bls_ns()
    elif name in ("opshin.ledger.api_v3", "opshin.std.integrity", "opshin.ledger.api_v2"):
        ns = dict(vars(importlib.import_module(name)))
        if name == "opshin.std.integrity":
            ns["check_integrity"] = integrity_stub
    elif name == "opshin.std.hashlib":
        ns = {k: HASHES[k] for k in HASHES}
    else:
        spec = importlib.util.find_spec(name)
        src = open(spec.origin).read()
        ns = {"__name__": "vf_" + name, RT: Runtime}
        exec(instrument(src, spec.origin), ns)
    _mod_cache[name] = ns
    return ns


def integrity_stub(x):
    return None


class HashObj:
    def __init__(self, uname, x): self.uname, self.x = uname, x
    def digest(self): return U.BI[self.uname](self.x)


class HashFn:
    def __init__(self, uname): self.uname = uname

    def __call__(self, x, digest_size=None):
        u = self.uname
        if u == "blake2b":
            if digest_size == 32: u = "Blake2b_256"
            elif digest_size == 28: u = "Blake2b_224"
            else: raise EngineError("blake2b size")
        return HashObj(u, x)


HASHES = {"sha256": HashFn("Sha2_256"), "sha3_256": HashFn("Sha3_256"), "blake2b": HashFn("blake2b")}


# ------------------------------------------------------------------ helpers
def as_int(x):
    """bool -> int coercion"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def isnum(x):
    return is_int(x) or is_bool(x)


def norm(x):
    return simp(x) if isinstance(x, z3.ExprRef) else x


def kind(x):
    if x is None: return "None"
    if is_bool(x): return "bool"
    if is_int(x): return "int"
    if is_bytes(x) or isinstance(x, bytearray): return "bytes"
    if is_text(x): return "str"
    if isinstance(x, (list, SList)): return "list"
    if isinstance(x, tuple): return "tuple"
    if isinstance(x, (dict, PDict)): return "dict"
    if isinstance(x, AnyVal): return "any"
    if hasattr(x, "CONSTR_ID"): return "rec"
    return type(x).__name__


def user_method(a, name):
    """the method of that name written in the program itself (not the one @dataclass generates)"""
    f = type(a).__dict__.get(name)
    c = getattr(f, "__code__", None)
    return f if c is not None and c.co_filename not in ("<string>", "") and dataclasses.is_dataclass(type(a)) else None


def v_eq(a, b):
    """Python == as a (symbolic) boolean"""
    ka, kb = kind(a), kind(b)
    if ka == "rec" or kb == "rec":
        for x, y in ((a, b), (b, a)):
            f = user_method(x, "__eq__")
            if f:
                r = f(x, y)
                if r is not NotImplemented:
                    return r
    if ka in ("int", "bool") and kb in ("int", "bool"):
        if ka == kb == "bool":
            return b_iff(a, b)
        return i_eq(as_int(a), as_int(b))
    if ka.startswith("BLS"):
        return a == b
    if ka == "any" or kb == "any":
        if ka == kb:
            return data_eq(a.d, b.d)
        raise EngineError("== between Any and typed value")
    if ka != kb:
        return False
    if ka in ("bytes", "str"):
        return s_eq(bytes(a) if isinstance(a, bytearray) else a, bytes(b) if isinstance(b, bytearray) else b)
    if ka == "None":
        return True
    if ka in ("list", "tuple"):
        if isinstance(a, SList) or isinstance(b, SList):
            return data_eq(to_data(a), to_data(b))
        if len(a) != len(b):
            return False
        return b_and(*[v_eq(x, y) for x, y in zip(a, b)])
    if ka == "dict":
        # Python dict equality ignores order
        ia, ib = ditems(a), ditems(b)
        if len(ia) != len(ib):
            return False
        r = []
        for k, v in ia:
            r.append(b_or(*[b_and(v_eq(k, k2), v_eq(v, v2)) for k2, v2 in ib]))
        return b_and(*r)
    if ka == "rec":
        if type(a) is not type(b):
            return False
        return b_and(*[v_eq(getattr(a, n), getattr(b, n)) for n, _ in fields_of(type(a))])
    return a == b


def ditems(d):
    return d.items if isinstance(d, PDict) else list(d.items())


def seq_lt(a, b, lt, eq):
    """lexicographic < on lists"""
    r = len(a) < len(b)
    for x, y in reversed(list(zip(a, b))):
        r = b_or(lt(x, y), b_and(eq(x, y), r))
    return r


def text_cat(parts):
    r = ""
    for p in parts:
        r = s_concat(r, p)
    return r


def digits(n, base):
    """list of digit values of n >= 0, most significant first"""
    if isinstance(n, int):
        out = []
        while True:
            out.append(n % base)
            n //= base
            if n == 0:
                return out[::-1]
    k = 1
    while True:
        if ktruth(n < base ** k):
            break
        k += 1
        if k > Bound.digits:
            bounded(n, base ** Bound.digits - 1, "digits")
            k = Bound.digits
            break
    return [fmod(fdiv(n, base ** i), base) for i in range(k - 1, -1, -1)]


def digit_char(d, upper=False):
    if isinstance(d, int):
        return ord("0123456789abcdef"[d])
    return z3.If(d < 10, d + 48, d + 87)


def int_to_text(n, base=10, prefix=""):
    n = norm(as_int(n))
    if isinstance(n, int):
        return {10: str, 16: hex, 8: oct}[base](n) if True else None
    if ktruth(n < 0):
        s = [digit_char(d) if base > 10 else d + 48 for d in digits(norm(-n), base)]
        pre = "-" + prefix
    else:
        s = [digit_char(d) if base > 10 else d + 48 for d in digits(n, base)]
        pre = prefix
    from .vals import _norm
    return s_concat(pre, _norm(ST, s))


def bytes_repr(b):
    if isinstance(b, bytes):
        return repr(b)
    if b.vec is None:
        raise EngineError("repr of unbounded bytes")
    v = b.vec
    has_sq = ktruth(b_or(*[i_eq(c, 39) for c in v]))
    has_dq = ktruth(b_or(*[i_eq(c, 34) for c in v])) if has_sq else False
    q = '"' if has_sq and not has_dq else "'"
    out = ["b" + q]
    from .vals import _norm
    for c in v:
        if isinstance(c, int):
            ch = repr(bytes([c]))[2:-1]
            if c == ord(q) : ch = "\\" + q
            elif c in (34, 39): ch = chr(c)
            out.append(ch)
            continue
        if ktruth(c == 92): out.append("\\\\")
        elif ktruth(c == ord(q)): out.append("\\" + q)
        elif ktruth(c == 9): out.append("\\t")
        elif ktruth(c == 10): out.append("\\n")
        elif ktruth(c == 13): out.append("\\r")
        elif ktruth(z3.And(c >= 32, c < 127)): out.append(_norm(ST, (c,)))
        else:
            out.append("\\x")
            out.append(_norm(ST, (digit_char(simp(fdiv(c, 16))), digit_char(simp(fmod(c, 16))))))
    out.append(q)
    return text_cat(out)


def str_repr(s):
    if isinstance(s, str):
        return repr(s)
    if s.vec is None:
        raise EngineError("repr of unbounded text")
    v = s.vec
    # printable ASCII only is modelled symbolically
    from .vals import _norm
    K.P.notes.setdefault("bounded", set()).add("str repr: ascii")
    for c in v:
        if is_sym(c):
            K.assume_feasible(c < 128)
    has_sq = ktruth(b_or(*[i_eq(c, 39) for c in v]))
    has_dq = ktruth(b_or(*[i_eq(c, 34) for c in v])) if has_sq else False
    q = '"' if has_sq and not has_dq else "'"
    out = [q]
    for c in v:
        if isinstance(c, int):
            ch = repr(chr(c))[1:-1]
            if c == ord(q): ch = "\\" + q
            elif c in (34, 39): ch = chr(c)
            out.append(ch)
            continue
        if ktruth(c == 92): out.append("\\\\")
        elif ktruth(c == ord(q)): out.append("\\" + q)
        elif ktruth(c == 9): out.append("\\t")
        elif ktruth(c == 10): out.append("\\n")
        elif ktruth(c == 13): out.append("\\r")
        elif ktruth(z3.And(c >= 32, c < 127)): out.append(_norm(ST, (c,)))
        else:
            out.append("\\x")
            out.append(_norm(ST, (digit_char(simp(fdiv(c, 16))), digit_char(simp(fmod(c, 16))))))
    out.append(q)
    return text_cat(out)


def py_repr(x):
    k = kind(x)
    if k == "bytes":
        return bytes_repr(bytes(x) if isinstance(x, bytearray) else x)
    if k == "str":
        return str_repr(x)
    return py_str(x)


def py_str(x):
    k = kind(x)
    if k == "str":
        return x
    if k == "bool":
        if isinstance(x, bool):
            return str(x)
        return "True" if ktruth(x) else "False"
    if k == "int":
        return int_to_text(x)
    if k == "bytes":
        return py_repr(x)
    if k == "None":
        return "None"
    if k == "list":
        if isinstance(x, SList):
            raise EngineError("str of unbounded list")
        return _join("[", [py_repr(e) for e in x], "]")
    if k == "tuple":
        if len(x) == 1:
            return text_cat(["(", py_repr(x[0]), ",)"])
        return _join("(", [py_repr(e) for e in x], ")")
    if k == "dict":
        return _join("{", [text_cat([py_repr(a), ": ", py_repr(b)]) for a, b in ditems(x)], "}")
    if k == "rec":
        return _join(type(x).__qualname__ + "(", [text_cat([n + "=", py_repr(getattr(x, n))]) for n, _ in fields_of(type(x))], ")")
    raise EngineError(f"str of {k}")


def _join(o, parts, c):
    out = [o]
    for i, p in enumerate(parts):
        if i:
            out.append(", ")
        out.append(p)
    out.append(c)
    return text_cat(out)


def py_len(x):
    k = kind(x)
    if k in ("bytes", "str"):
        return norm(s_len(bytes(x) if isinstance(x, bytearray) else x))
    if k in ("list", "tuple"):
        if isinstance(x, SList):
            return norm(len(x.pre) + z3.Length(x.tail))
        return len(x)
    if k == "dict":
        return len(ditems(x))
    raise TypeErr(f"len of {k}")


class TypeErr(EngineError):
    pass


WS = (9, 10, 11, 12, 13, 32)


def parse_int(s):
    """Python int(str) restricted to ASCII digits/whitespace (non-ASCII code points are cut and labelled)"""
    if isinstance(s, str):
        return int(s)
    if s.vec is None:
        raise EngineError("int() of unbounded text")
    v = list(s.vec)
    K.P.notes.setdefault("bounded", set()).add("int(): ascii")
    for c in v:
        if is_sym(c):
            K.assume_feasible(c < 128)
            # 0x1c-0x1f are whitespace for Python's str.strip but not for int literals in the documented subset
            K.assume_feasible(z3.Or(c < 0x1c, c > 0x1f))

    def ws(c):
        return ktruth(b_or(*[i_eq(c, w) for w in WS]))
    while v and ws(v[0]):
        v = v[1:]
    while v and ws(v[-1]):
        v = v[:-1]
    neg = False
    if v and ktruth(i_eq(v[0], 45)):
        neg, v = True, v[1:]
    elif v and ktruth(i_eq(v[0], 43)):
        v = v[1:]
    if not v:
        raise ValueError("int")
    r, prev_us = 0, True
    for c in v:
        if ktruth(i_eq(c, 95)):
            if prev_us:
                raise ValueError("int")
            prev_us = True
            continue
        if not ktruth(b_and(i_le(48, c), i_le(c, 57))):
            raise ValueError("int")
        r = r * 10 + (c - 48)
        prev_us = False
    if prev_us:
        raise ValueError("int")
    r = norm(r)
    return norm(-r) if neg else r


def clamp_index(i, n):
    """Python slice index clamping (n symbolic or not)"""
    if isinstance(i, int) and isinstance(n, int):
        if i < 0:
            i += n
        return max(0, min(i, n))
    i = z3.If(i < 0, i + n, i) if is_sym(i) else (i if i >= 0 else n + i)
    return z3.If(i < 0, 0, z3.If(i > n, n, i))


def to_py_list_slice(x, lo, hi):
    n = len(x)

    def cl(i):
        i = norm(as_int(i))
        if isinstance(i, int):
            return i
        # fork over effective positions
        if ktruth(i >= n): return n
        if ktruth(i < -n): return 0
        v = concretize(i, -n, n - 1)
        return v
    a = 0 if lo is None else cl(lo)
    b = n if hi is None else cl(hi)
    return x[a:b]


# ------------------------------------------------------------------ runtime
class Runtime:
    @staticmethod
    def truth(x):
        k = kind(x)
        if k == "bool":
            return ktruth(x)
        if k == "int":
            return ktruth(b_not(i_eq(x, 0)))
        if k in ("bytes", "str", "list", "tuple", "dict"):
            n = py_len(x)
            return n != 0 if isinstance(n, int) else ktruth(n != 0)
        if k == "None":
            return False
        if k in ("rec",):
            f = user_method(x, "__bool__")
            if f:
                return Runtime.truth(f(x))
            f = user_method(x, "__len__")
            return Runtime.truth(f(x)) if f else True
        raise EngineError(f"truth of {k}")

    @staticmethod
    def boolop(op, *thunks):
        v = None
        for i, t in enumerate(thunks):
            v = t()
            if i == len(thunks) - 1:
                return v
            b = Runtime.truth(v)
            if (op == "And") != b:
                return v
        return v

    @staticmethod
    def chain(left, *rest):
        for op, th in rest:
            right = th()
            r = Runtime.cmp(op, left, right)
            if not Runtime.truth(r):
                return False
            left = right
        return True

    @staticmethod
    def unop(op, x):
        if op == "Not":
            if is_bool(x):
                return b_not(x)
            return not Runtime.truth(x)
        k = kind(x)
        if k in ("int", "bool"):
            x = as_int(x)
            if op == "USub": return norm(-x)
            if op == "UAdd": return x
            if op == "Invert": return norm(-x - 1)
        if k == "rec":
            m = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
            return getattr(x, m)()
        if k.startswith("BLS"):
            return getattr(x, {"USub": "__neg__", "UAdd": "__pos__"}[op])()
        raise TypeErr(f"unop {op} {k}")

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow", "Div": "truediv",
              "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}

    @staticmethod
    def binop(op, a, b):
        ka, kb = kind(a), kind(b)
        if ka == "rec" or kb == "rec" or ka.startswith("BLS") or kb.startswith("BLS"):
            d = Runtime.DUNDER[op]
            own = lambda k: k == "rec" or k.startswith("BLS")
            f = getattr(type(a), f"__{d}__", None) if own(ka) else None
            if f is not None:
                r = f(a, b)
                if r is not NotImplemented:
                    return r
            f = getattr(type(b), f"__r{d}__", None) if own(kb) else None
            if f is not None:
                return f(b, a)
            raise TypeErr(f"binop {op}")
        if ka in ("int", "bool") and kb in ("int", "bool"):
            a, b = as_int(a), as_int(b)
            if op == "Add": return norm(a + b)
            if op == "Sub": return norm(a - b)
            if op == "Mult": return norm(a * b)
            if op in ("FloorDiv", "Mod"):
                if ktruth(i_eq(b, 0)):
                    raise ZeroDivisionError()
                return norm(fdiv(a, b) if op == "FloorDiv" else fmod(a, b))
            if op == "Pow":
                return Runtime.pow(a, b)
            if isinstance(a, int) and isinstance(b, int):
                return {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "LShift": lambda: a << b,
                        "RShift": lambda: a >> b}[op]()
            raise TypeErr(f"int {op}")
        if op == "Add" and ka == kb:
            if ka in ("bytes", "str"):
                return s_concat(a, b)
            if ka == "list":
                if isinstance(a, SList) or isinstance(b, SList):
                    if isinstance(a, SList):
                        if isinstance(b, list) and not b:
                            return a
                        raise EngineError("append to unbounded list")
                    return SList(list(a) + b.pre, b.tail, b.kind, b.typ)
                return a + b
            if ka == "tuple":
                return a + b
        if op == "Mult":
            if kb in ("bytes", "str", "list") and ka in ("int", "bool"):
                a, b, ka, kb = b, a, kb, ka
            if ka in ("bytes", "str", "list") and kb in ("int", "bool"):
                n = norm(as_int(b))
                if not isinstance(n, int):
                    if ktruth(n <= 0):
                        n = 0
                    else:
                        bounded(n, Bound.rep, "repetition count")
                        n = concretize(n, 1, Bound.rep)
                if ka == "list":
                    return a * n
                r = b"" if ka == "bytes" else ""
                for _ in range(max(n, 0)):
                    r = s_concat(r, a)
                return r
        raise TypeErr(f"binop {op} {ka} {kb}")

    @staticmethod
    def pow(a, b, mod=None):
        a, b = as_int(a), norm(as_int(b))
        if ktruth(i_lt(b, 0)):
            raise Fail("negative exponent (documented deviation)")
        if mod is not None:
            if ktruth(i_eq(mod, 0)):
                raise ValueError()
        if not isinstance(b, int):
            bounded(b, Bound.rep + 2, "exponent")
            b = concretize(b, 0, Bound.rep + 2)
        r = 1
        for _ in range(b):
            r = r * a
        r = norm(r)
        if mod is not None:
            r = norm(fmod(r, mod))
        return r

    @staticmethod
    def cmp(op, a, b):
        if op == "Eq":
            return norm(v_eq(a, b))
        if op == "NotEq":
            f = user_method(a, "__ne__")
            if f:
                return f(a, b)
            return norm(b_not(v_eq(a, b)))
        if op in ("Is", "IsNot"):
            if a is None or b is None:
                r = a is b
            elif is_bool(a) and is_bool(b):
                r = b_iff(a, b)
            else:
                raise TypeErr("is")
            return r if op == "Is" else b_not(r)
        if op in ("In", "NotIn"):
            r = Runtime.contains(b, a)
            return norm(r) if op == "In" else norm(b_not(r))
        ka, kb = kind(a), kind(b)
        if ka == "rec" or kb == "rec":
            d = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}[op]
            f = getattr(type(a), f"__{d}__", None)
            r = f(a, b) if f else NotImplemented
            if r is NotImplemented:
                raise TypeErr("ordering of records")
            return r
        if ka in ("int", "bool") and kb in ("int", "bool"):
            a, b = as_int(a), as_int(b)
            return norm({"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]())
        if ka == kb and ka in ("bytes", "str"):
            if op == "Lt": return norm(s_lt(a, b))
            if op == "LtE": return norm(s_le(a, b))
            if op == "Gt": return norm(s_lt(b, a))
            return norm(s_le(b, a))
        if ka == kb and ka in ("list", "tuple"):
            lt = lambda x, y: Runtime.cmp("Lt", x, y)
            if op == "Lt": return norm(seq_lt(a, b, lt, v_eq))
            if op == "Gt": return norm(seq_lt(b, a, lt, v_eq))
            if op == "LtE": return norm(b_or(seq_lt(a, b, lt, v_eq), v_eq(a, b)))
            return norm(b_or(seq_lt(b, a, lt, v_eq), v_eq(a, b)))
        raise TypeErr(f"cmp {op} {ka} {kb}")

    @staticmethod
    def contains(c, x):
        k = kind(c)
        if k == "rec" and user_method(c, "__contains__"):
            return user_method(c, "__contains__")(c, x)
        if k in ("list", "tuple"):
            if isinstance(c, SList):
                raise EngineError("in unbounded list")
            return b_or(*[v_eq(e, x) for e in c])
        if k == "dict":
            return b_or(*[v_eq(e, x) for e, _ in ditems(c)])
        if k == "bytes":
            if is_int(x) or is_bool(x):
                x = as_int(x)
                if ktruth(b_or(i_lt(x, 0), i_lt(255, x))):
                    raise ValueError("byte must be in range(0, 256)")
                from .vals import _vec
                return b_or(*[i_eq(e, x) for e in _vec(c)])
            return sub_in(x, c)
        if k == "str":
            return sub_in(x, c)
        raise TypeErr(f"in {k}")

    @staticmethod
    def getitem(o, i):
        k = kind(o)
        if k in ("bytes", "str"):
            o = bytes(o) if isinstance(o, bytearray) else o
            i = norm(as_int(i))
            n = py_len(o)
            if ktruth(i_lt(i, 0)):
                i = norm(i + n)
            if ktruth(b_or(i_lt(i, 0), i_le(n, i))):
                raise IndexError()
            e = s_index(o, i)
            if k == "str":
                from .vals import _norm
                return _norm(ST, (e,))
            return norm(e)
        if k in ("list", "tuple"):
            if k == "tuple" and not isinstance(norm(as_int(i)), int):
                raise TypeErr("tuple index")
            if isinstance(o, SList):
                raise EngineError("index unbounded list")
            i = norm(as_int(i))
            n = len(o)
            if isinstance(i, int):
                return o[i]
            v = concretize(i, -n, n - 1)
            if v is None:
                raise IndexError()
            return o[v]
        if k == "dict":
            for a, b in ditems(o):
                if ktruth(norm(v_eq(a, i))):
                    return b
            raise KeyError()
        if not isinstance(o, (PDict, SList, SB, ST, AnyVal)) and not is_sym(o):
            return o[i]  # typing constructs such as List[int]
        raise TypeErr(f"getitem {k}")

    @staticmethod
    def slice(o, lo, hi, step):
        if step is not None and not (isinstance(step, int) and step == 1):
            raise TypeErr("slice step")
        k = kind(o)
        if k in ("bytes", "str"):
            n = py_len(o)
            lo = 0 if lo is None else norm(as_int(lo))
            hi = n if hi is None else norm(as_int(hi))
            a, b = norm(clamp_index(lo, n)), norm(clamp_index(hi, n))
            return s_slice(a, norm(b - a), o)
        if k in ("list", "tuple"):
            if isinstance(o, SList):
                raise EngineError("slice unbounded list")
            return to_py_list_slice(o, lo, hi)
        raise TypeErr(f"slice {k}")

    @staticmethod
    def iter(x):
        k = kind(x)
        if k == "list":
            if isinstance(x, SList):
                raise EngineError("iterate unbounded list")
            return list(x)
        if k == "tuple":
            return list(x)
        if k == "dict":
            return [a for a, _ in ditems(x)]
        if k == "bytes":
            from .vals import _vec
            if _vec(x) is None:
                raise EngineError("iterate unbounded bytes")
            return list(_vec(x))
        if isinstance(x, (range,)) or hasattr(x, "__next__"):
            return x
        raise TypeErr(f"iter {k}")

    @staticmethod
    def mkdict(items):
        d = PDict()
        for k, v in items:
            for j, (k2, _) in enumerate(d.items):
                if ktruth(norm(v_eq(k, k2))):
                    d.items[j] = (k2, v)
                    break
            else:
                d.items.append((k, v))
        return d

    @staticmethod
    def fmt(x, conv):
        if conv == 114:
            return py_repr(x)
        return py_str(x)

    @staticmethod
    def fstr(*parts):
        return text_cat(parts)

    # ---------------------------------------------------------------- calls
    @staticmethod
    def call(f, *args, **kw):
        h = BUILTINS.get(f) if isinstance(f, typing.Hashable) and not isinstance(f, (AnyVal,)) else None
        if h is not None:
            return h(*args, **kw)
        return f(*args, **kw)

    @staticmethod
    def callm(o, name, *args, **kw):
        k = kind(o)
        if k in ("bytes", "str") :
            return METHODS[(k, name)](bytes(o) if isinstance(o, bytearray) else o, *args)
        if k == "list" and not isinstance(o, SList):
            if ("list", name) in METHODS:
                return METHODS[("list", name)](o, *args)
        if k == "dict":
            return METHODS[("dict", name)](o, *args)
        if (k == "rec" or k == "any") and name == "to_cbor":
            return U.serialise(to_data(o))
        if o is bytes and name == "fromhex":
            return bytes_fromhex(*args)
        return getattr(o, name)(*args, **kw)

    # ---------------------------------------------------------------- imports
    @staticmethod
    def star(mod, g):
        ns = load_module(mod)
        for k, v in ns.items():
            if not k.startswith("_"):
                g[k] = v

    @staticmethod
    def names(mod, names, g):
        ns = load_module(mod)
        for n, a in names:
            g[a or n] = ns[n]

    @staticmethod
    def hashnames(names, g):
        for n, a in names:
            g[a or n] = HASHES[n]


def sub_in(x, c):
    from .vals import _vec
    vx, vc = _vec(x), _vec(c)
    if vx is None or vc is None:
        return z3.Contains(seq_of(c), seq_of(x))
    return b_or(*[b_and(*[i_eq(p, q) for p, q in zip(vx, vc[i:i + len(vx)])]) for i in range(0, len(vc) - len(vx) + 1)])


def bytes_fromhex(s):
    if isinstance(s, str):
        return bytes.fromhex(s)
    if s.vec is None:
        raise EngineError("fromhex of unbounded text")
    # documented deviation: no whitespace on chain
    for c in s.vec:
        if is_sym(c) and ktruth(b_or(*[i_eq(c, w) for w in WS])):
            raise Fail("whitespace in hex (documented deviation)")
    if len(s.vec) % 2:
        raise ValueError()

    def hv(c):
        if isinstance(c, int):
            return int(chr(c), 16)
        if ktruth(z3.And(c >= 48, c <= 57)): return c - 48
        if ktruth(z3.And(c >= 97, c <= 102)): return c - 87
        if ktruth(z3.And(c >= 65, c <= 70)): return c - 55
        raise ValueError()
    from .vals import _norm
    return _norm(SB, [hv(s.vec[i]) * 16 + hv(s.vec[i + 1]) for i in range(0, len(s.vec), 2)])


def b_hex(b):
    if isinstance(b, bytes):
        return b.hex()
    if b.vec is None:
        raise EngineError("hex of unbounded bytes")
    from .vals import _norm
    out = []
    for c in b.vec:
        out += [digit_char(simp(fdiv(c, 16))), digit_char(simp(fmod(c, 16)))]
    return _norm(ST, out)


def b_just(b, width, fill, left):
    width = norm(as_int(width))
    if ktruth(b_not(i_eq(py_len(fill), 1))):
        raise Fail("fillchar")
    n = py_len(b)
    need = norm(width - n)
    if not isinstance(need, int):
        if ktruth(need <= 0):
            return b
        bounded(need, Bound.rep, "padding")
        need = concretize(need, 1, Bound.rep)
    pad = b""
    for _ in range(max(need, 0)):
        pad = s_concat(pad, fill)
    return s_concat(b, pad) if left else s_concat(pad, b)


def l_index(l, x, *a):
    for i, e in enumerate(l):
        if ktruth(norm(v_eq(e, x))):
            return i
    raise ValueError()


def l_count(l, x):
    r = 0
    for e in l:
        r = r + i_ite(v_eq(e, x), 1, 0)
    return norm(r)


def d_get(d, k, default=None):
    for a, b in ditems(d):
        if ktruth(norm(v_eq(a, k))):
            return b
    return default


METHODS = {
    ("bytes", "decode"): lambda b, *a: utf8_decode(b),
    ("bytes", "hex"): b_hex,
    ("bytes", "ljust"): lambda b, w, f=b" ": b_just(b, w, f, True),
    ("bytes", "rjust"): lambda b, w, f=b" ": b_just(b, w, f, False),
    ("bytes", "fromhex"): lambda b, s: bytes_fromhex(s),
    ("str", "encode"): lambda s, *a: utf8_encode(s),
    ("list", "index"): l_index,
    ("list", "count"): l_count,
    ("dict", "get"): d_get,
    ("dict", "keys"): lambda d: [a for a, _ in ditems(d)],
    ("dict", "values"): lambda d: [b for _, b in ditems(d)],
    ("dict", "items"): lambda d: [(a, b) for a, b in ditems(d)],
}


def p_abs(x):
    x = as_int(x)
    return norm(i_ite(i_lt(x, 0), -x, x))


def p_minmax(*args, mx=True):
    xs = list(args)
    if len(xs) == 1:
        xs = Runtime.iter(xs[0])
    if not xs:
        raise ValueError()
    r = xs[0]
    for e in xs[1:]:
        c = Runtime.cmp("Gt" if mx else "Lt", e, r)
        if is_int(e) and is_int(r):
            r = norm(i_ite(c, e, r))
        else:
            r = e if ktruth(c) else r
    return r


def p_sum(xs, start=0):
    r = start
    for e in Runtime.iter(xs):
        r = Runtime.binop("Add", r, e)
    return r


def p_all(xs):
    for e in Runtime.iter(xs):
        if not Runtime.truth(e):
            return False
    return True


def p_any(xs):
    for e in Runtime.iter(xs):
        if Runtime.truth(e):
            return True
    return False


def p_range(*a):
    a = [norm(as_int(x)) for x in a]
    if all(isinstance(x, int) for x in a):
        return list(range(*a))
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1 if len(a) == 2 else a[2])
    st = norm(st)
    if not isinstance(st, int):
        if ktruth(i_eq(st, 0)):
            raise ValueError()
    elif st == 0:
        raise ValueError()
    out = []
    pos = ktruth(i_lt(0, st))
    while True:
        x = norm(lo + len(out) * st)
        if not ktruth(x < hi if pos else x > hi):
            return out
        out.append(x)
        if len(out) > Bound.rng:
            K.P.notes.setdefault("bounded", set()).add("range length")
            nx = norm(lo + len(out) * st)
            K.assume_feasible(nx >= hi if pos else nx <= hi)
            return out


def p_chr(x):
    x = norm(as_int(x))
    if isinstance(x, int):
        if 0xD800 <= x <= 0xDFFF:
            raise Fail("surrogate: not representable as text on chain")
        return chr(x)
    if ktruth(b_or(i_lt(x, 0), i_lt(0x10FFFF, x))):
        raise ValueError()
    if ktruth(z3.And(x >= 0xD800, x <= 0xDFFF)):
        raise Fail("surrogate: not representable as text on chain")
    return ST(vec=(x,))


def p_ord(s):
    if ktruth(b_not(i_eq(py_len(s), 1))):
        raise TypeError("ord() expected a character")
    return norm(s_index(s, 0))


def p_int(x=0, *a):
    k = kind(x)
    if k == "int": return x
    if k == "bool": return norm(as_int(x))
    if k == "str": return parse_int(x)
    raise TypeErr(f"int({k})")


def p_bytes(x=b"", *a):
    k = kind(x)
    if k == "bytes": return x
    if k == "int":
        if ktruth(i_lt(x, 0)):
            raise ValueError()
        if not isinstance(norm(x), int):
            bounded(x, Bound.rep, "bytes(n)")
            x = concretize(x, 0, Bound.rep)
        return bytes(x)
    if k == "list":
        for e in x:
            if ktruth(b_or(i_lt(e, 0), i_lt(255, e))):
                raise ValueError()
        from .vals import _norm
        return _norm(SB, x)
    raise TypeErr(f"bytes({k})")


def p_isinstance(x, t):
    if isinstance(t, tuple):
        return any(p_isinstance(x, u) for u in t)
    k = kind(x)
    if t is int: return k in ("int", "bool")
    if t is bool: return k == "bool"
    if t is bytes: return k == "bytes"
    if t is str: return k == "str"
    if t is list or getattr(t, "__origin__", None) is list: return k == "list"
    if t is dict or getattr(t, "__origin__", None) is dict: return k == "dict"
    if k == "any":
        raise EngineError("isinstance on Any")
    return isinstance(x, t)


def p_print(*args, **kw):
    if not args:
        s = ""
    parts = []
    for i, a in enumerate(args):
        if i:
            parts.append(" ")
        parts.append(py_str(a))
    K.P.notes.setdefault("pyprint", []).append(text_cat(parts))
    return None


BUILTINS = {
    len: py_len, str: lambda x="": py_str(x), repr: py_repr, int: p_int, bool: lambda x=False: Runtime.truth(x) if not is_bool(x) else x,
    bytes: p_bytes, abs: p_abs, max: functools.partial(p_minmax, mx=True), min: functools.partial(p_minmax, mx=False),
    sum: p_sum, all: p_all, any: p_any, range: p_range, chr: p_chr, ord: p_ord, hex: lambda x: int_to_text(x, 16, "0x"),
    oct: lambda x: int_to_text(x, 8, "0o"), pow: lambda a, b, m=None: Runtime.pow(a, b, m), reversed: lambda x: list(reversed(Runtime.iter(x))),
    isinstance: p_isinstance, print: p_print, list: lambda x=(): list(Runtime.iter(x)), dict: lambda x=None: Runtime.mkdict(x or []),
    sorted: None, type: None,
}
BUILTINS = {k: v for k, v in BUILTINS.items() if v is not None}


PY_FAILS = (AssertionError, ZeroDivisionError, IndexError, KeyError, ValueError, NameError, OverflowError, Fail, RecursionError, TypeError, AttributeError)
