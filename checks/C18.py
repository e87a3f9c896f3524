"""C18 type substitutability: the laws of a partial order proved by structural induction over the real __ge__ methods, joins as upper bounds,
and every accepted use of one type as another proved to preserve the value (source program against compiled script)."""
import itertools
import time

import z3

from .common import *
from vf import kernel as K
from vf.prog import Result

META = dict(level="translation_validation",
            technique="contract-based deductive verification: order laws by structural induction over the real __ge__ methods (z3), representation preservation by relational contracts on compiled programs",
            explanation="Each law is a lemma over the real __ge__ methods, executed with abstract component types whose own order is an uninterpreted relation constrained only by the induction hypothesis "
            "(the laws for strictly smaller types), so nesting is unbounded; arities are enumerated (records, tuples and functions up to 3/3/2, unions up to 4 members). union_types and find_max_type return an upper bound of their arguments. "
            "That related types have compatible representations is the relational contract of assignment, call, return, list/dict literal, conditional, concatenation, and cast programs over all pairs of types up to nesting 2: an accepted program computes what Python computes.",
            trusted=["a failed lemma is replayed on concrete types drawn from a pool; without such types it is reported as no-failing-input-found"],
            assumptions=["closure placeholders (types of recursive functions before inference has finished) are not types in the sense of the order; the data-instance marking of a type is ignored by it"])

GE = z3.Function("ge", z3.IntSort(), z3.IntSort(), z3.BoolSort())
ANY_ID = 0


def world():
    import opshin.type_impls as T
    import opshin.type_inference as I
    from frozendict import frozendict
    from frozenlist2 import frozenlist

    class Abs(T.ClassType):
        """a component type about which only the induction hypothesis is known"""
        def __init__(self, i):
            object.__setattr__(self, "i", i)

        def __ge__(self, o):
            if real(o, Abs):
                return K.truth(GE(self.i, o.i))
            if real(o, T.AnyType):
                return K.truth(GE(self.i, ANY_ID))
            raise K.EngineError(f"abstract type compared with {type(o).__name__}")

        def __eq__(self, o):
            if real(o, (Abs, T.AnyType)):
                j = o.i if real(o, Abs) else ANY_ID
                return K.truth(z3.And(GE(self.i, j), GE(j, self.i)))
            raise K.EngineError(f"abstract type compared with {type(o).__name__}")

        def __ne__(self, o):
            return not self.__eq__(o)

        def __hash__(self):
            return 7

        def python_type(self):
            return f"t{self.i}"
    real = isinstance

    def guarded(x, t):
        if real(x, Abs):
            ts = t if real(t, tuple) else (t,)
            if any(c in (T.Type, T.ClassType, Abs, object) for c in ts):
                return True
            if all(c in (T.FunctionType, T.PolymorphicFunctionType, T.InstanceType, T.DataInstanceType, T.Record, T.InaccessibleType) for c in ts):
                return False
            if all(c in (T.FunctionType, T.PolymorphicFunctionType, T.InstanceType, T.DataInstanceType, T.UnionType) for c in ts) and T.UnionType in ts:
                return False
            if all(c is T.AnyType for c in ts):
                return K.truth(GE(x.i, ANY_ID))
            raise K.EngineError(f"isinstance(abstract type, {t})")
        return real(x, t)
    T.isinstance = guarded
    I.isinstance = guarded
    return T, I, Abs, frozenlist, frozendict


def shapes(T, fl, fd):
    """name -> builder taking a component supply (a function returning a new component type)"""
    S = {}
    inst = T.InstanceType

    def rec(c, names, nm="R"):
        return lambda a: T.RecordType(T.Record(nm, nm, c, fl([(n, inst(a())) for n in names])))
    for n in ("Any", "Integer", "ByteString", "String", "Bool", "Unit"):
        S[n] = lambda a, n=n: getattr(T, n + "Type")()
    for c, names in [(0, ()), (0, ("a",)), (1, ("a",)), (0, ("b",)), (0, ("a", "b")), (0, ("b", "a")), (0, ("a", "b", "c"))]:
        S[f"Record{c}({','.join(names)})"] = rec(c, names)
    S["Record0(a) named Q"] = rec(0, ("a",), "Q")
    S["List"] = lambda a: T.ListType(inst(a()))
    S["Dict"] = lambda a: T.DictType(inst(a()), inst(a()))
    for n in range(4):
        S[f"RawTuple{n}"] = lambda a, n=n: T.RawTupleType(fl([inst(a()) for _ in range(n)]))
    for n in range(1, 3):
        S[f"Tuple{n}"] = lambda a, n=n: T.TupleType(fl([inst(a()) for _ in range(n)]))
    S["Pair"] = lambda a: T.PairType(inst(a()), inst(a()))
    A = lambda: inst(T.AnyType())
    mem = {"I": lambda a: T.IntegerType(), "B": lambda a: T.ByteStringType(), "L": lambda a: T.ListType(A()), "D": lambda a: T.DictType(A(), A()),
           "0": rec(0, ("a",)), "1": rec(1, ("a",)), "2": rec(2, ("b",)), "3": rec(3, ())}
    for u in ("IB", "BI", "IL", "LD", "0I", "01", "10", "0123", "01I", "IBLD", "0L", "3I", "12", "013"):
        S[f"Union[{u}]"] = lambda a, u=u: T.UnionType(fl([mem[m](a) for m in u]))
    for n in range(3):
        S[f"Function{n}"] = lambda a, n=n: T.FunctionType(fl([inst(a()) for _ in range(n)]), inst(a()), fd({}), None)
    S["Function1 bound"] = lambda a: T.FunctionType(fl([inst(a())]), inst(a()), fd({"x": inst(a())}), None)
    S["Function1 bound y"] = lambda a: T.FunctionType(fl([inst(a())]), inst(a()), fd({"y": inst(a())}), None)
    S["Function1 self"] = lambda a: T.FunctionType(fl([inst(a())]), inst(a()), fd({}), "f")
    S["Poly len"] = lambda a: T.PolymorphicFunctionType(T.StrImpl())
    S["Poly int"] = lambda a: T.PolymorphicFunctionType(T.IntImpl())
    return S


def hypothesis(n, functions):
    """the laws for all component types (strictly smaller than the types compared)"""
    ids = range(n + 1)
    ax = [GE(i, i) for i in ids]
    ax += [z3.Implies(z3.And(GE(i, j), GE(j, k)), GE(i, k)) for i in ids for j in ids for k in ids if i != j and j != k and i != k]
    if not functions:
        ax += [GE(ANY_ID, i) for i in ids]
    return ax


def lemma(res, name, heads, build, body, replay):
    """body(types) -> list of (law, holds) on the current path; a path on which a law is false and which is feasible refutes it"""
    def run():
        cnt = [0]

        def supply():
            cnt[0] += 1
            return build.Abs(cnt[0])
        ts = [build.S[h](supply) for h in heads]
        K.assume(z3.And(*hypothesis(cnt[0], any("Function" in h for h in heads))))
        out = []
        for law, ok in body(ts):
            st, model, be = K.check_valid(bool(ok))
            out.append((law, st, be))
        return out
    n = 0
    results, complete, why = K.explore(run, max_paths=4000, time_limit=60)
    for path, out in results:
        for law, st, be in out:
            n += 1
            res.obl.append((f"{name}: {law} #{n}", st, be, False))
            if st == "invalid":
                w = replay(heads, law)
                res.violations.append(dict(prog=name, obligation=f"{name}: {law}", kind="order", detail=f"{law} does not follow for {heads}" + (f"; concrete types {w}" if w else ""), inputs=w, replayed=bool(w)))
            elif st == "unknown":
                res.undecided.append((f"{name}: {law}", "solver"))
    res.paths += len(results)
    if not complete:
        res.complete = False
        res.undecided.append((name, why))


class Build:
    def __init__(self):
        self.T, self.I, self.Abs, fl, fd = world()
        self.S = shapes(self.T, fl, fd)
        T = self.T
        self.pool = [T.AnyType(), T.IntegerType(), T.ByteStringType(), T.ListType(T.IntegerInstanceType), T.ListType(T.InstanceType(T.AnyType())), T.RecordType(T.Record("E", "E", 5, fl([]))),
                     T.UnionType(fl([T.IntegerType(), T.ByteStringType()]))]

    def concrete(self, head, limit=400):
        cnt = [0]

        def probe():
            cnt[0] += 1
            return self.pool[0]
        self.S[head](probe)
        for combo in itertools.islice(itertools.product(self.pool, repeat=cnt[0]), limit):
            it = iter(combo)
            yield self.S[head](lambda: next(it))


def same(T, x, y):
    """equal up to the name of a record class, the order of union members and the data-instance marking"""
    if isinstance(x, T.InstanceType) and isinstance(y, T.InstanceType):
        return same(T, x.typ, y.typ)
    if hasattr(x, "i") or hasattr(y, "i"):
        return bool(x == y)
    if type(x) is not type(y):
        return False
    if isinstance(x, T.RecordType):
        a, b = x.record, y.record
        return a.constructor == b.constructor and len(a.fields) == len(b.fields) and all(m == n and same(T, s, t) for (m, s), (n, t) in zip(a.fields, b.fields))
    if isinstance(x, T.UnionType):
        return all(any(same(T, s, t) for t in y.typs) for s in x.typs) and all(any(same(T, s, t) for s in x.typs) for t in y.typs)
    if isinstance(x, T.TupleType):
        return len(x.typs) == len(y.typs) and all(same(T, s, t) for s, t in zip(x.typs, y.typs))
    if isinstance(x, T.ListType):
        return same(T, x.typ, y.typ)
    if isinstance(x, T.DictType):
        return same(T, x.key_typ, y.key_typ) and same(T, x.value_typ, y.value_typ)
    if isinstance(x, T.PairType):
        return same(T, x.l_typ, y.l_typ) and same(T, x.r_typ, y.r_typ)
    if isinstance(x, T.FunctionType):
        return len(x.argtyps) == len(y.argtyps) and all(same(T, s, t) for s, t in zip(x.argtyps, y.argtyps)) and same(T, x.rettyp, y.rettyp) and x.bind_self == y.bind_self \
            and x.bound_vars.keys() == y.bound_vars.keys() and all(same(T, v, y.bound_vars[k]) for k, v in x.bound_vars.items())
    if isinstance(x, T.PolymorphicFunctionType):
        return type(x.polymorphic_function) is type(y.polymorphic_function)
    return True


def possible(b, hx, hy):
    """can X >= Y hold for these heads (over-approximated by exploring the real method)"""
    def run():
        cnt = [0]

        def supply():
            cnt[0] += 1
            return b.Abs(cnt[0])
        x, y = b.S[hx](supply), b.S[hy](supply)
        return bool(x >= y)
    rs, complete, _ = K.explore(run, max_paths=3000, time_limit=30)
    return not complete or any(r for _, r in rs)


PY = lambda t: t.python_type() if not type(t).__name__.startswith("Poly") else str(t)


def order_task(hx, b=None):
    t0 = time.time()
    res = Result(f"order {hx}")
    b = b or Build()
    T = b.T
    assert list(b.S) == SHAPE_NAMES

    def replay(law_of):
        def go(heads, law):
            for ts in itertools.islice(itertools.product(*[list(b.concrete(h, 60)) for h in heads]), 60000):
                try:
                    if not law_of(ts):
                        return [PY(t) for t in ts]
                except NotImplementedError:
                    pass
            return None
        return go
    lemma(res, f"reflexivity {hx}", [hx], b, lambda ts: [("X >= X", ts[0] >= ts[0])], replay(lambda ts: ts[0] >= ts[0]))
    below = [h for h in b.S if possible(b, hx, h)]
    for hy in below:
        if possible(b, hy, hx):
            lemma(res, f"antisymmetry {hx}, {hy}", [hx, hy], b,
                  lambda ts: [("X >= Y and Y >= X imply X = Y", same(T, *ts))] if ts[0] >= ts[1] and ts[1] >= ts[0] else [],
                  replay(lambda ts: not (ts[0] >= ts[1] and ts[1] >= ts[0]) or same(T, *ts)))
        for hz in b.S:
            if possible(b, hy, hz):
                lemma(res, f"transitivity {hx}, {hy}, {hz}", [hx, hy, hz], b,
                      lambda ts: [("X >= Y >= Z implies X >= Z", ts[0] >= ts[2])] if ts[0] >= ts[1] and ts[1] >= ts[2] else [],
                      replay(lambda ts: not (ts[0] >= ts[1] and ts[1] >= ts[2]) or ts[0] >= ts[2]))
    # the order lifts to instances unchanged, and instances and classes do not mix
    for hy in b.S:
        lemma(res, f"instances {hx}, {hy}", [hx, hy], b,
              lambda ts: [("InstanceType(X) >= InstanceType(Y) iff X >= Y", (T.InstanceType(ts[0]) >= T.InstanceType(ts[1])) == (ts[0] >= ts[1])),
                          ("InstanceType(X) >= Y never", not (T.InstanceType(ts[0]) >= ts[1]))],
              replay(lambda ts: (T.InstanceType(ts[0]) >= T.InstanceType(ts[1])) == (ts[0] >= ts[1]) and not (T.InstanceType(ts[0]) >= ts[1])))
    import opshin.type_impls
    res.touched = [f"opshin/type_impls.py:{c}.__ge__" for c in ("AnyType", "AtomicType", "Record", "RecordType", "UnionType", "TupleType", "RawTupleType", "PairType", "ListType", "DictType", "FunctionType", "InstanceType", "PolymorphicFunctionType")]
    st = K.STATS
    res.solver_s, res.queries, res.backends = st.solver_s, st.queries, dict(st.backends)
    res.wall = time.time() - t0
    return res


BIG = ('Record0(a,b,c)', 'RawTuple3', 'Union[0123]', 'Union[10]', 'Record0(b,a)', 'Union[013]')


def join_task(hx, third=("List", "Record1(a)")):
    """union_types, find_max_type: upper bounds"""
    t0 = time.time()
    res = Result(f"join {hx}")
    b = Build()
    T, I = b.T, b.I

    class E:
        def __init__(self, t):
            self.typ = t

    def union(ts):
        try:
            r = I.union_types(*ts)
        except (AssertionError, NotImplementedError):
            return []
        return [("union_types(..) >= each argument", all(r >= t for t in ts))]

    def maxt(ts):
        try:
            r = I.find_max_type([E(T.InstanceType(t)) for t in ts])
        except (ValueError, AssertionError):
            return []
        return [("find_max_type(..) >= each element", all(r >= T.InstanceType(t) for t in ts))]

    def rep(f):
        def go(heads, law):
            for ts in itertools.islice(itertools.product(*[list(b.concrete(h, 60)) for h in heads]), 60000):
                if not all(ok for _, ok in f(ts)):
                    return [PY(t) for t in ts]
            return None
        return go
    skip = ("Function", "Poly")
    for hy in b.S:
        if hy in BIG:
            continue
        if hx.startswith(skip) != hy.startswith(skip):
            continue
        for nm, f in (("union_types", union), ("find_max_type", maxt)):
            lemma(res, f"{nm} {hx}, {hy}", [hx, hy], b, f, rep(f))
            if not hx.startswith(skip):
                for hz in third:
                    lemma(res, f"{nm} {hx}, {hy}, {hz}", [hx, hy, hz], b, f, rep(f))
    res.touched = ["opshin/type_inference.py:union_types", "opshin/type_inference.py:find_max_type"]
    st = K.STATS
    res.solver_s, res.queries, res.backends = st.solver_s, st.queries, dict(st.backends)
    res.wall = time.time() - t0
    return res


# ------------------------------------------------------------------ representations
CLS = '''from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData
@dataclass()
class A(PlutusData):
    CONSTR_ID = 1
    x: int
@dataclass()
class B(PlutusData):
    CONSTR_ID = 2
    x: int
    y: bytes
@dataclass()
class A2(PlutusData):
    CONSTR_ID = 1
    z: int
@dataclass()
class A3(PlutusData):
    CONSTR_ID = 1
    x: bytes
@dataclass()
class G(PlutusData):
    CONSTR_ID = 3
    f: Anything
@dataclass()
class G2(PlutusData):
    CONSTR_ID = 3
    f: int
@dataclass()
class L1(PlutusData):
    CONSTR_ID = 4
    f: List[Anything]
@dataclass()
class L2(PlutusData):
    CONSTR_ID = 4
    f: List[int]
'''
TYPES = ["int", "bytes", "str", "bool", "None", "A", "B", "A2", "A3", "G", "G2", "L1", "L2", "Union[A, B]", "Union[A, int]", "Union[int, bytes]", "Union[A, B, int]", "Union[int, List[Anything], Dict[Anything, Anything]]", "Anything",
         "List[int]", "List[bytes]", "List[A]", "List[Union[A, B]]", "List[Anything]", "List[List[int]]", "List[List[Anything]]", "List[bool]",
         "Dict[int, int]", "Dict[int, Anything]", "Dict[Anything, Anything]", "Dict[int, List[int]]", "Dict[int, List[Anything]]", "Dict[bytes, Union[A, B]]", "Dict[bytes, A]", "List[Dict[int, int]]"]
FEW = ["int", "bytes", "str", "A", "B", "A2", "A3", "G", "G2", "L1", "L2", "Union[A, B]", "Union[A, int]", "Union[int, bytes]", "Anything", "List[int]", "List[A]", "List[Anything]", "Dict[int, int]", "Dict[int, Anything]"]
FEWER = ["int", "bool", "A", "A3", "G2", "Union[A, B]", "Union[A, int]", "List[int]", "List[Anything]", "Dict[int, int]"]
NONDATA = ("str", "bool", "None")
USE = {
    "assignment": ("x: {S}", "{T}", "y: {T} = x\nreturn y"),
    "call": ("x: {S}", "{T}", "def f(y: {T}) -> {T}:\n    return y\nreturn f(x)"),
    "return": ("x: {S}", "{T}", "def f(y: {S}) -> {T}:\n    return y\nreturn f(x)"),
    "reassignment": ("x: {S}, w: {T}", "{T}", "y = w\ny = x\nreturn y"),
    "branches": ("x: {S}, w: {T}, k: int", "{T}", "if k > 0:\n    y = w\nelse:\n    y = x\nreturn y"),
    "list": ("x: {S}, w: {T}", "List[{T}]", "return [w, x]"),
    "list first": ("x: {S}, w: {T}", "List[{T}]", "l = [x, w]\nreturn l"),
    "dict": ("x: {S}, w: {T}", "{T}", "y = {{1: w, 2: x}}\nreturn y[2]"),
    "conditional": ("x: {S}, w: {T}, k: int", "{T}", "return x if k > 0 else w"),
    "conditional other way": ("x: {S}, w: {T}, k: int", "{T}", "y = w if k > 0 else x\nreturn y"),
    "concatenation": ("x: {S}, w: {T}", "List[{T}]", "return [x] + [w]"),
    "list argument": ("x: List[{S}]", "List[{T}]", "def f(y: List[{T}]) -> List[{T}]:\n    return y\nreturn f(x)"),
    "dict argument": ("x: Dict[int, {S}]", "Dict[int, {T}]", "def f(y: Dict[int, {T}]) -> Dict[int, {T}]:\n    return y\nreturn f(x)"),
    "field": ("x: {S}", "Z", "return Z(x)"),
    "field read back": ("x: {S}", "{T}", "z = Z(x)\nreturn z.f"),
    "loop variable": ("x: {S}, w: {T}", "{T}", "y = w\nfor y in [x]:\n    pass\nreturn y"),
    "comprehension": ("x: {S}, w: {T}", "List[{T}]", "return [y for y in [w, x]]"),
    "tuple": ("x: {S}, w: {T}", "{T}", "t = (x, w)\ny: {T} = t[0]\nreturn y"),
    "there and back": ("x: {S}", "{S}", "def f(y: {S}) -> {T}:\n    return y\nz: {S} = f(x)\nreturn z"),
    "indexed": ("x: {S}, w: {T}", "{T}", "l = [w, x]\nreturn l[1]"),
    "call of a variable": ("x: {S}", "{T}", "def f(y: {T}) -> {T}:\n    return y\nh = f\nreturn h(x)"),
    "two calls deep": ("x: {S}", "{T}", "def f(y: {T}) -> {T}:\n    return y\ndef g(y: {S}) -> {T}:\n    return f(y)\nreturn g(x)"),
}
TUPLES = {  # tuples used as lists
    "assigned": ("a: {S}, b: {S}", "List[{T}]", "y: List[{T}] = (a, b)\nreturn y"),
    "passed": ("a: {S}, b: {S}", "List[{T}]", "def f(y: List[{T}]) -> List[{T}]:\n    return y\nreturn f((a, b))"),
    "returned": ("a: {S}, b: {S}", "List[{T}]", "def f(x: {S}, y: {S}) -> List[{T}]:\n    return (x, y)\nreturn f(a, b)"),
    "in a list": ("a: {S}, b: {T}", "List[List[{T}]]", "return [[b], (a, a)]"),
    "in a conditional": ("a: {S}, b: {T}", "List[{T}]", "return (a, a, a) if a == a else [b]"),
    "empty": ("a: {S}, b: {T}", "List[{T}]", "y = [b]\ny = ()\nreturn y"),
    "as a tuple": ("a: {S}, b: {S}", "List[{T}]", "t = (a, b)\nu = (b, a)\nt = u\nreturn [t[0], t[1]]"),
}


def below(T, S):
    """the documented relation: may an S be used as a T (used only to choose how many programs a pair gets)"""
    if T == S or T == "Anything":
        return True
    m = lambda t: [x.strip() for x in split(t[6:-1])] if t.startswith("Union[") else [t]
    if T.startswith("Union["):
        return all(any(below(u, s) for u in m(T)) for s in m(S))
    if T.startswith("List[") and S.startswith("List["):
        return below(T[5:-1], S[5:-1])
    if T.startswith("Dict[") and S.startswith("Dict["):
        return all(below(a, b) for a, b in zip(split(T[5:-1]), split(S[5:-1])))
    return (T, S) in (("G", "G2"), ("L1", "L2"))


def split(s):
    out, d, cur = [], 0, ""
    for c in s:
        d += (c == "[") - (c == "]")
        if c == "," and not d:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def progs(tier):
    ps = []
    gen = dict(bytes_len=1, list_len=1, dict_len=1)
    for S in TYPES:
        for T in TYPES:
            rel = below(T, S)
            if S == T and tier == "quick" and S not in ("A", "List[Anything]", "Union[A, int]", "Dict[int, List[int]]"):
                continue
            for use, (sig, ret, body) in USE.items():
                if not rel and tier == "quick" and not (use == "call" and S in FEW and T in FEW or use in ("list", "conditional") and S in FEWER and T in FEWER):
                    continue
                if not rel and T in NONDATA + ("bytes",) and S in NONDATA and tier == "quick":
                    continue
                if use in ("field", "field read back") and (T in NONDATA or T.startswith("List[b") and "bool" in T):
                    continue
                hdr = CLS + f"@dataclass()\nclass Z(PlutusData):\n    CONSTR_ID = 9\n    f: {T}\n" if use.startswith("field") else CLS
                ps.append(P(f"{use}: {S} as {T}", sig.format(S=S, T=T), ret.format(S=S, T=T), body.format(S=S, T=T), hdr, cfgs=("O0", "O2") if rel else ("O0",), may_reject=True, gen=gen, time_limit=15, concrete=3))
    for S in ["int", "bytes", "A", "Union[A, B]", "List[int]"]:
        for T in [S] + [t for t in ("Anything", "Union[A, B]", "List[Anything]") if below(t, S) and t != S]:
            for use, (sig, ret, body) in TUPLES.items():
                ps.append(P(f"tuple {use}: {S} as {T}", sig.format(S=S, T=T), ret.format(S=S, T=T), body.format(S=S, T=T), CLS, cfgs=("O0", "O2"), may_reject=True, gen=gen, time_limit=15, concrete=3))
    return ps


def tasks(tier, seed):
    ts = [Task(f"order {h}", lambda h=h: order_task(h), timeout=300, weight=3) for h in SHAPE_NAMES]
    ts += [Task(f"join {h}", lambda h=h: join_task(h, *([("Integer", "List", "Record1(a)", "Any")] if tier != "quick" else [])), timeout=300, weight=4) for h in SHAPE_NAMES if h not in BIG]
    return ts + grouped(progs(tier), tier, seed)


SHAPE_NAMES = ["Any", "Integer", "ByteString", "String", "Bool", "Unit", "Record0()", "Record0(a)", "Record1(a)", "Record0(b)", "Record0(a,b)", "Record0(b,a)", "Record0(a,b,c)", "Record0(a) named Q", "List", "Dict",
               "RawTuple0", "RawTuple1", "RawTuple2", "RawTuple3", "Tuple1", "Tuple2", "Pair"] + [f"Union[{u}]" for u in ("IB", "BI", "IL", "LD", "0I", "01", "10", "0123", "01I", "IBLD", "0L", "3I", "12", "013")] + \
              ["Function0", "Function1", "Function2", "Function1 bound", "Function1 bound y", "Function1 self", "Poly len", "Poly int"]
