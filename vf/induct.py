"""Unbounded lists: loops are cut at their heads (loop contracts), so that a claim is discharged for lists of every length.

A parameter of type List[T] is an unknown list.  The Python run stops at a loop over it; the script run stops at the application of a
recursive function (a closure applied to itself, as every loop in the emitted code is) to it.  Three cases are explored at each such head:
  entry  both runs stop at the head: the lists are the same and the loop variables have equal values (the coupling holds initially),
  nil    both continue behind the loop from arbitrary equal values of the loop variables: the outcomes are equal (or the next heads agree),
  cons   both execute the body once, for an arbitrary element, from arbitrary equal values of the loop variables: they leave the loop with
         equal outcomes or return to the head with the rest of the list and equal loop variables (the coupling is preserved).
By induction on the list the outcomes are equal for every list.  Comprehensions and the conversion of parameters and results (recursions that
are not tail calls) are cut in the same way with the result of the recursive call as an arbitrary common list.  The loop variables are paired by
name (or because there is only one); whatever does not fit this scheme is reported as undecided, and the bounded obligations of the same
construct remain the deciding ones.
"""
import ast
import os
import re
import time
import z3
from . import kernel as K
from . import abi, pysem as PY, uplcsem as U
from .kernel import EngineError, Fail
from .vals import *
from .prog import Prog, Result, compile_src, CompileRejected, TOUCHED


class Stop(BaseException):
    def __init__(self, kind, *a): self.kind, self.a = kind, a


class UList:
    """Python value: unknown list"""
    def __init__(self, pre, ut): self.__dict__.update(pre=list(pre), ut=ut)

    def _no(self, *a): raise EngineError("operation on an unknown list")
    __len__ = __iter__ = __getitem__ = __eq__ = __bool__ = __add__ = __radd__ = __contains__ = __getattr__ = _no
    __hash__ = object.__hash__


class Poison:
    def _no(self, *a): raise EngineError("a loop variable is used that has no value before the loop")
    __len__ = __iter__ = __getitem__ = __eq__ = __bool__ = __add__ = __radd__ = __contains__ = __getattr__ = _no
    __hash__ = object.__hash__


POISON = Poison()
PT = U.T(98)


class Ctx:
    def __init__(self, gen):
        self.events, self.i, self.G, self.active, self.parts = [], 0, gen, [], {}

    def split(self, ut):
        """empty or element and rest: both cases are explored"""
        if ut.id not in self.parts:
            self.parts[ut.id] = None if K.choose(2) else (element(ut.T), UT(K.P.fresh_name("t"), ut.T, None))
        return self.parts[ut.id]


def ctx():
    return K.P.notes["ind"]


def element(T):
    if T is None:
        raise EngineError("element type not known")
    v, d = ctx().G.gen(T, "h")
    return v, d, (d.v if isinstance(d, (DI, DB)) and T in ("int", "bytes") else v if T == "bool" else d)


def havoc(v):
    k = PY.kind(v)
    n = K.P.fresh_name("st")
    if k == "int": return z3.Int(n)
    if k == "bool": return z3.Bool(n)
    if k == "bytes": return SB(seq=z3.Const(n, IntSeq))
    if k == "str": return ST(seq=z3.Const(n, IntSeq))
    raise EngineError(f"loop variable of kind {k}")


# ------------------------------------------------------------------ Python side
class It:
    def __init__(self, sym, items, ev=None): self.sym, self.items, self.ev = sym, items, ev


class Rt(PY.Runtime):
    @staticmethod
    def head(xs, loc, names):
        if not isinstance(xs, UList):
            return It(False, PY.Runtime.iter(xs))
        if xs.pre:
            raise EngineError("loop over an extended unknown list")
        c = ctx()
        ev = dict(kind="loop", c=K.choose(3), ut=xs.ut, state={n: loc[n] for n in names if n in loc and loc[n] is not POISON}, names=set(names))
        c.events.append(ev)
        if ev["c"] == 0:
            raise Stop("head", ev, ev["state"])
        ev["gen"] = {n: havoc(v) for n, v in ev["state"].items()}
        if ev["c"] == 1:
            return It(True, [], ev)
        ev["h"], ev["t"] = element(xs.ut.T), UT(K.P.fresh_name("t"), xs.ut.T, None)
        return It(True, [ev["h"][0]], ev)

    @staticmethod
    def st(it, n):
        return it.ev["gen"].get(n, POISON)

    @staticmethod
    def back(it, loc):
        if it.sym:
            raise Stop("back", it.ev, {n: loc[n] for n in it.ev["gen"]})

    @staticmethod
    def comp(xs, elt, cond):
        if not isinstance(xs, UList):
            return [elt(e) for e in PY.Runtime.iter(xs) if PY.Runtime.truth(cond(e))]
        if xs.pre:
            raise EngineError("comprehension over an extended unknown list")
        c = ctx()
        ev = dict(kind="comp", c=K.choose(3), ut=xs.ut)
        c.events.append(ev)
        ev["h"], ev["t"] = element(xs.ut.T), UT(K.P.fresh_name("t"), xs.ut.T, None)
        T = None
        ev["R"] = UT(K.P.fresh_name("R"), None, None)
        take = PY.Runtime.truth(cond(ev["h"][0])) if ev["c"] == 2 else False
        try:
            v = elt(ev["h"][0])
            k = PY.kind(v)
            T = k if k in ("int", "bytes", "bool") else xs.ut.T if k == "rec" and isinstance(v, type(ev["h"][0])) else None
        except PY.PY_FAILS:
            if take:
                raise
        ev["R"].T = T or xs.ut.T   # (a wrong guess leaves the program undecided)
        if ev["c"] == 0:
            return UList([], ev["R"])
        if ev["c"] == 1:
            raise Stop("comp", ev, [], None)
        raise Stop("comp", ev, [v] if take else [], ev["R"])

    @staticmethod
    def call(f, *args, **kw):
        if len(args) == 1 and isinstance(args[0], UList) and isinstance(f, type(len)) or f is getattr(f, "_", 0):
            r = REF.get(f)
            if r is None:
                raise EngineError("built-in function of an unknown list")
            return r(args[0])
        return PY.Runtime.call(f, *args, **kw)

    @staticmethod
    def binop(op, a, b):
        if op == "Add" and isinstance(a, UList):
            if a.pre or not isinstance(b, (UList, list)):
                raise EngineError("addition of lists")
            c = ctx()
            ev = dict(kind="comp", app=True, c=K.choose(3), ut=a.ut, h=element(a.ut.T), t=UT(K.P.fresh_name("t"), a.ut.T, None), R=UT(K.P.fresh_name("R"), a.ut.T, None))
            c.events.append(ev)
            if ev["c"] == 0:
                return UList([], ev["R"])
            if ev["c"] == 1:
                raise Stop("comp", ev, list(b.pre if isinstance(b, UList) else b), b.ut if isinstance(b, UList) else None)
            raise Stop("comp", ev, [ev["h"][0]], ev["R"])
        if op == "Add" and isinstance(a, list) and isinstance(b, UList):
            return UList(a + b.pre, b.ut)
        return PY.Runtime.binop(op, a, b)

    @staticmethod
    def whead(loc, names):
        c = ctx()
        ev = dict(kind="while", c=K.choose(2), state={n: loc[n] for n in names if n in loc and loc[n] is not POISON}, names=set(names))
        c.events.append(ev)
        if ev["c"] == 0:
            raise Stop("head", ev, ev["state"])
        ev["gen"] = {n: havoc(v) for n, v in ev["state"].items()}
        return It(True, None, ev)

    @staticmethod
    def getitem(x, i):
        if not isinstance(x, UList):
            return PY.Runtime.getitem(x, i)
        if isinstance(i, int) and 0 <= i < 8 and not x.pre:
            u = x.ut
            while True:
                p = ctx().split(u)
                if p is None:
                    raise IndexError()
                if i == 0:
                    return p[0][0]
                i, u = i - 1, p[1]
        if not is_int(i) or isinstance(i, int) and i >= 0:
            return index(x, i)
        if PY.ktruth(i_lt(i, 0)):
            i = PY.norm(i_add(i, REF[len](x)))
        return index(x, i)

    @staticmethod
    def cmp(op, a, b):
        if isinstance(a, UList) and isinstance(b, UList) and op in ("Eq", "NotEq"):
            r = ref_eq(a, b)
            return r if op == "Eq" else b_not(r)
        if isinstance(b, UList) and op in ("In", "NotIn"):
            r = ref_in(b, a)
            return r if op == "In" else b_not(r)
        return PY.Runtime.cmp(op, a, b)

    @staticmethod
    def truth(x):
        if isinstance(x, UList):
            return bool(x.pre) or ctx().split(x.ut) is not None
        return PY.Runtime.truth(x)

    @staticmethod
    def unop(op, x):
        if op == "Not" and isinstance(x, UList):
            return not Rt.truth(x)
        return PY.Runtime.unop(op, x)


def fold(xs, acc, f):
    """reference definition: a loop with one accumulator"""
    it = Rt.head(xs, dict(acc=acc), ("acc",))
    if it.sym:
        acc = Rt.st(it, "acc")
    for e in it.items:
        acc = f(acc, e)
        Rt.back(it, dict(acc=acc))
    return acc


def ref_in(xs, x):
    it = Rt.head(xs, {}, ())
    for e in it.items:
        if PY.Runtime.truth(PY.Runtime.cmp("Eq", e, x)):
            return True
        Rt.back(it, {})
    return False


def index(xs, i):
    it = Rt.head(xs, dict(i=i), ("i",))
    if it.sym:
        i = Rt.st(it, "i")
    for e in it.items:
        if PY.ktruth(i_eq(i, 0)):
            return e
        i = PY.norm(i_sub(i, 1))
        Rt.back(it, dict(i=i))
    raise IndexError()


def ref_eq(x, y):
    if x.pre or y.pre:
        raise EngineError("comparison of extended unknown lists")
    c = ctx()
    ev = dict(kind="loop", c=K.choose(3), ut=x.ut, ut2=y.ut, state={}, names=set(), gen={})
    c.events.append(ev)
    if ev["c"] == 0:
        raise Stop("head", ev, {})
    ev["y"] = UT(K.P.fresh_name("y"), y.ut.T, None)
    p = c.split(ev["y"])
    if ev["c"] == 1:
        return p is None
    ev["h"], ev["t"] = element(x.ut.T), UT(K.P.fresh_name("t"), x.ut.T, None)
    if p is None or not PY.Runtime.truth(PY.Runtime.cmp("Eq", ev["h"][0], p[0][0])):
        return False
    ev["t2"] = p[1]
    raise Stop("back", ev, {})


def ref_any(xs, neg):
    """any (neg: all): a loop with one accumulator that stops as soon as the outcome is known"""
    acc = neg
    it = Rt.head(xs, dict(acc=acc), ("acc",))
    if it.sym:
        acc = Rt.st(it, "acc")
        if PY.ktruth(acc) != neg:
            return not neg
    for e in it.items:
        acc = b_and(e, acc) if neg else b_or(e, acc)
        Rt.back(it, dict(acc=acc))
    return neg


def ref_max(xs, op):
    if not Rt.truth(xs):
        raise ValueError()
    if xs.pre:
        raise EngineError("max of an extended list")
    (m, _, _), t = ctx().split(xs.ut)
    return fold(UList([], t), m, lambda a, e: PY.norm(i_ite(PY.Runtime.cmp(op, e, a), e, a)))


REF = {any: lambda xs: ref_any(xs, False), all: lambda xs: ref_any(xs, True), max: lambda xs: ref_max(xs, "Gt"), min: lambda xs: ref_max(xs, "Lt"), sum: lambda xs: fold(xs, 0, lambda a, e: PY.Runtime.binop("Add", a, e)), len: lambda xs: fold(xs, 0, lambda a, e: PY.Runtime.binop("Add", a, 1))}


class LoopInstr(PY.Instr):
    k = 0

    def visit_For(self, n):
        names = sorted({x.id for b in n.body + [n.target] for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        self.generic_visit(n)
        n.body = [y for x in n.body for y in (x if isinstance(x, list) else [x])]
        LoopInstr.k += 1
        it = f"vfit{LoopInstr.k}"
        load = lambda x: ast.Name(x, ast.Load())
        loc = lambda: ast.Call(load("locals"), [], [])
        return [ast.Assign([ast.Name(it, ast.Store())], self.rt("head", n.iter, loc(), ast.Constant(tuple(names)))),
                ast.If(ast.Attribute(load(it), "sym", ast.Load()), [ast.Assign([ast.Name(x, ast.Store())], self.rt("st", load(it), ast.Constant(x))) for x in names], []),
                ast.For(n.target, ast.Attribute(load(it), "items", ast.Load()), n.body + [ast.Expr(self.rt("back", load(it), loc()))], n.orelse)]

    def visit_While(self, n):
        names = sorted({x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        self.generic_visit(n)
        n.body = [y for x in n.body for y in (x if isinstance(x, list) else [x])]
        LoopInstr.k += 1
        it = f"vfit{LoopInstr.k}"
        load = lambda x: ast.Name(x, ast.Load())
        loc = lambda: ast.Call(load("locals"), [], [])
        return [ast.Assign([ast.Name(it, ast.Store())], self.rt("whead", loc(), ast.Constant(tuple(names)))),
                *[ast.Assign([ast.Name(x, ast.Store())], self.rt("st", load(it), ast.Constant(x))) for x in names],
                ast.While(self.rt("truth", n.test), n.body + [ast.Expr(self.rt("back", load(it), loc()))], n.orelse)]

    def visit_ListComp(self, n):
        g = n.generators[0]
        if len(n.generators) != 1 or not isinstance(g.target, ast.Name):
            raise EngineError("comprehension form")
        a = lambda: ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
        cond = ast.BoolOp(ast.And(), list(g.ifs)) if len(g.ifs) > 1 else g.ifs[0] if g.ifs else ast.Constant(True)
        return self.rt("comp", self.visit(g.iter), ast.Lambda(a(), self.visit(n.elt)), ast.Lambda(a(), self.visit(cond)))


def load(src):
    tree = LoopInstr("<prog>").visit(ast.parse(src))
    ast.fix_missing_locations(tree)
    ns = {"__name__": "vf_prog", PY.RT: Rt}
    exec(compile(tree, "<prog>", "exec"), ns)
    return ns


# ------------------------------------------------------------------ script side
class Rec:
    """a recursive function applied to itself, collecting the other arguments"""
    __slots__ = ("clo", "args", "params")

    def __init__(self, clo, args, params): self.clo, self.args, self.params = clo, args, params


def params(t):
    ps = []
    while t.k == U.L:
        ps.append(t.a)
        t = t.b
    return ps, t


def base(p):
    return re.sub(r"_\d+$", "", re.sub(r"^\d+", "", p))


class Machine(U.Machine):
    depth = 0

    def ev(self, t, env):
        self.depth += 1
        try:
            return self._ev(t, env)
        finally:
            self.depth -= 1

    def _ev(self, t, env):
        while True:
            k = t.k
            if k == 98:
                raise EngineError("a loop variable is used that has no value before the loop")
            if k not in (U.F, U.A):
                return U.Machine.ev(self, t, env)
            self.steps += 1
            if self.steps > self.max_steps:
                raise K.Incomplete("step limit")
            if k == U.F:
                f = self.ev(t.a, env)
                if isinstance(f, U.Dly):
                    t, env = f.t, f.env
                    continue
                if isinstance(f, U.PAp) and f.forces < U.FORCES.get(f.f, 0):
                    return U.PAp(f.f, f.forces + 1, f.args)
                raise Fail("force of non-delayed value")
            f = self.ev(t.a, env)
            x = self.ev(t.b, env)
            if isinstance(f, U.Clo):
                ps, _ = params(f.t)
                if x is f and len(ps) > 1:
                    return Rec(f, (x,), ps)
                env = dict(f.env)
                env[f.t.a] = x
                t = f.t.b
                continue
            if isinstance(f, Rec):
                args = f.args + (x,)
                if len(args) < len(f.params):
                    return Rec(f.clo, args, f.params)
                r = self.enter(f.clo, f.params, args)
                if r[0] == "value":
                    return r[1]
                env = dict(f.clo.env)
                env.update(zip(f.params, r[1]))
                t = params(f.clo.t)[1]
                continue
            if isinstance(f, U.PAp):
                return self.apply_builtin(f, x)
            raise Fail("application of a non-function")

    def apply(self, f, x):
        if isinstance(f, (Rec, U.Clo)):
            return self.ev(U.T(U.A, U.T(U.C, f), U.T(U.C, x)), {})
        return U.Machine.apply(self, f, x)

    def val(self, a):
        return self.ev(a.t, a.env) if isinstance(a, U.Dly) else a

    def body(self, clo, ps, args):
        env = dict(clo.env)
        env.update(zip(ps, args))
        return self.ev(params(clo.t)[1], env)

    def enter(self, clo, ps, args):
        if len(set(ps)) != len(ps):
            return "args", args
        ul = [i for i, a in enumerate(args) if isinstance(a, BL) and isinstance(a.tail, UT) and not a.pre]
        c = ctx()
        nxt = c.events[c.i] if c.i < len(c.events) else None
        if not ul:
            return self.wloop(clo, ps, args, nxt)
        two = len(ul) == 2 and len(ps) == 3
        app = nxt is not None and nxt.get("app")
        if len(ul) > 1 and not two:
            raise EngineError("recursion over several unknown lists")
        i = ul[0]
        l = args[i]
        for fr in reversed(c.active):
            if fr["clo"] is clo and fr["kind"] != "while" and l.tail.id == fr["t"].id:
                if fr["kind"] == "map":
                    for p, a, b in zip(ps, args, fr["args"]):
                        if p != ps[i] and a is not b:
                            raise EngineError(f"argument {p} of the recursion changes")
                    return "value", fr["rest"]
                if self.depth != fr["depth"]:
                    raise EngineError("recursive call that is not a tail call")
                if fr["ev"].get("ut2"):
                    if not two or fr["ev"].get("t2") is None or args[ul[1]].tail.id != fr["ev"]["t2"].id:
                        raise EngineError("second list of the recursion")
                    raise Stop("back", fr["ev"], {})
                for p, a, b in zip(ps, args, fr["args"]):
                    if p not in fr["map"] and p != ps[i] and a is not b:
                        raise EngineError(f"argument {p} of the loop changes")
                raise Stop("back", fr["ev"], {n: self.val(args[ps.index(p)]) for p, n in fr["map"].items() if n in fr["ev"]["gen"]})
        loop = nxt is not None and nxt["kind"] == "loop" and nxt["ut"].id == l.tail.id and l.tail.view == "native"
        if app and len(ps) == 3 and nxt["ut"].id == l.tail.id and l.tail.view == "native":
            return "value", self.maplike(clo, ps, args, l, nxt)
        if two:
            if not loop or not nxt.get("ut2") or args[ul[1]].tail.id != nxt["ut2"].id:
                raise EngineError("recursion over two unknown lists")
            c.i += 1
            if nxt["c"] == 0:
                raise Stop("head", nxt, {})
            new = list(args)
            y, z = nxt["y"], args[ul[1]]
            new[ul[1]] = BL((), UT(y.id, y.T, z.tail.view), z.kind, z.ety)
            new[i] = BL((), None, None, l.ety) if nxt["c"] == 1 else BL((nxt["h"][2],), UT(nxt["t"].id, nxt["t"].T, "native"), l.kind, l.ety)
            if nxt["c"] == 2:
                c.active.append(dict(kind="loop", clo=clo, t=nxt["t"], ev=nxt, depth=self.depth, map={}, args=new))
            return "args", tuple(new)
        if len(ps) == 2 and not loop:
            return "value", self.maplike(clo, ps, args, l, nxt)
        if nxt is None or nxt["kind"] != "loop":
            raise EngineError("the script has a loop where the program has none")
        c.i += 1
        if nxt["ut"].id != l.tail.id:
            raise EngineError("loop over a different list")
        mp = self.pair(ps, (0, i), nxt)
        if nxt["c"] == 0:
            raise Stop("head", nxt, {n: self.val(args[ps.index(p)]) for p, n in mp.items() if n in nxt["state"]})
        new = self.havoced(ps, args, mp, nxt)
        if nxt["c"] == 1:
            new[i] = BL((), None, None, l.ety)
        else:
            t = nxt["t"]
            new[i] = BL((nxt["h"][1] if l.tail.view == "data" else nxt["h"][2],), UT(t.id, t.T, l.tail.view), l.kind, l.ety)
            c.active.append(dict(kind="loop", clo=clo, t=t, ev=nxt, depth=self.depth, map=mp, args=new))
        return "args", tuple(new)

    def wloop(self, clo, ps, args, nxt):
        """a while loop: no list to recurse over, the coupling alone is preserved"""
        c = ctx()
        for fr in reversed(c.active):
            if fr["clo"] is clo and fr["kind"] == "while":
                if self.depth != fr["depth"]:
                    raise EngineError("recursive call that is not a tail call")
                for p, a, b in zip(ps, args, fr["args"]):
                    if p not in fr["map"] and a is not b:
                        raise EngineError(f"argument {p} of the loop changes")
                raise Stop("back", fr["ev"], {n: self.val(args[ps.index(p)]) for p, n in fr["map"].items() if n in fr["ev"]["gen"]})
        if nxt is None or nxt["kind"] != "while" or not {base(p) for p in ps} & nxt["names"]:
            return "args", args
        c.i += 1
        mp = self.pair(ps, (0,), nxt)
        if nxt["c"] == 0:
            raise Stop("head", nxt, {n: self.val(args[ps.index(p)]) for p, n in mp.items() if n in nxt["state"]})
        new = self.havoced(ps, args, mp, nxt)
        c.active.append(dict(kind="while", clo=clo, ev=nxt, depth=self.depth, map=mp, args=new))
        return "args", tuple(new)

    def havoced(self, ps, args, mp, ev):
        new = list(args)
        for p, n in mp.items():
            j = ps.index(p)
            if n not in ev["gen"]:
                new[j] = U.Dly(PT, {})
            else:
                v = lower(ev["gen"][n])
                new[j] = U.Dly(U.T(U.C, v), {}) if isinstance(args[j], U.Dly) else v
        return new

    def pair(self, ps, skip, nxt):
        mp, rest = {}, []
        for j, p in enumerate(ps):
            if j in skip:
                continue
            b = base(p)
            if b in nxt["names"] and b not in mp.values():
                mp[p] = b
            else:
                rest.append(p)
        left = [n for n in nxt["state"] if n not in mp.values()]
        if len(left) == 1 and len(rest) == 1:
            mp[rest.pop()] = left.pop()
        if left:
            raise EngineError(f"loop variables {left} have no counterpart in the script")
        return mp

    def maplike(self, clo, ps, args, l, nxt):
        """non-tail recursion over one list: a comprehension, or the conversion of the elements"""
        c = ctx()
        comp = nxt is not None and nxt["kind"] == "comp" and nxt["ut"].id == l.tail.id and l.tail.view == "native"
        if comp:
            c.i += 1
            ch, h, t, R = nxt["c"], nxt["h"], nxt["t"], nxt["R"]
            res = BL((), UT(R.id, R.T, "native"), None, ety(R.T, "native"))
        else:
            ch = K.choose(3)
            fl = "native" if l.tail.view == "data" else "data"
            h, t = (element(l.tail.T), UT(K.P.fresh_name("t"), l.tail.T, None)) if ch == 2 else (None, None)
            R = t
            res = BL((), UT((t or l.tail).id, l.tail.T, fl), None, ety(l.tail.T, fl))
        if ch == 0:
            return res if comp else BL((), UT(l.tail.id, l.tail.T, fl), None, ety(l.tail.T, fl))
        new = list(args)
        i = args.index(l)
        if ch == 1:
            new[i] = BL((), None, None, l.ety)
        else:
            new[i] = BL((h[1] if l.tail.view == "data" else h[2],), UT(t.id, t.T, l.tail.view), l.kind, l.ety)
            c.active.append(dict(kind="map", clo=clo, t=t, rest=res, args=new))
        r = self.body(clo, ps, new)
        if comp:
            raise Stop("comp", nxt, r)
        want = BL(()) if ch == 1 else BL((h[2] if fl == "native" else h[1],), res.tail)
        raise Stop("convert", r, want)


def ety(T, view):
    if T is None:
        return None
    return {"int": "int", "bytes": "bytes", "bool": "bool"}.get(T, "data") if view == "native" else "data"


def lower(v):
    """machine value of a Python value"""
    if is_int(v) or is_bool(v) or is_bytes(v) or is_text(v):
        return v
    return abi.to_data(v)


def eq(a, b):
    """equality of machine values (unknown tails by identity)"""
    if isinstance(a, DL) and isinstance(b, DL):
        return eq(a.v, b.v)
    if isinstance(a, BL) and isinstance(b, BL):
        if len(a.pre) != len(b.pre) or (a.tail is None) != (b.tail is None):
            return False
        if a.tail is not None and (not isinstance(a.tail, UT) or not isinstance(b.tail, UT) or a.tail.id != b.tail.id or (a.tail.view != b.tail.view and a.tail.view and b.tail.view)):
            return False
        return b_and(*[eq(x, y) for x, y in zip(a.pre, b.pre)])
    if is_int(a) and is_int(b):
        return i_eq(a, b)
    if is_bool(a) and is_bool(b):
        return b_iff(a, b)
    if (is_bytes(a) and is_bytes(b)) or (is_text(a) and is_text(b)):
        return s_eq(a, b)
    if is_data(a) and is_data(b):
        return data_eq(a, b)
    return False


def outcome(r):
    if isinstance(r, UList):
        return DL(BL(tuple(abi.to_data(x) for x in r.pre), UT(r.ut.id, r.ut.T, "data")))
    return abi.to_data(r)


def verify(prog, tier, seed, pysrc=None):
    res = Result(prog.name)
    K.STATS.__init__()
    t1 = time.time()
    for cfg in prog.cfgs:
        try:
            term = U.convert(compile_src(prog.src, cfg))
        except CompileRejected as e:
            res.undecided.append((f"{prog.name}@{cfg}", f"rejected: {e}"))
            continue
        ns = load(pysrc or prog.src)
        f = ns["validator"]
        types = prog.param_types(ns)

        def body():
            K.P.notes["ind"] = c = Ctx(abi.Gen(**prog.gen))
            ins = []
            for T, n in zip(types, f.__code__.co_varnames):
                if isinstance(T, tuple) and T[0] == "List" and (T[1] in ("int", "bytes", "bool") or T[1][0] == "Rec"):
                    u = UT(K.P.fresh_name(n), T[1], "data")
                    ins.append((UList([], u), DL(BL((), u, KData, "data"))))
                else:
                    ins.append(c.G.gen(T, n))
            try:
                a = ("ok", outcome(f(*[v for v, _ in ins])))
            except Stop as s:
                a = (s.kind, *s.a)
            except PY.PY_FAILS as e:
                a = ("fail", f"{type(e).__name__}: {e}")
            m = Machine(None, prog.max_steps)
            try:
                g = m.ev(term, {})
                for _, d in ins:
                    g = m.apply(g, d)
                b = ("ok", g)
            except Stop as s:
                b = (s.kind, *s.a)
            except Fail as e:
                b = ("fail", str(e))
            if b[0] == "convert":
                return "element conversion", *K.check_valid(eq(b[1], b[2]), 10000)[::2], a, b
            goal = a[0] == b[0]
            what = a[0]
            if not goal:
                pass
            elif a[0] == "fail":
                pass
            elif a[0] == "ok":
                goal = eq(a[1], b[1])
            elif a[1] is not b[1]:
                goal = False
            elif a[0] in ("head", "back"):
                goal = set(a[2]) == set(b[2]) and b_and(*[eq(lower(v), b[2][n]) for n, v in a[2].items()])
            elif a[0] == "comp":
                R = a[3]
                goal = eq(BL(tuple(lower(v) for v in a[2]), R and UT(R.id, R.T, "native")), b[2])
            return what, *K.check_valid(goal, 10000)[::2], a, b
        try:
            results, complete, why = K.explore(body, max_paths=prog.max_paths, time_limit=prog.time_limit)
        except EngineError as e:
            results, complete, why = [], False, f"engine: {e}"
        except RecursionError:
            results, complete, why = [], False, "recursion limit"
        obs = [(f"{prog.name}@{cfg}/{r[0]} {j}", r[1], r[2]) for j, (_, r) in enumerate(results)]
        bad = [o for o in obs if o[1] != "valid"]
        if not complete or bad:
            res.undecided.append((f"{prog.name}@{cfg}", why or f"not discharged: {bad[0][0]} ({bad[0][1]})"))
            if os.environ.get("VF_DEBUG"):
                for j, (_, r) in enumerate(results):
                    if r[1] != "valid":
                        print("   ", prog.name, cfg, r)
                print("   ", prog.name, cfg, why)
            continue   # nothing is claimed for lists of every length
        res.obl += [(n, s, be, False) for n, s, be in obs]
    res.paths, res.solver_s, res.queries, res.backends = K.STATS.paths, K.STATS.solver_s, K.STATS.queries, K.STATS.backends
    res.wall = time.time() - t1
    res.touched = sorted(TOUCHED)
    return res
