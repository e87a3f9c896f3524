"""C13 intervals: contracts of ledger/interval.py over all bounds, the order laws as lemmas, and the compiled scripts against them."""
from .common import *
from vf.kernel import fresh_int
from vf.vals import *

META = dict(level="proof", explanation="Each function of ledger/interval.py carries a postcondition (the lexicographic order of (limit, closure) that a bound stands for; containment as inclusion in that order and as inclusion of the sets of time points; "
            "the exact range built); proved for the Python function on arbitrary bounds with unbounded times, the laws of a total order as lemmas over those functions, and the compiled script is proved to agree on every path. No bound on any input.",
            assumptions=["the set reading of an interval is over dense time (as the closed flags suggest); on integer time points the order refines it"])
H = "from typing import Dict, List, Union\nfrom opshin.ledger.interval import *\n"
PROGS = []
UB, LB, R = "UpperBoundPOSIXTime", "LowerBoundPOSIXTime", "POSIXTimeRange"


def p(name, sig, ret, body, **kw):
    kw.setdefault("cfgs", ["O0", "O2"])
    PROGS.append(P(name, sig, ret, body, H, **kw))


def rank(e):
    return {"NegInfPOSIXTime": -1, "FinitePOSIXTime": 0, "PosInfPOSIXTime": 1}[type(e).__name__]


def closed(x):
    return type(x.closed).__name__ == "TrueData"


def lim(a, b):
    """(a < b, a == b) of two extended times"""
    x, y = rank(a), rank(b)
    if x == 0 and y == 0:
        return i_lt(a.time, b.time), i_eq(a.time, b.time)
    return x < y, x == y


def res(lt, eq, r):
    return i_eq(r, i_ite(lt, 1, i_ite(eq, 0, -1)))


def upper(a, b):
    lt, eq = lim(a.limit, b.limit)
    x, y = closed(a), closed(b)
    return b_or(lt, b_and(eq, not x and y)), b_and(eq, x == y)


def lower(a, b):
    lt, eq = lim(a.limit, b.limit)
    x, y = closed(a), closed(b)
    return b_or(lt, b_and(eq, x and not y)), b_and(eq, x == y)


def in_upper(t, u):
    k = rank(u.limit)
    return k > 0 if k else (i_le(t, u.limit.time) if closed(u) else i_lt(t, u.limit.time))


def in_lower(t, u):
    k = rank(u.limit)
    return k < 0 if k else (i_le(u.limit.time, t) if closed(u) else i_lt(u.limit.time, t))


def imp(a, b):
    return b_or(b_not(a), b)


def ge0(x):
    return b_or(*x)


def upper_post(a, b, r):
    t = fresh_int("t")
    return b_and(res(*upper(a, b), r), imp(i_le(0, r), imp(in_upper(t, a), in_upper(t, b))), imp(i_le(r, 0), imp(in_upper(t, b), in_upper(t, a))))


def lower_post(a, b, r):
    t = fresh_int("t")
    return b_and(res(*lower(a, b), r), imp(i_le(0, r), imp(in_lower(t, b), in_lower(t, a))), imp(i_le(r, 0), imp(in_lower(t, a), in_lower(t, b))))


def contains_post(a, b, r):
    t = fresh_int("t")
    inside = lambda t, x: b_and(in_lower(t, x.lower_bound), in_upper(t, x.upper_bound))
    return b_and(b_iff(r, b_and(ge0(lower(a.lower_bound, b.lower_bound)), ge0(upper(b.upper_bound, a.upper_bound)))), imp(b_and(r, inside(t, b)), inside(t, a)))


def is_range(r, lo, hi):
    def bound(b, v, inf):
        if v is None:
            return b_and(type(b.limit).__name__ == inf, closed(b))
        return b_and(rank(b.limit) == 0, closed(b), i_eq(b.limit.time, v) if rank(b.limit) == 0 else False)
    return b_and(bound(r.lower_bound, lo, "NegInfPOSIXTime"), bound(r.upper_bound, hi, "PosInfPOSIXTime"))


def build():
    p("compare", "a: int, b: int", "int", "compare(a, b)", post=lambda a, b, r: res(i_lt(a, b), i_eq(a, b), r))
    p("compare_extended_helper", "a: ExtendedPOSIXTime", "int", "compare_extended_helper(a)", post=lambda a, r: i_eq(r, rank(a)))
    p("compare_extended", "a: ExtendedPOSIXTime, b: ExtendedPOSIXTime", "int", "compare_extended(a, b)", post=lambda a, b, r: res(*lim(a, b), r))
    p("get_bool", "a: BoolData", "bool", "get_bool(a)", post=lambda a, r: b_iff(r, type(a).__name__ == "TrueData"))
    p("compare_upper_bound", f"a: {UB}, b: {UB}", "int", "compare_upper_bound(a, b)", post=upper_post, cfgs=["O0", "O2", "DEF"])
    p("compare_lower_bound", f"a: {LB}, b: {LB}", "int", "compare_lower_bound(a, b)", post=lower_post, cfgs=["O0", "O2", "DEF"])
    p("contains", f"a: {R}, b: {R}", "bool", "contains(a, b)", post=contains_post, cfgs=["O2"], max_paths=2000, time_limit=60)
    p("make_range", "a: int, b: int", R, "make_range(a, b)", post=lambda a, b, r: is_range(r, a, b))
    p("make_from", "a: int", R, "make_from(a)", post=lambda a, r: is_range(r, a, None))
    p("make_to", "a: int", R, "make_to(a)", post=lambda a, r: is_range(r, None, a))
    for k, T in (("upper", UB), ("lower", LB)):
        f = f"compare_{k}_bound"
        true = lambda *a: b_iff(a[-1], True)
        p(f"{k}: reflexive", f"a: {T}", "bool", f"{f}(a, a) == 0", post=true)
        p(f"{k}: antisymmetric, total", f"a: {T}, b: {T}", "bool", f"x = {f}(a, b)\ny = {f}(b, a)\nreturn x == -y and (x == 0) == (a == b)", post=true)
        # contract level: transitivity of the specified order
        p(f"{k}: transitive", f"a: {T}, b: {T}, c: {T}", "bool", f"x = {f}(a, b)\ny = {f}(b, c)\nz = {f}(a, c)\nreturn not (x >= 0 and y >= 0) or (z >= 0 and (z == 0) == (x == 0 and y == 0))",
          post=true, cfgs=["O2"], max_paths=2000, time_limit=60)
    p("contains: a point", "a: int, b: int, t: int", "bool", "contains(make_range(a, b), make_range(t, t))", post=lambda a, b, t, r: b_iff(r, b_and(i_le(a, t), i_le(t, b))))
    p("contains: from", "a: int, t: int, u: int", "bool", "contains(make_from(a), make_range(t, u))", post=lambda a, t, u, r: b_iff(r, i_le(a, t)))
    p("contains: to", "a: int, t: int, u: int", "bool", "contains(make_to(a), make_range(t, u))", post=lambda a, t, u, r: b_iff(r, i_le(u, a)))
    p("contains: reflexive", f"a: {R}", "bool", "contains(a, a)", post=lambda a, r: b_iff(r, True))


def progs(tier):
    if not PROGS:
        build()
    return PROGS


def tasks(tier, seed):
    return prog_tasks(progs(tier), tier, seed)
