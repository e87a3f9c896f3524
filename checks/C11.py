"""C11 fractions: every function of std/fractions under a rational-arithmetic contract, and the compiled scripts against it."""
from .common import *
from vf.vals import b_and, b_or, b_not, i_ite, fdiv, fmod
from vf import kernel as K

META = dict(level="proof", explanation="Each function and operator of std/fractions.py is executed symbolically on fractions with arbitrary (unbounded) numerator and non-zero denominator; "
            "its postcondition states the exact rational result (cross-multiplied), and the script compiled from a call to it is proved to return the same data on every path.",
            assumptions=["termination of gcd is not proved"])

H = "from typing import Dict, List, Union\nfrom opshin.std.fractions import *\n"
PROGS = []


def p(name, sig, ret, body, **kw):
    kw.setdefault("cfgs", ["O0", "O2"])
    PROGS.append(P(name, sig, ret, body, H, **kw))


def nz(*fs):
    return b_and(*[f.denominator != 0 for f in fs])


def sgn(x):
    return i_ite(x < 0, -1, i_ite(x == 0, 0, 1)) if not isinstance(x, int) else (x > 0) - (x < 0)


def rat(x):
    """(numerator, positive denominator)"""
    if hasattr(x, "denominator") and hasattr(x, "CONSTR_ID"):
        if K.truth(x.denominator < 0):
            return -x.numerator, -x.denominator
        return x.numerator, x.denominator
    return x, 1


def same(r, n, d):
    """r is the rational n/d (d != 0)"""
    return b_and(r.denominator != 0, r.numerator * d == n * r.denominator)


def build():
    for T in ("Fraction", "int"):
        pre = (lambda a, b: nz(a, b)) if T == "Fraction" else (lambda a, b: nz(a))
        rpre = lambda b, a: nz(a)
        N = lambda x: x.numerator if hasattr(x, "CONSTR_ID") else x
        D = lambda x: x.denominator if hasattr(x, "CONSTR_ID") else 1
        ops = {"+": lambda a, b, r: same(r, N(a) * D(b) + N(b) * D(a), D(a) * D(b)),
               "-": lambda a, b, r: same(r, N(a) * D(b) - N(b) * D(a), D(a) * D(b)),
               "*": lambda a, b, r: same(r, N(a) * N(b), D(a) * D(b))}
        for o, post in ops.items():
            p(f"a {o} b ({T})", f"a: Fraction, b: {T}", "Fraction", f"a {o} b", pre=pre, post=post)
            if T == "int":
                p(f"b {o} a (int first)", f"b: int, a: Fraction", "Fraction", f"b {o} a", pre=rpre, post=lambda b, a, r, post=post: post(b, a, r))
        div = lambda a, b, r: same(r, N(a) * D(b), D(a) * N(b))
        p(f"a / b ({T})", f"a: Fraction, b: {T}", "Fraction", "a / b", pre=lambda a, b, pre=pre, N=N: b_and(pre(a, b), N(b) != 0), post=div)
        if T == "int":
            p("b / a (int first)", "b: int, a: Fraction", "Fraction", "b / a", pre=lambda b, a: b_and(nz(a), a.numerator != 0), post=div)
        # floor division: q <= x < q + 1 with x = a / b
        def fl(a, b, r):
            n, d = rat(a)
            m, e = rat(b)
            if K.truth(m < 0):
                n, m = -n, -m
            x, y = n * e, d * m
            return b_and(y > 0, r * y <= x, x < (r + 1) * y)
        p(f"a // b ({T})", f"a: Fraction, b: {T}", "int", "a // b", pre=pre, post=fl, fails=lambda a, b: N(b) == 0)
        if T == "int":
            p("b // a (int first)", "b: int, a: Fraction", "int", "b // a", pre=rpre, post=fl, fails=lambda b, a: a.numerator == 0)
        for o in ("<", "<=", ">", ">=", "=="):
            def cmp(a, b, r, o=o):
                (n, d), (m, e) = rat(a), rat(b)
                x, y = n * e, m * d
                w = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y}[o]
                return w == r
            p(f"a {o} b ({T})", f"a: Fraction, b: {T}", "bool", f"a {o} b", pre=pre, post=cmp)
    p("negation", "a: Fraction", "Fraction", "-a", pre=nz, post=lambda a, r: same(r, -a.numerator, a.denominator))
    for f in ("a.floor()", "floor_fraction(a)"):
        def post(a, r):
            n, d = rat(a)
            return b_and(r * d <= n, n < (r + 1) * d)
        p(f, "a: Fraction", "int", f, pre=nz, post=post)
    for f in ("a.ceil()", "ceil_fraction(a)"):
        def post(a, r):
            n, d = rat(a)
            return b_and((r - 1) * d < n, n <= r * d)
        p(f, "a: Fraction", "int", f, pre=nz, post=post)
    for f in ("a.norm()", "norm_fraction(a)"):
        # concrete small coprimality: no common divisor 2..9 (numerators and denominators up to 9)
        def post(a, r):
            co = b_and(*[b_or(r.numerator % k != 0, r.denominator % k != 0) for k in (2, 3, 5, 7)])
            return b_and(same(r, a.numerator, a.denominator), r.denominator > 0, co)
        p(f, "a: Fraction", "Fraction", f, pre=lambda a: b_and(nz(a), a.numerator >= -9, a.numerator <= 9, a.denominator >= -9, a.denominator <= 9), post=post, bounded="numerator and denominator within -9..9")
    for e in range(-3, 5):
        def post(a, r, e=e):
            n, d = (a.numerator, a.denominator) if e >= 0 else (a.denominator, a.numerator)
            x = y = 1
            for _ in range(abs(e)):
                x, y = x * n, y * d
            return same(r, x, y)
        pre = nz if e >= 0 else (lambda a: b_and(nz(a), a.numerator != 0))
        p(f"a ** {e}", "a: Fraction", "Fraction", f"a ** {e}" if e >= 0 else f"a ** ({e})", pre=pre, post=post)


def progs(tier):
    if not PROGS:
        build()
    return PROGS


def tasks(tier, seed):
    return prog_tasks(progs(tier), tier, seed)
