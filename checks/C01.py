"""C01 integer and boolean operators."""
from .common import *

META = dict(level="proof", explanation="Every accepted operator/operand-type combination of int and bool is compiled by the real compiler at several "
            "optimisation levels; the obligation is that the emitted script equals Python's operator for all operand values. Everything except "
            "power (exponent <= 5, bounded) is discharged without any bound on the operands.")

SMALL = list(range(-4, 20))
ARITH = ["+", "-", "*", "//", "%"]
CMP = ["<", "<=", ">", ">=", "==", "!="]


def progs(tier):
    ps = []
    cf = ["O0", "O1", "O2", "O3"]
    for op in ARITH:
        ps.append(P(f"int {op} int", "x: int, y: int", "int", f"x {op} y", cfgs=cf))
        for c in (0, 1, -1, 2, 3, -3, 7, 16, 255, 256, -256):
            if not (c == 0 and op in ("//", "%")):
                ps.append(P(f"int {op} {c}", "x: int", "int", f"x {op} ({c})"))
            ps.append(P(f"{c} {op} int", "x: int", "int", f"({c}) {op} x"))
        ps.append(P(f"aug {op}=", "x: int, y: int", "int", f"x {op}= y\nreturn x"))
        ps.append(P(f"nested {op}", "x: int, y: int, z: int", "int", f"(x {op} y) {op} z", time_limit=40))
        ps.append(P(f"nested right {op}", "x: int, y: int, z: int", "int", f"x {op} (y {op} z)", time_limit=40))
        ps.append(P(f"self {op}", "x: int", "int", f"x {op} x"))
        for a, b in [(7, 2), (-7, 2), (7, -2), (-7, -2), (0, 5), (1, -1), (-1, 2 ** 70), (2 ** 70, -3)]:
            ps.append(P(f"const {a} {op} {b}", "x: int", "int", f"x * 0 + (({a}) {op} ({b}))"))
    for op in ("+", "-"):
        ps.append(P(f"int {op} bool", "x: int, y: bool", "int", f"x {op} y", cfgs=cf))
        ps.append(P(f"int {op} cmp", "x: int, y: int", "int", f"x {op} (x < y)"))
    for op in CMP:
        ps.append(P(f"int {op} int", "x: int, y: int", "bool", f"x {op} y", cfgs=cf))
        ps.append(P(f"if int {op} int", "x: int, y: int", "int", f"return 1 if x {op} y else 2"))
        ps.append(P(f"not int {op} int", "x: int, y: int", "bool", f"not (x {op} y)"))
        for c in (0, 1, -1, 10):
            ps.append(P(f"int {op} {c}", "x: int", "bool", f"x {op} ({c})"))
            ps.append(P(f"{c} {op} int", "x: int", "bool", f"({c}) {op} x"))
        for op2 in CMP:
            ps.append(P(f"chain {op} {op2}", "x: int, y: int, z: int", "bool", f"x {op} y {op2} z"))
        ps.append(P(f"chain4 {op}", "a: int, b: int, c: int, d: int", "bool", f"a {op} b {op} c {op} d"))
    for op in ("<", ">", "==", "!="):
        ps.append(P(f"bool {op} bool", "x: bool, y: bool", "bool", f"x {op} y", cfgs=cf))
        ps.append(P(f"bool {op} cmp", "x: bool, y: int", "bool", f"x {op} (y > 3)"))
    for c in ("True", "False"):
        for op in ("<", ">", "==", "!="):
            ps.append(P(f"bool {op} {c}", "x: bool", "bool", f"x {op} {c}"))
            ps.append(P(f"{c} {op} bool", "x: bool", "bool", f"{c} {op} x"))
    ps.append(P("int == bool", "x: int, y: bool", "bool", "x == y", cfgs=cf))
    ps.append(P("bool == int", "x: bool, y: int", "bool", "x == y", cfgs=cf))
    ps.append(P("bool != int", "x: bool, y: int", "bool", "x != y", cfgs=cf))
    for u in ("-", "+", "not ", "--", "-+", "not not "):
        ps.append(P(f"{u}int", "x: int", "bool" if "not" in u else "int", f"{u}x", cfgs=cf))
    ps.append(P("not bool", "x: bool", "bool", "not x", cfgs=cf))
    ps.append(P("-int * int", "x: int, y: int", "int", "-x * y"))
    ps.append(P("-(int - int)", "x: int, y: int", "int", "-(x - y)"))
    ps.append(P("-int // int", "x: int, y: int", "int", "-x // y"))
    ps.append(P("-(int // int)", "x: int, y: int", "int", "-(x // y)"))
    ps.append(P("-int % int", "x: int, y: int", "int", "-x % y"))
    for op in ("and", "or"):
        ps.append(P(f"bool {op} bool", "x: bool, y: bool", "bool", f"x {op} y", cfgs=cf))
        ps.append(P(f"bool3 {op}", "x: bool, y: bool, z: bool", "bool", f"x {op} y {op} z", cfgs=cf))
        ps.append(P(f"bool4 {op}", "x: bool, y: bool, z: bool, w: bool", "bool", f"x {op} y {op} z {op} w"))
        ps.append(P(f"truth int {op} int", "x: int, y: int", "int", f"return 1 if (x {op} y) else 2", cfgs=cf))
        ps.append(P(f"short circuit {op}", "x: int, y: int", "bool", f"(x == 0) {op} (y // x > 1)", cfgs=cf))
        ps.append(P(f"short circuit not {op}", "x: int, y: int", "bool", f"(x != 0) {op} (y // x > 1)", cfgs=cf))
        ps.append(P(f"{op} not", "x: bool, y: bool", "bool", f"not x {op} not y"))
    ps.append(P("mixed and/or", "a: bool, b: bool, c: bool, d: bool", "bool", "a and b or c and not d", cfgs=cf))
    ps.append(P("mixed or/and", "a: bool, b: bool, c: bool, d: bool", "bool", "(a or b) and (c or not d)", cfgs=cf))
    ps.append(P("short circuit nested", "x: int, y: int, z: int", "bool", "(x == 0 or y // x > z) and (z != 0 and y % z == 1)", cfgs=cf))
    ps.append(P("ternary int", "c: bool, x: int, y: int", "int", "x if c else y", cfgs=cf))
    ps.append(P("ternary lazy", "x: int, y: int", "int", "y // x if x != 0 else y % (y - 1)", cfgs=cf))
    ps.append(P("ternary int cond", "c: int, x: int, y: int", "int", "x if c else y"))
    ps.append(P("ternary nested", "a: bool, b: bool, x: int, y: int", "int", "(x if b else y) if a else (y if b else x + y)"))
    ps.append(P("divmod identity", "x: int, y: int", "bool", "(x // y) * y + x % y == x", cfgs=cf))
    ps.append(P("poly", "x: int, y: int", "int", "(x + y) * (x - y) - x * x + 3 * y"))
    ps.append(P("precedence", "x: int, y: int, z: int", "int", "x + y * z - x % 7 // 2 * -z"))
    ps.append(P("bool sum", "x: bool, y: bool", "int", "0 + x + y"))
    ps.append(P("cmp of arith", "x: int, y: int", "bool", "x + 1 > y * 2 - 3"))
    # power: exponent bounded
    ps.append(P("int ** int", "x: int, y: int", "int", "x ** y", cfgs=["O0", "O2"], bound=dict(rep=6), concrete=40, ints=SMALL))
    for c in (0, 1, 2, 3, 5, 8):
        ps.append(P(f"int ** {c}", "x: int", "int", f"x ** {c}"))
    ps.append(P("int ** -1", "x: int", "int", "x ** (-1)", native_ok=False))
    for c in (0, 1, 2, -2, 10):
        ps.append(P(f"{c} ** int", "y: int", "int", f"({c}) ** y", bound=dict(rep=10), ints=SMALL, pre=lambda y: y >= 0))
    ps.append(P("aug **=", "x: int, y: int", "int", "x **= y\nreturn x", ints=SMALL, pre=lambda x, y: y >= 0))
    ps.append(P("-int ** int", "x: int, y: int", "int", "-x ** y", ints=SMALL, pre=lambda x, y: y >= 0))
    return ps


def tasks(tier, seed):
    return prog_tasks(progs(tier), tier, seed)
