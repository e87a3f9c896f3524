"""C12 math and bitmap: documented meaning as postconditions of the library functions, and the compiled scripts against them."""
from .common import *
from vf import kernel as K
from vf.vals import *
from vf.uplcsem import bit, bvec

META = dict(level="translation_validation", explanation="Each function of std/math.py and std/bitmap.py carries a postcondition written from its documentation (exact integer arithmetic and exact bits); it is proved for the function executed "
            "through the real builtin bridge on symbolic arguments, and the script compiled from a call is proved to agree on every path.",
            assumptions=["termination of gcd is not proved"])
HM = "from typing import Dict, List, Union\nfrom opshin.std.math import *\n"
HB = "from typing import Dict, List, Union\nfrom opshin.std.bitmap import *\n"
PROGS = []


def p(name, sig, ret, body, hdr, **kw):
    kw.setdefault("cfgs", ["O0", "O2"])
    kw.setdefault("gen", dict(bytes_len=2, list_len=2))
    PROGS.append(P(name, sig, ret, body, hdr, **kw))


def by(x):
    return bvec(x) if not isinstance(x, bytes) else tuple(x)


def num(v):
    r = 0
    for e in v:
        r = r * 256 + e
    return r


def at(b, i):
    """documented numbering: bit 0 is the last bit of the last byte"""
    v = by(b)
    n = len(v)
    i = concretize(i, 0, 8 * n - 1)
    return 0 if i is None else bit(v[n - 1 - i // 8], i % 8)


def bits(b):
    v = by(b)
    n = len(v)
    return [bit(v[n - 1 - i // 8], i % 8) for i in range(8 * n)]


def oob(b, i):
    n = len(by(b)) * 8
    return b_or(i < 0, i >= n)


def ite(c, x, y):
    return b_and(b_or(b_not(c), x), b_or(c, y))


def upd(b, idx, val, r):
    """r is b with the bits at idx set to val"""
    x, y = bits(b), bits(r)
    idx = [concretize(j, 0, len(x) - 1) for j in idx]
    if None in idx:
        return True
    if len(x) != len(y):
        return False
    want = []
    for i, e in enumerate(x):
        hit = b_or(*[i_eq(j, i) for j in idx])
        want.append(i_eq(y[i], i_ite(hit, val, e)))
    return b_and(*want)


def lst(l):
    return list(l.pre) if isinstance(l, BL) else list(l)


def build():

    def gcd(a, b, r):
        # greatest: no larger common divisor among the candidates (within the bound)
        d = lambda x, k: i_eq(fmod(x, k), 0)
        return b_and(r >= 0, b_or(b_and(i_eq(a, 0), i_eq(b, 0), i_eq(r, 0)), b_and(r > 0, *[b_and(b_or(b_not(b_and(d(a, k), d(b, k))), r >= k), b_or(b_not(i_eq(r, k)), b_and(d(a, k), d(b, k)))) for k in range(1, 13)])))
    p("gcd", "a: int, b: int", "int", "gcd(a, b)", HM, types=[("Lit", list(range(-12, 13))), ("Lit", list(range(-12, 13)))], max_paths=1000, post=gcd, bounded="arguments within -12..12", time_limit=60)
    p("sign", "a: int", "int", "sign(a)", HM, post=lambda a, r: i_eq(r, i_ite(a < 0, -1, i_ite(i_eq(a, 0), 0, 1))))

    def ceil(a, b, r):
        return ite(b > 0, b_and((r - 1) * b < a, a <= r * b), b_and((r - 1) * b > a, a >= r * b))

    def floor(a, b, r):
        return ite(b > 0, b_and(r * b <= a, a < (r + 1) * b), b_and(r * b >= a, a > (r + 1) * b))
    z = lambda a, b: i_eq(b, 0)
    p("ceil", "a: int, b: int", "int", "r: int = ceil(a, b)\nreturn r", HM, post=ceil, fails=z)
    p("floor", "a: int, b: int", "int", "r: int = floor(a, b)\nreturn r", HM, post=floor, fails=z)
    for n in range(5):
        p(f"from bytes, {n} bytes", "b: bytes", "int", "unsigned_int_from_bytes_big(b)", HM, gen=dict(bytes_len=n), post=lambda b, r: i_eq(r, num(by(b))))
    p("from bytes, any length", "b: bytes", "int", "unsigned_int_from_bytes_big(b)", HM, gen=dict(bytes_len="seq"))

    def minimal(b, r):
        v = by(r)
        return b_and(i_eq(num(v), b), True if not v else v[0] > 0)
    p("to bytes", "b: int", "bytes", "bytes_big_from_unsigned_int(b)", HM, pre=lambda b: b < 2 ** 24, post=minimal, fails=lambda b: b < 0, bounded="integers below 2^24",
      ints=[0, 1, 127, 128, 255, 256, 65535, 65536, -1, 2 ** 24 - 1])
    p("from bytes of to bytes", "b: int", "int", "unsigned_int_from_bytes_big(bytes_big_from_unsigned_int(b))", HM, pre=lambda b: b < 2 ** 24, post=lambda b, r: i_eq(r, b), fails=lambda b: b < 0, bounded="integers below 2^24",
      ints=[0, 1, 127, 128, 255, 256, 65535, 65536, -1])

    def conj(a, b, r):
        x, y, z = by(a), by(b), by(r)
        n = max(len(x), len(y))
        if len(z) != n:
            return False
        x, y = x + (255,) * (n - len(x)), y + (255,) * (n - len(y))
        return b_and(*[b_iff(i_eq(bit(z[i], k), 1), b_and(i_eq(bit(x[i], k), 1), i_eq(bit(y[i], k), 1))) for i in range(n) for k in range(8)])
    p("and_bytestring", "a: bytes, b: bytes", "bytes", "and_bytestring(a, b)", HM, post=conj, gen=dict(bytes_len=3))
    p("and_bytestring any length", "a: bytes, b: bytes", "bytes", "and_bytestring(a, b)", HM, gen=dict(bytes_len="seq"))

    # ---- bitmaps
    def init(n, r):
        v = by(r)
        return b_and(i_lt(n, 8 * len(v) + 1), i_lt(8 * len(v) - 8, n), *[i_eq(e, 0) for e in v])
    for k in range(4):
        p(f"init_bitmap, {k} bytes", "n: int", "BitMap", "init_bitmap(n)", HB, pre=lambda n, k=k: b_and(n <= 8 * k, n > 8 * k - 8), post=init, ints=list(range(-8, 33)), types=["int"])
    p("init_bitmap any", "n: int", "BitMap", "init_bitmap(n)", HB, ints=[0, 1, 7, 8, 9, 16, 17, -1, -8, -9, 65536, 65537, 65544], post=None)
    p("test_bitmap", "b: BitMap, i: int", "bool", "test_bitmap(b, i)", HB, post=lambda b, i, r: b_iff(r, i_eq(at(b, i), 1)), fails=oob)
    for f, v in (("set", 1), ("reset", 0)):
        p(f + "_bitmap", "b: BitMap, l: List[int]", "BitMap", f"{f}_bitmap(b, l)", HB, post=lambda b, l, r, v=v: upd(b, lst(l), v, r), fails=lambda b, l: b_or(*[oob(b, j) for j in lst(l)]),
          gen=dict(bytes_len=2, list_len=2), time_limit=60)
        p(f + "_bitmap two bytes", "b: BitMap, i: int", "BitMap", f"{f}_bitmap(b, [i])", HB, post=lambda b, i, r, v=v: upd(b, [i], v, r), fails=oob, gen=dict(bytes_len=2), time_limit=40)
        p(f + "_bitmap any length", "b: BitMap, l: List[int]", "BitMap", f"{f}_bitmap(b, l)", HB, gen=dict(bytes_len="seq", list_len=3))
        p(f"test after {f}", "b: BitMap, i: int, j: int", "bool", f"test_bitmap({f}_bitmap(b, [i]), j)", HB, gen=dict(bytes_len=1), time_limit=40,
          post=lambda b, i, j, r, v=v: b_iff(r, b_or(b_and(i_eq(i, j), bool(v)), b_and(i != j, i_eq(at(b, j), 1)))), fails=lambda b, i, j: b_or(oob(b, i), oob(b, j)))
    p("flip_bitmap", "b: BitMap, i: int", "BitMap", "flip_bitmap(b, i)", HB, post=lambda b, i, r: upd(b, [i], 1 - at(b, i), r), fails=oob, gen=dict(bytes_len=2), time_limit=60)
    p("flip_bitmap any length", "b: BitMap, i: int", "BitMap", "flip_bitmap(b, i)", HB, gen=dict(bytes_len="seq"))
    p("size_bitmap", "b: BitMap", "int", "size_bitmap(b)", HB, post=lambda b, r: i_eq(r, 8 * s_len(b)), gen=dict(bytes_len="seq"))
    some = lambda b: b_or(*[i_eq(e, 1) for e in bits(b)])
    p("any_bitmap", "b: BitMap", "bool", "any_bitmap(b)", HB, post=lambda b, r: b_iff(r, some(b)))
    p("none_bitmap", "b: BitMap", "bool", "none_bitmap(b)", HB, post=lambda b, r: b_iff(r, b_not(some(b))))
    p("all_bitmap", "b: BitMap", "bool", "all_bitmap(b)", HB, post=lambda b, r: b_iff(r, b_and(*[i_eq(e, 1) for e in bits(b)])))
    for f in ("any", "none", "all"):
        p(f + "_bitmap any length", "b: BitMap", "bool", f"{f}_bitmap(b)", HB, gen=dict(bytes_len="seq"))


def progs(tier):
    if not PROGS:
        build()
    return PROGS


def tasks(tier, seed):
    return prog_tasks(progs(tier), tier, seed)
