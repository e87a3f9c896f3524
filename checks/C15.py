"""C15 primitives: every wrapper of std/builtins through the real bridge code against the compiled call."""
from .common import *
from vf.vals import *
from vf.uplcsem import bit, bvec

META = dict(level="translation_validation", explanation="For every wrapper in std/builtins.py (and every operator of the BLS12-381 element classes) the off-chain side runs opshin/bridge.py, std/builtins.py and std/bls12_381.py, "
            "unmodified, on symbolic values (uplcsem gives the primitive its meaning), the on-chain side the compiled script; results and failures are proved equal on every path. "
            "Where the documentation determines the value it is also a postcondition.",
            assumptions=["the two implementations of a primitive (the uplc package's evaluation table off chain, the ledger's machine on chain) agree: both are replaced by the same semantics",
                         "CBOR decoding inverts CBOR encoding"])
H = "from typing import Dict, List, Union\nfrom pycardano import Datum as Anything, PlutusData\nfrom dataclasses import dataclass\nfrom opshin.std.builtins import *\n@dataclass()\nclass A(PlutusData):\n    CONSTR_ID = 3\n    x: int\n    y: bytes\n"
PROGS = []


def p(name, sig, ret, body, **kw):
    kw.setdefault("cfgs", ["O0", "O2"])
    kw.setdefault("gen", dict(bytes_len=2, list_len=2, text_len=1, dict_len=1))
    PROGS.append(P(name, sig, ret, body, H, **kw))


def tq(a, b):
    q = abs(a) // abs(b) if isinstance(a, int) and isinstance(b, int) else None
    return q


def trunc(a, b, r, rem):
    """r = quotient (or remainder) of truncated division"""
    q = tdiv(a, b)
    return i_eq(r, i_sub(a, i_mul(q, b)) if rem else q)


def by(x):
    return bvec(x) if not isinstance(x, bytes) else tuple(x)


def veq(r, es):
    r = by(r)
    return False if len(r) != len(es) else b_and(*[i_eq(a, b) for a, b in zip(r, es)])


def build():
    ii = "x: int, y: int"
    z = dict(fails=lambda x, y: i_eq(y, 0))
    p("add_integer", ii, "int", "add_integer(x, y)", post=lambda x, y, r: i_eq(r, x + y))
    p("subtract_integer", ii, "int", "subtract_integer(x, y)", post=lambda x, y, r: i_eq(r, x - y))
    p("multiply_integer", ii, "int", "multiply_integer(x, y)", post=lambda x, y, r: i_eq(r, x * y))
    p("divide_integer", ii, "int", "divide_integer(x, y)", post=lambda x, y, r: i_eq(r, fdiv(x, y)), **z)
    p("mod_integer", ii, "int", "mod_integer(x, y)", post=lambda x, y, r: i_eq(r, fmod(x, y)), **z)
    p("quotient_integer", ii, "int", "quotient_integer(x, y)", post=lambda x, y, r: trunc(x, y, r, False), **z)
    p("remainder_integer", ii, "int", "remainder_integer(x, y)", post=lambda x, y, r: trunc(x, y, r, True), **z)
    p("equals_integer", ii, "bool", "equals_integer(x, y)", post=lambda x, y, r: b_iff(r, i_eq(x, y)))
    p("less_than_integer", ii, "bool", "less_than_integer(x, y)", post=lambda x, y, r: b_iff(r, i_lt(x, y)))
    p("less_than_equals_integer", ii, "bool", "less_than_equals_integer(x, y)", post=lambda x, y, r: b_iff(r, i_le(x, y)))
    bb = "x: bytes, y: bytes"
    p("append_byte_string", bb, "bytes", "append_byte_string(x, y)", post=lambda x, y, r: s_eq(r, s_concat(x, y)), gen=dict(bytes_len="seq"))
    p("cons_byte_string", "x: int, y: bytes", "bytes", "cons_byte_string(x, y)", post=lambda x, y, r: veq(r, (x,) + by(y)), fails=lambda x, y: b_or(i_lt(x, 0), i_lt(255, x)))
    p("slice_byte_string", "x: int, y: int, z: bytes", "bytes", "slice_byte_string(x, y, z)", gen=dict(bytes_len=3))
    p("slice_byte_string any length", "x: int, y: int, z: bytes", "bytes", "slice_byte_string(x, y, z)", gen=dict(bytes_len="seq"))
    p("length_of_byte_string", "x: bytes", "int", "length_of_byte_string(x)", post=lambda x, r: i_eq(r, s_len(x)), gen=dict(bytes_len="seq"))
    p("index_byte_string", "x: bytes, y: int", "int", "index_byte_string(x, y)", gen=dict(bytes_len=3),
      pre=lambda x, y: y >= 0)
    for n in ("equals", "less_than", "less_than_equals"):
        f = {"equals": s_eq, "less_than": s_lt, "less_than_equals": s_le}[n]
        p(n + "_byte_string", bb, "bool", f"{n}_byte_string(x, y)", post=lambda x, y, r, f=f: b_iff(r, f(x, y)))
    for n in ("sha2_256", "sha3_256", "blake2b_256", "keccak_256", "blake2b_224", "ripemd_160"):
        p(n, "x: bytes", "bytes", f"{n}(x)", gen=dict(bytes_len="seq"))
    for n in ("verify_ed25519_signature", "verify_ecdsa_secp256k1_signature", "verify_schnorr_secp256k1_signature"):
        p(n, "a: bytes, b: bytes, c: bytes", "bool", f"{n}(a, b, c)", gen=dict(bytes_len="seq"))
    p("append_string", "x: str, y: str", "str", "append_string(x, y)", post=lambda x, y, r: s_eq(r, s_concat(x, y)))
    p("equals_string", "x: str, y: str", "bool", "equals_string(x, y)", post=lambda x, y, r: b_iff(r, s_eq(x, y)))
    p("encode_utf8", "x: str", "bytes", "encode_utf8(x)", post=lambda x, r: s_eq(r, utf8_encode(x)), gen=dict(text_len=2))
    p("decode_utf8", "x: bytes", "str", "decode_utf8(x)", gen=dict(bytes_len=2))
    # data
    T = ["int", "bytes", "A", "List[int]", "List[bytes]", "Dict[int, bytes]", "Anything", "List[A]", "List[Anything]", "Dict[bytes, List[int]]", "Union[A, int]"]
    for t in T:
        p(f"equals_data {t}", f"a: {t}, b: {t}", "bool", "equals_data(a, b)", gen=dict(bytes_len=1, list_len=1, dict_len=1))
        p(f"serialise_data {t}", f"a: {t}", "bytes", "serialise_data(a)", gen=dict(bytes_len=1, list_len=2, dict_len=1))
        p(f"constr_data field {t}", f"i: int, a: {t}, b: {t}", "Anything", "constr_data(i, [a, b])", gen=dict(bytes_len=1, list_len=1, dict_len=1), may_reject=True, pre=lambda i, a, b: i >= 0)
    p("constr_data", "i: int, l: List[Anything]", "Anything", "constr_data(i, l)", pre=lambda i, l: i >= 0)
    p("constr_data of ints", "i: int, l: List[int]", "Anything", "constr_data(i, l)", may_reject=True, pre=lambda i, l: i >= 0)
    p("equals_data of constructed", "i: int, l: List[Anything], a: A", "bool", "equals_data(constr_data(i, l), a)", pre=lambda i, l, a: i >= 0)
    p("serialise_data of constructed", "i: int, l: List[Anything]", "bytes", "serialise_data(constr_data(i, l))", pre=lambda i, l: i >= 0)
    # bits
    p("integer_to_byte_string", "e: bool, n: int", "bytes", "integer_to_byte_string(e, 0, n)")
    for w in (1, 2, 3):
        p(f"integer_to_byte_string width {w}", "e: bool, n: int", "bytes", f"integer_to_byte_string(e, {w}, n)", gen=dict(bytes_len=2))
    p("integer_to_byte_string any width", "e: bool, w: int, n: int", "bytes", "integer_to_byte_string(e, w, n)", ints=[0, 1, 2, 3, 255, 256, -1, 70000])
    p("byte_string_to_integer", "e: bool, a: bytes", "int", "byte_string_to_integer(e, a)", gen=dict(bytes_len=3))
    for n in ("and", "or", "xor"):
        p(f"{n}_byte_string", "q: bool, a: bytes, b: bytes", "bytes", f"{n}_byte_string(q, a, b)")
        p(f"{n}_byte_string any length", "q: bool, a: bytes, b: bytes", "bytes", f"{n}_byte_string(q, a, b)", gen=dict(bytes_len="seq"))
    p("complement_byte_string", "a: bytes", "bytes", "complement_byte_string(a)", post=lambda a, r: veq(r, tuple(255 - e for e in by(a))))
    p("read_bit", "a: bytes, i: int", "bool", "read_bit(a, i)")
    p("read_bit any length", "a: bytes, i: int", "bool", "read_bit(a, i)", gen=dict(bytes_len="seq"))
    p("write_bits", "a: bytes, l: List[int], v: bool", "bytes", "write_bits(a, l, v)", gen=dict(bytes_len=1, list_len=2), time_limit=40)
    p("write_bits any length", "a: bytes, l: List[int], v: bool", "bytes", "write_bits(a, l, v)", gen=dict(bytes_len="seq", list_len=3))
    p("replicate_byte", "n: int, b: int", "bytes", "replicate_byte(n, b)", ints=[0, 1, 2, 255, 256, -1, 8192, 8193])
    p("shift_byte_string", "a: bytes, n: int", "bytes", "shift_byte_string(a, n)", gen=dict(bytes_len="seq"), ints=[0, 1, -1, 8, -8, 9, 100])
    p("rotate_byte_string", "a: bytes, n: int", "bytes", "rotate_byte_string(a, n)", gen=dict(bytes_len="seq"), ints=[0, 1, -1, 8, -8, 9, 100])
    p("count_set_bits", "a: bytes", "int", "count_set_bits(a)")
    p("find_first_set_bit", "a: bytes", "int", "find_first_set_bit(a)")
    # groups
    g = dict(gen=dict(bytes_len="seq"))
    for k in ("1", "2"):
        q = f"bls12_381_g{k}_"
        E = f"BLS12381G{k}Element"
        e = lambda x: f"{q}hash_to_group({x}, b'')"
        p(f"g{k} hash, compress", bb, "bytes", f"{q}compress({q}hash_to_group(x, y))", **g)
        p(f"g{k} uncompress", "x: bytes", "bytes", f"{q}compress({q}uncompress(x))", **g)
        p(f"g{k} add", bb, "bytes", f"{q}compress({q}add({e('x')}, {e('y')}))", **g)
        p(f"g{k} neg", "x: bytes", "bytes", f"{q}compress({q}neg({e('x')}))", **g)
        p(f"g{k} scalar_mul", "x: bytes, n: int", "bytes", f"{q}compress({q}scalar_mul(n, {e('x')}))", **g)
        p(f"g{k} equal", bb, "bool", f"{q}equal({e('x')}, {e('y')})", **g)
        p(f"g{k} operators", "x: bytes, y: bytes, n: int", "bytes", f"a = {e('x')}\nb = {e('y')}\nreturn (a + b).compress() + (a - b).compress() + (-a).compress() + (n * a).compress() + (a * n).compress()", **g)
        p(f"g{k} operator ==", bb, "bool", f"{e('x')} == {e('y')}", **g)
        p(f"g{k} operator +x", "x: bytes", "bytes", f"a = {e('x')}\nreturn (+a).compress()", may_reject=True, **g)
        p(f"g{k} annotated", bb, "bytes", f"def f(a: {E}, b: {E}) -> {E}:\n    return a - b\nreturn f({e('x')}, {e('y')}).compress()", **g)
    m = lambda x, y: f"bls12_381_miller_loop(bls12_381_g1_hash_to_group({x}, b''), bls12_381_g2_hash_to_group({y}, b''))"
    p("miller loop, final verify", "x: bytes, y: bytes, z: bytes, w: bytes", "bool", f"bls12_381_final_verify({m('x', 'y')}, {m('z', 'w')})", **g)
    p("mul_ml_result", "x: bytes, y: bytes, z: bytes, w: bytes", "bool", f"bls12_381_final_verify(bls12_381_mul_ml_result({m('x', 'y')}, {m('z', 'w')}), {m('x', 'w')})", **g)
    p("ml operator *", "x: bytes, y: bytes, z: bytes, w: bytes", "bool", f"bls12_381_final_verify({m('x', 'y')} * {m('z', 'w')}, {m('x', 'w')})", **g)


def progs(tier):
    if not PROGS:
        build()
    return PROGS


def tasks(tier, seed):
    return prog_tasks(progs(tier), tier, seed)
