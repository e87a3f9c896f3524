"""C14 transaction helpers of the prelude: documented result for all transactions, and the compiled scripts against them."""
from .common import *
from vf.abi import to_data, PDict
from vf.vals import *

META = dict(level="translation_validation", explanation="Each transaction helper of prelude.py carries a postcondition written from its documentation (sum over the matching entries, first match, attached datum), proved for the Python function on transactions whose "
            "irrelevant fields are arbitrary data and whose lists, values and datum tables have symbolic entries; the compiled script is proved to agree on every path. The lengths of the lists are bounded.",
            assumptions=["fields a helper does not inspect are represented by arbitrary data"])
PROGS = []
OPQ = ("address", "datum", "reference_script", "out_ref", "tx_out_ref", "fee", "mint", "certificates", "withdrawals", "validity_range", "signatories", "redeemers", "reference_inputs", "outputs", "id",
       "votes", "certificate", "voter", "proposal_procedure", "proposal_procedures", "current_treasury_amount", "treasury_donation", "redeemer", "staking_credential", "output_datum")


def p(name, sig, ret, body, opaque=OPQ, show=(), **kw):
    kw.setdefault("cfgs", ["O0", "O2"])
    g = dict(bytes_len="seq", list_len=2, dict_len=1, opaque=[o for o in opaque if o not in show])
    g.update(kw.pop("gen", {}))
    PROGS.append(P(name, sig, ret, body, PRE, gen=g, **kw))


def eq(a, b):
    return data_eq(to_data(a), to_data(b))


def items(d):
    return d.items if isinstance(d, PDict) else list(d.items())


def look(d, k, default, f=lambda v: v):
    r = default
    for a, v in reversed(items(d)):
        r = i_ite(eq(a, k), f(v), r)
    return r


def amount(value, token):
    return look(value, token.policy_id, 0, lambda names: look(names, token.token_name, 0))


def has(d, k):
    return b_or(*[eq(a, k) for a, _ in items(d)])


def total(xs, tok, match):
    r = 0
    for x in xs:
        r = r + i_ite(match(x), amount(x.value, tok), 0)
    return r


def first(xs, ref, r, get=lambda x: x.resolved):
    """r is what belongs to the first entry with this reference"""
    g, none = [], True
    for x in xs:
        m = eq(x.out_ref, ref)
        g.append(b_or(b_not(b_and(none, m)), eq(get(x), r)))
        none = b_and(none, b_not(m))
    return b_and(*g)


def nowhere(xs, ref):
    return b_and(*[b_not(eq(x.out_ref, ref)) for x in xs])


def kind(x):
    return type(x).__name__


def the_datum(o, datums, r):
    k = kind(o.datum)
    if k == "SomeOutputDatumHash":
        return b_and(*[b_or(b_not(eq(a, o.datum.datum_hash)), eq(v, r)) for a, v in items(datums)])
    return k == "SomeOutputDatum" and eq(o.datum.datum, r)


def no_datum(o, datums):
    k = kind(o.datum)
    return b_not(has(datums, o.datum.datum_hash)) if k == "SomeOutputDatumHash" else k == "NoOutputDatum"


def opt_datum(o, datums, r):
    k = kind(o.datum)
    if k == "SomeOutputDatumHash":
        return kind(r) == "SomeOutputDatum" and the_datum(o, datums, r.datum)
    return eq(r, o.datum)


def when_found(ctx, f):
    """f(output) for the first input that is the one being spent"""
    xs, ref = ctx.transaction.inputs, ctx.purpose.tx_out_ref
    g, none = [], True
    for x in xs:
        m = eq(x.out_ref, ref)
        g.append(b_or(b_not(b_and(none, m)), f(x.resolved)))
        none = b_and(none, b_not(m))
    return b_and(*g)


def missing(ctx, f=lambda o: False):
    """the purpose is not spending, no input matches, or f holds of the matching output"""
    if kind(ctx.purpose) != "Spending":
        return True
    xs, ref = ctx.transaction.inputs, ctx.purpose.tx_out_ref
    return b_or(nowhere(xs, ref), when_found(ctx, f))


def build():
    A = "address: Address, token: Token"
    p("all_tokens_unlocked_from_address", f"txins: List[TxInInfo], {A}", "int", "all_tokens_unlocked_from_address(txins, address, token)",
      post=lambda xs, a, t, r: i_eq(r, total([x.resolved for x in xs], t, lambda o: eq(o.address, a))))
    p("all_tokens_locked_at_address", f"txouts: List[TxOut], {A}", "int", "all_tokens_locked_at_address(txouts, address, token)",
      post=lambda xs, a, t, r: i_eq(r, total(xs, t, lambda o: eq(o.address, a))))
    p("all_tokens_locked_at_address_with_datum", f"txouts: List[TxOut], {A}, output_datum: OutputDatum", "int", "all_tokens_locked_at_address_with_datum(txouts, address, token, output_datum)",
      post=lambda xs, a, t, d, r: i_eq(r, total(xs, t, lambda o: b_and(eq(o.address, a), eq(o.datum, d)))))
    for f in ("all_tokens_locked_at_address",):
        p(f + ", larger values", f"txouts: List[TxOut], {A}", "int", f"{f}(txouts, address, token)", gen=dict(list_len=1, dict_len=2), time_limit=40,
          post=lambda xs, a, t, r: i_eq(r, total(xs, t, lambda o: eq(o.address, a))))
        p(f + ", three outputs", f"txouts: List[TxOut], {A}", "int", f"{f}(txouts, address, token)", gen=dict(list_len=3, dict_len=1, exact=True), time_limit=40,
          post=lambda xs, a, t, r: i_eq(r, total(xs, t, lambda o: eq(o.address, a))))
    p("token_present_in_inputs", "token: Token, inputs: List[TxInInfo]", "bool", "r: bool = token_present_in_inputs(token, inputs)\nreturn r",
      post=lambda t, xs, r: b_iff(r, b_or(*[i_lt(0, amount(x.resolved.value, t)) for x in xs])))
    L = dict(gen=dict(list_len=3, dict_len=1, inner=0, exact=False))
    NV = OPQ + ("value",)
    p("resolve_spent_utxo", "inputs: List[TxInInfo], purpose: Spending", "TxOut", "resolve_spent_utxo(inputs, purpose)", opaque=NV, **L,
      post=lambda xs, q, r: first(xs, q.tx_out_ref, r), fails=lambda xs, q: nowhere(xs, q.tx_out_ref))
    p("own_spent_utxo", "inputs: List[TxInInfo], purpose: Spending", "TxOut", "own_spent_utxo(inputs, purpose)", opaque=NV, **L,
      post=lambda xs, q, r: first(xs, q.tx_out_ref, r), fails=lambda xs, q: nowhere(xs, q.tx_out_ref))
    D = NV + ("inputs",)
    g = dict(gen=dict(dict_len=2, bytes_len="seq"))
    p("resolve_datum_unsafe", "txout: TxOut, tx_info: TxInfo", "BuiltinData", "resolve_datum_unsafe(txout, tx_info)", opaque=[o for o in D if o != "datum"], **g,
      post=lambda o, t, r: the_datum(o, t.datums, r), fails=lambda o, t: no_datum(o, t.datums))
    p("resolve_datum", "txout: TxOut, tx_info: TxInfo", "Union[SomeOutputDatum, NoOutputDatum]", "resolve_datum(txout, tx_info)", opaque=[o for o in D if o != "datum"], **g,
      post=lambda o, t, r: opt_datum(o, t.datums, r), fails=lambda o, t: kind(o.datum) == "SomeOutputDatumHash" and no_datum(o, t.datums))
    p("own_policy_id", "o: TxOut", "PolicyId", "own_policy_id(o)", opaque=[o for o in NV if o != "address"],
      post=lambda o, r: s_eq(r, o.address.payment_credential.credential_hash), fails=lambda o: kind(o.address.payment_credential) != "ScriptCredential")
    p("own_address", "h: PolicyId", "Address", "own_address(h)",
      post=lambda h, r: b_and(kind(r) == "Address", kind(r.payment_credential) == "ScriptCredential", s_eq(r.payment_credential.credential_hash, h), kind(r.staking_credential) == "NoStakingCredential"))
    C = [o for o in NV if o != "datum"] + ["value"]
    g = dict(gen=dict(list_len=2, dict_len=1), time_limit=40)
    opt = lambda c, o: kind(o.datum) == "SomeOutputDatumHash" and no_datum(o, c.transaction.datums)
    p("own_datum", "context: ScriptContext", "Union[SomeOutputDatum, NoOutputDatum]", "own_datum(context)", opaque=C, **g,
      post=lambda c, r: when_found(c, lambda o: opt_datum(o, c.transaction.datums, r)), fails=lambda c: missing(c, lambda o: opt(c, o)))
    p("own_datum_unsafe", "context: ScriptContext", "Anything", "own_datum_unsafe(context)", opaque=C, **g, pre=lambda c: kind(c.purpose) == "Spending",
      post=lambda c, r: when_found(c, lambda o: the_datum(o, c.transaction.datums, r)), fails=lambda c: missing(c, lambda o: no_datum(o, c.transaction.datums)))


def progs(tier):
    if not PROGS:
        build()
    return PROGS


def tasks(tier, seed):
    return prog_tasks(progs(tier), tier, seed)
