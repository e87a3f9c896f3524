"""Relational contracts on schematic programs.

A schematic program is an ordinary opshin source with typed parameters.  Its contract is

    for all parameter values v of the declared types:   eval(compile_c(src)) (data(v))  ==  data( python(src)(v) )
    and the script fails  <=>  the Python program raises                                 (for every configuration c)

`verify` generates one verification condition per (path, configuration) from the script that the real compiler in /repo
emits now, and from the source as executed by CPython, and discharges it with z3 (cvc5 as second back end).
A refuted condition is replayed: the model is turned into concrete inputs, run through the real compile + the uplc
machine and through plain CPython.
"""
import contextlib
import hashlib
import io
import json
import os
import random
import sys
import time
import types
import traceback
import z3
import uplc.ast as ua
from . import kernel as K
from .kernel import EngineError, Fail, Infeasible, Incomplete
from .vals import *
from . import uplcsem as U
from . import pysem as PY
from . import abi

# closures print their whole environment, which takes exponential time; only error messages are affected
for _c in (ua.BoundStateLambda, ua.BoundStateDelay, ua.ForcedBuiltIn):
    _c.__repr__ = lambda self: type(self).__name__

REPO = os.environ.get("VF_REPO", "/repo")

MACHINE_ERR = (U.Fail,)


# ------------------------------------------------------------------ configurations of the real compiler
def configs():
    import opshin.compiler_config as cc
    base = dict(wrap_output=True, unwrap_input=True)
    c = {
        "O0": cc.OPT_O0_CONFIG.update(**base),
        "O1": cc.OPT_O1_CONFIG.update(**base),
        "O2": cc.OPT_O2_CONFIG.update(**base),
        "O3": cc.OPT_O3_CONFIG.update(**base),
        "DEF": cc.DEFAULT_CONFIG.update(**base),
        "O0cf": cc.OPT_O0_CONFIG.update(constant_folding=True, **base),
        "O0dc": cc.OPT_O0_CONFIG.update(remove_dead_code=True, **base),
        "O0fa": cc.OPT_O0_CONFIG.update(fast_access_skip=2, **base),
        "O0fa5": cc.OPT_O0_CONFIG.update(fast_access_skip=5, **base),
        "O0eu": cc.OPT_O0_CONFIG.update(expand_union_types=True, **base),
        "O2fa3": cc.OPT_O2_CONFIG.update(fast_access_skip=3, **base),
        "O2eu": cc.OPT_O2_CONFIG.update(expand_union_types=True, **base),
        "O3eu": cc.OPT_O3_CONFIG.update(expand_union_types=True, **base),
        "O1cf": cc.OPT_O1_CONFIG.update(constant_folding=True, **base),
        "O2nocf": cc.OPT_O2_CONFIG.update(constant_folding=False, **base),
        "O2nodc": cc.OPT_O2_CONFIG.update(remove_dead_code=False, **base),
    }
    for k in ("O0", "O1", "O2", "O3"):
        c[k + "raw"] = c[k].update(wrap_output=False)
    for k in list(c):
        c[k + "+ia"] = c[k].update(allow_isinstance_anything=True)
    return c


class CompileRejected(Exception):
    pass


_ccache = {}
TOUCHED = set()


def _monitor_on():
    """Record which functions of /repo run while the scripts under contract are produced (evidence only)."""
    try:
        m = sys.monitoring
        m.use_tool_id(4, "vf")

        def start(code, off):
            fn = code.co_filename
            if fn.startswith(REPO + "/opshin"):
                TOUCHED.add(f"{fn[len(REPO) + 1:]}:{code.co_qualname}")
            return m.DISABLE
        m.register_callback(4, m.events.PY_START, start)
        m.set_events(4, m.events.PY_START)
    except (ValueError, AttributeError):
        pass


def compile_src(src, cfg, args=()):
    """the real compiler on the current tree -> uplc Program"""
    key = (src, cfg, args)
    if key in _ccache:
        r = _ccache[key]
        if isinstance(r, CompileRejected):
            raise r
        return r
    _monitor_on()
    from opshin.builder import _compile
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            c = _compile(src, *args, contract_file="<vf>", validator_function_name="validator", config=configs()[cfg] if isinstance(cfg, str) else cfg)
    except Exception as e:
        r = CompileRejected(f"{type(e).__name__}: {str(e)[:300]}")
        r.exc = e
        _ccache[key] = r
        raise r
    _ccache[key] = c
    return c


def eval_uplc(prog, dargs, budget=True):
    """concrete evaluation on the real uplc machine; -> ('ok', data) | ('fail', msg)"""
    import uplc
    from uplc.machine import Machine
    from uplc.cost_model import Budget
    t = prog.term
    for a in dargs:
        t = ua.Apply(t, a)
    p = ua.Program(prog.version, t)
    r = uplc.eval(p, budget=Budget(10 ** 15, 10 ** 15)) if _EVAL_BUDGET else uplc.eval(p)
    if isinstance(r.result, BaseException):
        return ("fail", f"{type(r.result).__name__}: {str(r.result)[:200]}", list(r.logs))
    return ("ok", r.result, list(r.logs))


def _has_budget():
    import uplc, inspect
    return "budget" in inspect.signature(uplc.eval).parameters


_EVAL_BUDGET = _has_budget()


# ------------------------------------------------------------------ plain CPython
_native_cache = {}


def native_ns(src):
    ns = {"__name__": f"vf_native_{hashlib.md5(src.encode()).hexdigest()[:8]}"}
    mod = types.ModuleType(ns["__name__"])
    sys.modules[ns["__name__"]] = mod
    code = _native_cache.get(src)
    if code is None:
        code = _native_cache[src] = compile(src, "<native>", "exec")
    with contextlib.redirect_stdout(io.StringIO()):
        exec(code, mod.__dict__)
    return mod.__dict__


def run_native(src, types_of, dargs, fn="validator"):
    """-> ('ok', uplc data, printed) | ('fail', msg)"""
    out = io.StringIO()
    ns = native_ns(src)
    ts = types_of(ns)
    args = [abi.from_data(d, T) for d, T in zip(dargs, ts)]
    try:
        with contextlib.redirect_stdout(out):
            r = ns[fn](*args)
        if isinstance(r, float):
            return ("fail", "float result: documented deviation", out.getvalue())
        return ("ok", abi.py_to_uplc(r), out.getvalue())
    except (AssertionError, ZeroDivisionError, IndexError, KeyError, ValueError, NameError, OverflowError, TypeError, AttributeError,
            UnicodeError, RuntimeError) as e:
        return ("fail", f"{type(e).__name__}: {str(e)[:200]}", out.getvalue())


def run_reference(src, types_of, dargs, fn="validator"):
    """the instrumented source on concrete values (used where the language's documented semantics is not CPython's, e.g. dict views are lists)"""
    saved = K.P
    K.P = K.Path([], 1000)
    try:
        ns = PY.load_src(src)
        args = [abi.from_data(d, T) for d, T in zip(dargs, types_of(ns))]
        try:
            r = ns[fn](*args)
            if isinstance(r, float):
                return ("fail", "float", "")
            return ("ok", abi.py_to_uplc(r), "\n".join(map(str, K.P.notes.get("pyprint", []))))
        except PY.PY_FAILS as e:
            return ("fail", f"{type(e).__name__}: {str(e)[:200]}", "")
    finally:
        K.P = saved


# ------------------------------------------------------------------ programs
class Prog:
    """A schematic program under contract.

    types: overriding parameter types (list, None entries = from annotation)
    dev:   documented deviation predicate: fn(*pyargs) -> bool; inputs satisfying it are only required to fail on chain
    """

    def __init__(self, name, src, cfgs=("O0", "O2"), types=None, gen=None, bound=None, time_limit=25, max_paths=600,
                 trace=False, native_ok=True, reject=False, concrete=0, max_steps=400000, pre=None, dataout=None, argc=None,
                 unbounded=True, note="", ints=None, ref=None, gens=None, rand=None, base=None, may_reject=False, post=None, fails=None, bounded=None):
        self.bounded = bounded   # the precondition restricts the inputs: obligations are labelled bounded
        # post(*args, result): contract of the Python function; fails(*args): inputs on which it must raise (otherwise it must return)
        self.post, self.fails = post, fails
        self.may_reject = may_reject   # rejection at compile time is a correct outcome too
        # base: the configuration whose script is the specification (instead of the Python run)
        self.base = base
        # ref(ns, data values) -> ('ok', data) | ('fail', why): a specification that takes the place of the Python run;
        # gens(ns) -> data values (symbolic), rand(ns, rng) -> concrete uplc data: the inputs it is about
        self.ref, self.gens, self.rand = ref, gens, rand
        self.name, self.src, self.cfgs, self.types = name, src, list(cfgs), types
        self.gen, self.bound = gen or {}, bound or {}
        self.time_limit, self.max_paths, self.trace = time_limit, max_paths, trace
        self.native_ok, self.reject, self.concrete = native_ok, reject, concrete
        self.max_steps, self.pre, self.argc = max_steps, pre, argc
        self.unbounded = unbounded
        self.note = note
        self.ints = ints

    def same_text(self, cfg):
        return compile_src(self.src, cfg).dumps() == compile_src(self.src, self.base).dumps()

    def ret_type(self, ns):
        return abi.ann_to_type(ns["validator"].__annotations__.get("return"), ns)

    def param_types(self, ns):
        import inspect
        f = ns["validator"]
        ts = []
        names = f.__code__.co_varnames[:f.__code__.co_argcount]
        for i, n in enumerate(names):
            if self.types and i < len(self.types) and self.types[i] is not None:
                T = self.types[i]
                ts.append(T(ns) if callable(T) else T)
            else:
                ts.append(abi.ann_to_type(f.__annotations__[n], ns))
        return ts


class Result:
    def __init__(self, name):
        self.name = name
        self.obl = []          # (name, status, backend, bounded)
        self.violations = []   # dict
        self.undecided = []    # (name, why)
        self.samples = []
        self.paths = 0
        self.replays = 0
        self.solver_s = 0.0
        self.queries = 0
        self.backends = {}
        self.wall = 0.0
        self.touched = []
        self.complete = True
        self.bounds = []
        self.known = []

    def to_json(self):
        return dict(self.__dict__)


def data_json(d):
    if isinstance(d, ua.PlutusInteger): return {"int": str(d.value)}
    if isinstance(d, ua.PlutusByteString): return {"bytes": d.value.hex()}
    if isinstance(d, ua.PlutusList): return {"list": [data_json(x) for x in d.value]}
    if isinstance(d, ua.PlutusMap): return {"map": [{"k": data_json(k), "v": data_json(v)} for k, v in d.value.items()]}
    if isinstance(d, ua.PlutusConstr): return {"constructor": d.constructor, "fields": [data_json(x) for x in d.fields]}
    return {"other": str(d)}


def data_unjson(j):
    from frozenlist2 import frozenlist
    if "int" in j: return ua.PlutusInteger(int(j["int"]))
    if "bytes" in j: return ua.PlutusByteString(bytes.fromhex(j["bytes"]))
    if "list" in j: return ua.PlutusList(frozenlist([data_unjson(x) for x in j["list"]]))
    if "map" in j: return ua.PlutusMap({data_unjson(e["k"]): data_unjson(e["v"]) for e in j["map"]})
    return ua.PlutusConstr(j["constructor"], frozenlist([data_unjson(x) for x in j["fields"]]))


def is_pdata(r):
    return isinstance(r, (ua.PlutusInteger, ua.PlutusByteString, ua.PlutusList, ua.PlutusMap, ua.PlutusConstr))


def raw_concrete(r, T):
    """unwrapped result of the real machine -> data (None when its shape does not match the declared type)"""
    d = abi.raw_to_data(U.const(r), T)
    return None if d is None else abi.m_data(None, d)


def run_ref(prog, dargs):
    saved = K.P
    K.P = K.Path([], 1000)
    try:
        ns = PY.load_src(prog.src)
        a = prog.ref(ns, [U.const(d) for d in dargs])
        return (a[0], abi.m_data(None, a[1])) if a[0] == "ok" else a
    finally:
        K.P = saved


def contract_concrete(prog, dargs):
    """the native Python function against its contract"""
    ns = native_ns(prog.src)
    a = run_native(prog.src, prog.param_types, dargs)
    desc = {"python": _show(a), "contract": "violated"}
    saved = K.P
    K.P = K.Path([], 1000)
    try:
        args = [abi.from_data(d, T) for d, T in zip(dargs, prog.param_types(ns))]
        f = bool(prog.fails(*args)) if prog.fails else False
        if a[0] != "ok":
            return f, desc
        return (not f) and bool(prog.post(*args, abi.from_data(a[1], prog.ret_type(ns)))), desc
    finally:
        K.P = saved


def compare_concrete(prog, cfg, dargs):
    """Real compiled script vs plain CPython on concrete inputs -> (agree, description)"""
    if cfg == "contract":
        return contract_concrete(prog, dargs)
    c = compile_src(prog.src, cfg)
    b = eval_uplc(c, dargs)
    if prog.base:
        a = eval_uplc(compile_src(prog.src, prog.base), dargs)
        desc = {prog.base: _show(a), cfg: _show(b)}
        if a[0] != b[0]:
            return False, desc
        return a[0] == "fail" or (is_pdata(b[1]) and is_pdata(a[1]) and abi.uplc_eq(a[1], b[1])), desc
    if prog.ref:
        a = run_ref(prog, dargs)
        desc = {"specified": _show(a), "script": _show(b)}
        if a[0] != b[0]:
            return False, desc
        return a[0] == "fail" or (is_pdata(b[1]) and abi.uplc_eq(a[1], b[1])), desc
    a = run_native(prog.src, prog.param_types, dargs) if prog.native_ok else run_reference(prog.src, prog.param_types, dargs)
    desc = {"python": _show(a), "script": _show(b)}
    if "raw" in cfg and b[0] == "ok":
        b = ("ok", raw_concrete(b[1], prog.ret_type(native_ns(prog.src))), b[2])
    if a[0] != b[0]:
        return False, desc
    if a[0] == "ok":
        if not is_pdata(b[1]) or not abi.uplc_eq(a[1], b[1]):
            return False, desc
        if prog.trace:
            want = a[2].splitlines()
            if [str(x) for x in b[2]] != want and "\n".join(map(str, b[2])) != a[2].rstrip("\n"):
                desc["printed"] = want
                desc["traced"] = [str(x) for x in b[2]]
                return False, desc
    return True, desc


def _show(r):
    if r[0] == "ok":
        return data_json(r[1]) if is_pdata(r[1]) else str(r[1])[:300]
    return "FAILS: " + r[1]


def verify(prog, tier="quick", seed=1):
    """Discharge the relational contract of one schematic program. Returns a Result."""
    t0 = time.time()
    res = Result(prog.name)
    K.STATS.__init__()
    saved = {k: getattr(PY.Bound, k) for k in prog.bound}
    for k, v in prog.bound.items():
        setattr(PY.Bound, k, v)
    try:
        _verify(prog, res, tier, seed)
    finally:
        for k, v in saved.items():
            setattr(PY.Bound, k, v)
    res.paths, res.solver_s, res.queries, res.backends = K.STATS.paths, K.STATS.solver_s, K.STATS.queries, K.STATS.backends
    res.wall = time.time() - t0
    res.touched = sorted(TOUCHED)
    return res


def _verify(prog, res, tier, seed):
    terms = {}
    if prog.reject:
        for cfg in prog.cfgs:
            nm = f"{prog.name}@{cfg}: rejected at compile time"
            try:
                compile_src(prog.src, cfg)
            except CompileRejected as e:
                res.obl.append((nm, "valid", "compiler", False))
                continue
            res.obl.append((nm, "invalid", "compiler", False))
            res.violations.append(dict(obligation=nm, kind="accepted", program=prog.src, config=cfg, replayed=True,
                                       detail="a program that must be rejected is accepted; " + prog.note))
        return
    if prog.base:
        try:
            bt = U.convert(compile_src(prog.src, prog.base))
        except CompileRejected as e:
            res.undecided.append((prog.name, f"not accepted at {prog.base}: {e}"))
            return
    for cfg in prog.cfgs:
        try:
            terms[cfg] = (compile_src(prog.src, cfg), None)
            terms[cfg] = (terms[cfg][0], U.convert(terms[cfg][0]))
            if prog.base and prog.same_text(cfg):
                # the very same script: equality is syntactic
                res.obl.append((f"{prog.name}@{cfg}: identical to the script of {prog.base}", "valid", "syntactic", False))
                del terms[cfg]
        except CompileRejected as e:
            nm = f"{prog.name}@{cfg}: accepted by the compiler"
            if prog.may_reject:
                res.obl.append((f"{prog.name}@{cfg}: rejected at compile time", "valid", "compiler", False))
                continue
            res.obl.append((nm, "invalid", "compiler", False))
            res.violations.append(dict(obligation=nm, kind="rejected", program=prog.src, config=cfg, replayed=True,
                                       detail=f"a valid program is rejected: {e}", prog=prog.name))
    if not terms:
        return
    G = abi.Gen(**prog.gen)
    ns0 = PY.load_src(prog.src)
    types = prog.param_types(ns0)
    fails = {}   # cfg -> list of failing obligations
    rng = random.Random(seed)
    counter = {"n": 0}
    gen_bounded = _gen_bounded(types, prog.gen, ns0["validator"].__code__.co_varnames) if not prog.gens else prog.note
    if prog.bounded:
        gen_bounded = prog.bounded
    if gen_bounded:
        res.bounds.append(gen_bounded)

    def body():
        ns = PY.load_src(prog.src) if prog.unbounded else ns0
        f = ns["validator"]
        if prog.gens:
            ins = [(None, d) for d in prog.gens(ns)]
        else:
            ins = [G.gen(T, n) for T, n in zip(prog.param_types(ns) if ns is not ns0 else types, f.__code__.co_varnames)]
        if prog.pre is not None:
            K.assume_feasible(prog.pre(*[v for v, _ in ins]))
        dargs = [d for _, d in ins]
        try:
            if prog.ref:
                a = prog.ref(ns, dargs)
            elif prog.base:
                try:
                    a = ("ok", U.run(bt, dargs, max_steps=prog.max_steps))
                except Fail as e:
                    a = ("fail", str(e))
            else:
                r = f(*[v for v, _ in ins])
                da = abi.to_data(r)
                a = ("ok", da)
        except PY.PY_FAILS as e:
            if G.opaque and isinstance(e, (TypeError, AttributeError)):
                raise EngineError(f"operation on a value left arbitrary: {e}")
            a = ("fail", f"{type(e).__name__}: {e}")
        out = []
        if prog.post:
            cargs = [v for v, _ in ins]
            if a[0] == "ok":
                goal = prog.post(*cargs, r)
                if prog.fails:
                    goal = b_and(goal, b_not(prog.fails(*cargs)))
            else:
                goal = prog.fails(*cargs) if prog.fails else False
            st, model, be = K.check_valid(goal, 30000)
            out.append(("contract", st, model, be, a, ("contract", "the postcondition does not hold")))
        for cfg, (c, t) in terms.items():
            K.P.notes["trace"] = []
            try:
                v = U.run(t, dargs, max_steps=prog.max_steps)
                b = ("ok", abi.raw_to_data(v, prog.ret_type(ns)) if "raw" in cfg else v)
            except Fail as e:
                b = ("fail", str(e))
            if a[0] != b[0]:
                goal = False
            elif a[0] == "fail":
                goal = True
            else:
                goal = data_eq(a[1], b[1]) if is_data(b[1]) and is_data(a[1]) else False
                if prog.trace:
                    tr, pr = K.P.notes["trace"], K.P.notes.get("pyprint", [])
                    goal = b_and(goal, len(tr) == len(pr)) if len(tr) != len(pr) else b_and(goal, *[s_eq(x, y) for x, y in zip(tr, pr)])
            st, model, be = K.check_valid(goal, 15000)
            out.append((cfg, st, model, be, a, b))
        # one concrete point of the path, for the fidelity cross-check
        pt = None
        if K.P.solver.check() == z3.sat:
            m = K.P.solver.model()
            try:
                pt = typed_inputs(prog, G.opaque, [abi.m_data(m, d) for d in dargs])
            except (EngineError, ValueError, AttributeError):
                pt = None
        bad = []
        for cfg, st, model, be, a, b in out:
            if st == "invalid":
                cd = None
                if model is not None:
                    try:
                        cd = typed_inputs(prog, G.opaque, [abi.m_data(model, d) for d in dargs])
                    except (EngineError, ValueError, AttributeError):
                        cd = None
                bad.append((cfg, cd, _vshow(a), _vshow(b)))
        return [(o[0], o[1], o[3]) for o in out], pt, bad, bool(K.P.notes.get("bounded"))

    while True:
        try:
            results, complete, why = K.explore(body, max_paths=prog.max_paths, time_limit=prog.time_limit * (4 if tier == "thorough" else 1))
        except EngineError as e:
            if G.opaque:
                # the code inspects a part that was left arbitrary: use values of the declared type there
                G.opaque = G.opaque - {str(e)} if isinstance(e, abi.OpaqueAccess) and str(e) in G.opaque else set()
                continue
            results, complete, why = [], False, f"engine: {e}"
        break
    res.complete = complete
    if not complete:
        res.undecided.append((prog.name, why))
    failing = []
    pts = []
    for k, (path, (obs, pt, bad, bnd)) in enumerate(results):
        for cfg, st, be in obs:
            nm = f"{prog.name}@{cfg}/path{k}"
            res.obl.append((nm, st, be, bnd or bool(gen_bounded)))
            if st == "unknown":
                res.undecided.append((nm, "solver: unknown"))
        for b in bad:
            failing.append((f"{prog.name}@{b[0]}/path{k}", b))
        if pt is not None:
            pts.append(pt)
        if bnd:
            for w in path.notes["bounded"]:
                if w not in res.bounds:
                    res.bounds.append(w)
    # replay of the refuted obligations
    by_cfg = {}
    for nm, (cfg, cd, a, b) in failing:
        by_cfg.setdefault(cfg, []).append((nm, cd, a, b))
    for cfg, lst in by_cfg.items():
        hit = None
        for nm, cd, a, b in lst:
            if cd is None:
                continue
            try:
                ok, desc = compare_concrete(prog, cfg, cd)
            except Exception as e:
                continue
            if not ok:
                hit = dict(obligation=nm, kind="relational", program=prog.src, config=cfg, inputs=[data_json(x) for x in cd],
                           replayed=True, detail=desc, prog=prog.name)
                break
        if hit is None:
            nm, cd, a, b = lst[0]
            s = search(prog, cfg, types, rng, 300, 20)
            if s is not None:
                hit = dict(obligation=nm, kind="relational", program=prog.src, config=cfg, inputs=[data_json(x) for x in s[0]], replayed=True,
                           detail=s[1], prog=prog.name)
            else:
                hit = dict(obligation=nm, kind="relational", program=prog.src, config=cfg, inputs=[data_json(x) for x in cd] if cd else None,
                           replayed=False, detail={"python(symbolic)": a, "script(symbolic)": b, "failed obligations": [x[0] for x in lst][:10]}, prog=prog.name)
        res.violations.append(hit)
    # fidelity cross-check: one concrete input per path on the real machine and plain CPython
    if True:
        rng.shuffle(pts)
        n = 12 if tier == "quick" else 60
        seen_cfg = set(by_cfg)
        for i, pt in enumerate(pts[:n]):
            cfg = prog.cfgs[i % len(prog.cfgs)]
            if cfg in seen_cfg or cfg not in terms:
                continue
            try:
                ok, desc = compare_concrete(prog, cfg, pt)
            except (RecursionError, EngineError):
                continue
            res.replays += 1
            if len(res.samples) < 2:
                res.samples.append({"config": cfg, "inputs": [data_json(x) for x in pt], "outcome": list(desc.values())[1]})
            if not ok:
                seen_cfg.add(cfg)
                res.violations.append(dict(obligation=f"{prog.name}@{cfg}/concrete point of a path", kind="relational", program=prog.src, config=cfg,
                                           inputs=[data_json(x) for x in pt], replayed=True, detail=desc, prog=prog.name))
        if not complete or prog.concrete:
            for cfg in (["contract"] if prog.post else []) + list(prog.cfgs):
                if cfg in seen_cfg or cfg not in terms and cfg != "contract":
                    continue
                n = (prog.concrete or 40) * (5 if tier == "thorough" else 1)
                s = search(prog, cfg, types, rng, n, 10 if tier == "quick" else 60)
                res.replays += n
                if s is not None:
                    res.violations.append(dict(obligation=f"{prog.name}@{cfg}/bounded search", kind="relational", program=prog.src, config=cfg,
                                               inputs=[data_json(x) for x in s[0]], replayed=True, detail=s[1], prog=prog.name))


def _vshow(x):
    return f"{x[0]}: {str(x[1])[:400]}"


def _gen_bounded(types, g, names=()):
    """which parts of the input space the generator bounds"""
    seen = set()

    def walk(T, name):
        if name in g.get("opaque", ()):
            return ""
        if isinstance(T, str) or T[0] == "Lit":
            return repr(T) + " "
        if T[0] == "Rec":
            if T[1] in seen:
                return ""
            seen.add(T[1])
            return "".join(walk(ft, n) for n, ft in abi.fields_of(T[1]))
        return T[0] + " " + "".join(walk(x, "") for x in T[1:])
    s = "".join(walk(T, n) for T, n in zip(types, names))
    out = []
    if "'bytes'" in s and g.get("bytes_len", 2) != "seq": out.append(f"bytes length <= {g.get('bytes_len', 2)}")
    if "'str'" in s and g.get("text_len", 2) != "seq": out.append(f"text length <= {g.get('text_len', 2)}")
    if "List" in s and g.get("list_len", 2) != "seq": out.append(f"list length <= {g.get('list_len', 2)}")
    if g.get("inner") is not None: out.append(f"nested containers of size {g['inner']}")
    if "Dict" in s: out.append(f"dict size <= {g.get('dict_len', 2)}")
    return ", ".join(out)


# ------------------------------------------------------------------ concrete search (only to find a failing input / bounded stand-in)
INTS = [0, 1, -1, 2, -2, 3, 5, 7, 8, 9, 10, 15, 16, -3, -7, -10, 31, 32, 63, 64, 99, 100, 127, 128, 129, 255, 256, -256, 257, 1000, 65535, 65536,
        0x10FFFF, 0x110000, 2 ** 31, 2 ** 63, -2 ** 63, 2 ** 64, 10 ** 20, -10 ** 20]
CHARS = ["a", "Z", "0", "9", " ", "\n", "'", '"', "\\", "é", "€", "😀", "_", "-", "+", "f", "\x00", "\x7f", "x"]


def rand_data(T, rng, depth=0, INTS=INTS):
    """random data of type T; while rng.pool is set, values may repeat or nearly repeat earlier values of the same type"""
    from frozenlist2 import frozenlist
    pool = getattr(rng, "pool", None)
    if pool is None:
        return _rand_data(T, rng, depth, INTS)
    seen = pool.setdefault(str(T), [])
    if seen and rng.random() < .4:
        v = rng.choice(seen)
        if T[0] == "Rec" and v.fields and rng.random() < .5:
            # differs in one field
            fs = list(v.fields)
            i = rng.randrange(len(fs))
            fs[i] = _rand_data(abi.fields_of(T[1])[i][1], rng, depth + 1, INTS)
            v = ua.PlutusConstr(v.constructor, frozenlist(fs))
    else:
        v = _rand_data(T, rng, depth, INTS)
    seen.append(v)
    return v


def _rand_data(T, rng, depth=0, INTS=INTS):
    from frozenlist2 import frozenlist
    if T == "int":
        return ua.PlutusInteger(rng.choice(INTS) if len(INTS) < 30 or rng.random() < .8 else rng.randint(-10 ** 6, 10 ** 6))
    if T == "bool":
        return ua.PlutusInteger(rng.randint(0, 1))
    if T == "bytes":
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 32])
        return ua.PlutusByteString(bytes(rng.choice([0, 1, 10, 13, 32, 34, 39, 48, 65, 92, 97, 127, 128, 195, 255, rng.randrange(256)]) for _ in range(n)))
    if T == "str":
        n = rng.choice([0, 1, 1, 2, 3, 4, 6])
        return ua.PlutusByteString("".join(rng.choice(CHARS) for _ in range(n)).encode())
    if T == "None":
        return ua.PlutusConstr(0, frozenlist([]))
    if T == "Any":
        if depth > 2 or rng.random() < .5:
            return rand_data(rng.choice(["int", "bytes"]), rng, depth, INTS)
        k = rng.randrange(3)
        xs = [rand_data("Any", rng, depth + 1, INTS) for _ in range(rng.randrange(3))]
        if k == 0: return ua.PlutusList(frozenlist(xs))
        if k == 1: return ua.PlutusConstr(rng.randrange(4), frozenlist(xs))
        return ua.PlutusMap({x: rand_data("Any", rng, depth + 1, INTS) for x in xs})
    k = T[0]
    if k == "Lit":
        return abi.py_to_uplc(rng.choice(T[1]))
    if k == "List":
        return ua.PlutusList(frozenlist([rand_data(T[1], rng, depth + 1, INTS) for _ in range(rng.choice([0, 1, 2, 3, 5]))]))
    if k == "Dict":
        return ua.PlutusMap({rand_data(T[1], rng, depth + 1, INTS): rand_data(T[2], rng, depth + 1, INTS) for _ in range(rng.choice([0, 1, 2, 3]))})
    if k == "Rec":
        return ua.PlutusConstr(T[1].CONSTR_ID, frozenlist([rand_data(ft, rng, depth + 1, INTS) for _, ft in abi.fields_of(T[1])]))
    if k == "Union":
        return rand_data(rng.choice(T[1:]), rng, depth, INTS)
    raise EngineError(f"rand {T}")


def digest_data(T, key):
    """a value of type T determined by (and, where the type allows, distinct for distinct) the key"""
    from frozenlist2 import frozenlist
    h = hashlib.sha256(key).digest()
    if T == "int": return ua.PlutusInteger(int.from_bytes(h[:3], "big"))
    if T == "bool": return ua.PlutusInteger(h[0] % 2)
    if T == "bytes": return ua.PlutusByteString(h[:28])
    if T == "str": return ua.PlutusByteString(h.hex().encode())
    if T == "None": return ua.PlutusConstr(0, frozenlist([]))
    if T == "Any": return ua.PlutusByteString(h)
    k = T[0]
    if k == "Lit": return abi.py_to_uplc(T[1][h[0] % len(T[1])])
    if k == "List": return ua.PlutusList(frozenlist([]))
    if k == "Dict": return ua.PlutusMap({})
    if k == "Rec": return ua.PlutusConstr(T[1].CONSTR_ID, frozenlist([digest_data(ft, h + n.encode()) for n, ft in abi.fields_of(T[1])]))
    if k == "Union": return digest_data(T[1 + h[0] % (len(T) - 1)], h + b"u")
    raise EngineError(f"digest {T}")


def retype(d, T, opaque, name):
    """concrete data in which opaque positions hold arbitrary data -> data of the declared type, opaque positions mapped by a digest of their content"""
    from frozenlist2 import frozenlist
    if name.rsplit(".", 1)[-1] in opaque:
        return d if T == "Any" else digest_data(T, repr(data_json(d)).encode())
    if isinstance(T, str) or T[0] == "Lit":
        return d
    k = T[0]
    if k == "List": return ua.PlutusList(frozenlist([retype(x, T[1], opaque, f"{name}_{i}") for i, x in enumerate(d.value)]))
    if k == "Dict": return ua.PlutusMap({retype(a, T[1], opaque, f"{name}_k0"): retype(b, T[2], opaque, f"{name}_v0") for a, b in d.value.items()})
    if k == "Rec": return ua.PlutusConstr(d.constructor, frozenlist([retype(x, ft, opaque, f"{name}.{n}") for x, (n, ft) in zip(d.fields, abi.fields_of(T[1]))]))
    if k == "Union":
        for u in T[1:]:
            try:
                abi.from_data(retype(d, u, (), ""), u) if not (u[0] == "Rec" and isinstance(d, ua.PlutusConstr) and u[1].CONSTR_ID == d.constructor) else None
                return retype(d, u, opaque, name)
            except Exception:
                continue
    return d


def typed_inputs(prog, opaque, dargs):
    if not opaque:
        return dargs
    ns = native_ns(prog.src)
    f = ns["validator"]
    return [retype(d, T, set(opaque), n) for d, T, n in zip(dargs, prog.param_types(ns), f.__code__.co_varnames)]


def pre_holds(prog, types, dargs):
    r = prog.pre(*[abi.from_data(x, T) for x, T in zip(dargs, types)])
    if z3.is_expr(r):
        r = z3.is_true(z3.simplify(r))
    return bool(r)


def search(prog, cfg, types, rng, n, tlimit):
    t0 = time.time()
    nts = None
    for i in range(n):
        if time.time() - t0 > tlimit:
            return None
        rng.pool = {} if i % 2 else None
        try:
            if nts is None:
                nts = prog.param_types(native_ns(prog.src))
            d = [rand_data(T, rng, 0, prog.ints or INTS) for T in nts] if not prog.rand else prog.rand(native_ns(prog.src), rng)
            if prog.pre is not None and not prog.rand and not pre_holds(prog, nts, d):
                continue
            ok, desc = compare_concrete(prog, cfg, d)
        except (RecursionError, CompileRejected, EngineError):
            continue
        except Exception:
            continue
        if not ok:
            return d, desc
    return None
