"""Compiles a history of programs in this process and reports the digests of the scripts (used by C20).

stdin: {"ops": [[source, configuration name, "direct" | "cached" | "params"], ...], "demonic": seed | null, "frame": bool}
With `demonic` the modules of opshin are loaded with every set replaced by one whose iteration order over elements with a
seed- or address-dependent hash is an arbitrary permutation: any order that a hash seed may give is a legal outcome there.
"""
import ast
import builtins
import hashlib
import importlib.abc
import importlib.machinery
import io
import contextlib
import json
import os
import random
import sys
import threading
import types

REPO = os.path.realpath(os.environ.get("VF_REPO", "/repo"))
RNG = None
ITER = [0, 0]


def unstable(x):
    """the position of x in a set may differ from one process to another"""
    if isinstance(x, (str, bytes)):
        return True
    if isinstance(x, tuple):
        return any(unstable(y) for y in x)
    if isinstance(x, (int, float, type(None))):
        return False
    return True


class _M(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.set)

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.set)


class DSet(builtins.set, metaclass=_M):
    __slots__ = ()

    def __iter__(self):
        xs = list(builtins.set.__iter__(self))
        if len(xs) > 1 and any(unstable(x) for x in xs):
            ITER[0] += 1
            try:
                xs.sort(key=repr)
            except Exception:
                pass
            RNG.shuffle(xs)
        return iter(xs)

    def pop(self):
        x = next(iter(self))
        builtins.set.remove(self, x)
        return x

    def copy(self):
        return DSet(self)


def _wrap(n):
    f = getattr(builtins.set, n)

    def g(self, *a):
        r = f(self, *a)
        return r if r is NotImplemented else DSet(r)
    return g


for _n in ("__or__", "__and__", "__sub__", "__xor__", "__ror__", "__rand__", "__rsub__", "__rxor__", "union", "intersection", "difference", "symmetric_difference"):
    setattr(DSet, _n, _wrap(_n))


class Tr(ast.NodeTransformer):
    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("__dset__", ast.Load()), [ast.List(n.elts, ast.Load())], [])

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("__dset__", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "set":
            n.func.id = "__dset__"
        return n


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        t = ast.fix_missing_locations(Tr().visit(ast.parse(self.get_data(path))))
        ITER[1] += 1
        return compile(t, path, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] != "opshin":
            return None
        s = importlib.machinery.PathFinder.find_spec(name, path, target)
        if s is not None and s.origin and s.origin.endswith(".py") and os.path.realpath(s.origin).startswith(REPO):
            s.loader = Loader(name, s.origin)
        return s


# ------------------------------------------------------------------ frame condition
CHECKED = builtins.set()


def digest_state():
    """a digest of every mutable object reachable from the modules of the compiler, per module attribute"""
    import pluthon
    out = {}
    for mn, mod in sorted(sys.modules.items()):
        if mn.split(".")[0] != "opshin" or mod is None:
            continue
        for n, v in sorted(vars(mod).items()):
            if n.startswith("__") or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, (type, types.FunctionType)) and getattr(v, "__module__", None) != mn:
                continue
            if isinstance(v, dict) and v and all(isinstance(x, pluthon.Pattern) for x in v.values()) and all(isinstance(k, str) for k in v):
                # the cache of make_pattern may grow, as long as its invariant holds
                bad = [k for k, x in v.items() if k not in CHECKED and x.compose().dumps() != k]
                CHECKED.update(v)
                out[f"{mn}.{n}: invariant"] = bad
                continue
            h = hashlib.sha256()
            walk(v, h, {}, 0)
            out[f"{mn}.{n}"] = h.hexdigest()
    out["process: sys.path"] = repr(sys.path)
    out["process: os.environ"] = repr(sorted(os.environ.items()))
    out["process: cwd"] = os.getcwd()
    out["process: random"] = hashlib.sha256(repr(random.getstate()).encode()).hexdigest()
    out["process: recursion limit"] = sys.getrecursionlimit()
    return out


def walk(v, h, seen, d):
    if isinstance(v, (int, str, bytes, float, type(None))):
        h.update(repr(v).encode())
        return
    if id(v) in seen:
        h.update(b"@%d" % seen[id(v)])
        return
    seen[id(v)] = len(seen)
    if isinstance(v, dict):
        h.update(b"{%d" % len(v))
        for k, x in list(v.items()):
            walk(k, h, seen, d + 1)
            walk(x, h, seen, d + 1)
    elif isinstance(v, (list, tuple)):
        h.update(b"[%d" % len(v))
        for x in v:
            walk(x, h, seen, d + 1)
    elif isinstance(v, (builtins.set, frozenset)):
        ks = []
        for x in builtins.set.__iter__(v) if isinstance(v, builtins.set) else v:
            hh = hashlib.sha256()
            walk(x, hh, dict(seen), d + 1)
            ks.append(hh.hexdigest())
        h.update(repr(sorted(ks)).encode())
    elif isinstance(v, types.FunctionType):
        h.update(v.__qualname__.encode())
        walk(v.__defaults__, h, seen, d + 1)
        walk(v.__kwdefaults__, h, seen, d + 1)
        walk(v.__dict__, h, seen, d + 1)
        for c in v.__closure__ or ():
            try:
                walk(c.cell_contents, h, seen, d + 1)
            except ValueError:
                pass
    elif isinstance(v, type):
        h.update(v.__qualname__.encode())
        if v.__module__.split(".")[0] == "opshin":
            for k, x in sorted(vars(v).items()):
                if k not in ("__dict__", "__weakref__", "__doc__", "__module__", "_abc_impl", "__abstractmethods__"):
                    h.update(k.encode())
                    walk(x, h, seen, d + 1)
    elif hasattr(v, "cache_info"):
        h.update(b"memo")          # a memoised function: its effect on results is what the comparison of scripts decides
    elif isinstance(v, (staticmethod, classmethod)):
        walk(v.__func__, h, seen, d + 1)
    elif isinstance(v, types.MethodType):
        walk(v.__self__, h, seen, d + 1)
    elif type(v).__module__.split(".")[0] in ("opshin", "pluthon", "uplc", "pycardano", "collections", "itertools"):
        h.update(type(v).__qualname__.encode())
        if type(v).__name__ == "count":
            h.update(repr(v).encode())
        dd = getattr(v, "__dict__", None)
        if dd is not None:
            walk(dd, h, seen, d + 1)
    else:
        h.update(type(v).__qualname__.encode())


def main():
    global RNG
    job = json.load(sys.stdin)
    if job.get("demonic") is not None:
        RNG = random.Random(job["demonic"])
        sys.meta_path.insert(0, Finder())
        builtins.__dset__ = DSet
    from . import prog as PG
    import uplc
    cfgs = PG.configs()
    from opshin.builder import _compile
    res, frames = [], []
    before = None
    from opshin import builder, compiler
    import uplc.ast as ua
    args = [ua.PlutusInteger(7), ua.PlutusByteString(b"abc")]

    def probe():
        """the state right after the compilation of a fixed program, so that what a compilation resets when it starts is not part of it"""
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            builder.compile(compiler.parse(job["probe"], filename="<vf>"), contract_filename="<vf>", validator_function_name="validator", config=cfgs["O0"])
        return digest_state()
    for i, (src, cfg, mode) in enumerate(job["ops"]):
        if job.get("frame") and i >= job.get("warm", 1) and before is None:
            before = probe()
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                if mode == "direct":       # without the cache of whole scripts
                    c = builder.compile(compiler.parse(src, filename="<vf>"), contract_filename="<vf>", validator_function_name="validator", config=cfgs[cfg])
                else:
                    if mode == "params":
                        _compile(src, *args, contract_file="<vf>", validator_function_name="validator", config=cfgs[cfg])
                    c = _compile(src, contract_file="<vf>", validator_function_name="validator", config=cfgs[cfg])
            b = uplc.flatten(c)
            r = ["ok", hashlib.sha256(b).hexdigest(), len(b)]
        except Exception as e:
            r = ["rejected", type(e).__name__, 0]
        res.append(r)
        if before is not None:
            after = probe()
            frames.append(sorted(k for k in after if k in before and before[k] != after[k]))
            before = after
    import opshin
    json.dump(dict(res=res, frames=frames, demonic=ITER, repo=os.path.dirname(opshin.__file__)), sys.stdout)


if __name__ == "__main__":
    sys.setrecursionlimit(250000)
    threading.stack_size(768 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
