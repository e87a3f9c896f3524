"""Path exploration kernel: decision-prefix depth-first re-execution over z3.

A function under verification is executed over values that may contain z3 terms.  Whenever control flow depends on such
a term, `branch` decides it: the solver is asked which outcomes are feasible under the path condition; if both are, the
current run takes one and the other is queued as a decision prefix.  Every path ends in verification conditions passed to
`prove`.  There is no bound on the values; the number of paths is finite because every loop/recursion is either over a
structure of fixed shape or cut by a contract (see induct.py), and a run that exceeds the limits is reported as
incomplete, never as proved.
"""
import time
import z3


class EngineError(BaseException):
    """The engine cannot represent something (never a verdict about the code)."""


class Infeasible(BaseException):
    """The current path is infeasible / has been cut."""


class Incomplete(BaseException):
    """Exploration limits hit."""


class Fail(Exception):
    """The program under test fails (script error / Python exception)."""


P = None  # the current path


class Path:
    def __init__(self, prefix, timeout_ms):
        self.prefix = prefix
        self.decisions = []
        self.pending = []
        self.solver = z3.SolverFor("ALL") if False else z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.pc = []
        self.n = 0
        self.lazy = {}
        self.notes = {}
        self.deadline = None
        self.max_decisions = 4000

    def fresh_name(self, base):
        self.n += 1
        return f"{base}!{self.n}"

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def choose(self, n):
        """Non-deterministic choice among n alternatives (all feasible)."""
        if n <= 1:
            return 0
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for alt in range(n - 1, 0, -1):
                self.pending.append(self.decisions + [alt])
        self.decisions.append(d)
        return d

    def branch(self, c):
        i = len(self.decisions)
        if i > self.max_decisions:
            raise Incomplete("too many decisions on a path")
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            if d in (0, 1):
                self.add(c if d else z3.Not(c))
            else:  # 2/3: forced (already implied) - nothing to add
                d = d - 2
            return bool(d)
        if self.deadline and time.time() > self.deadline:
            raise Incomplete("time limit")
        t = self.solver.check(c)
        if t == z3.unsat:
            self.decisions.append(2)
            return False
        f = self.solver.check(z3.Not(c))
        if f == z3.unsat:
            self.decisions.append(3)
            return True
        self.pending.append(self.decisions + [0])
        self.decisions.append(1)
        self.add(c)
        return True


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def truth(c):
    """Decide a boolean (native or z3) on the current path."""
    if isinstance(c, bool):
        return c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    s = z3.simplify(c)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return P.branch(s)


def assume(c):
    if isinstance(c, bool):
        if not c:
            raise Infeasible()
        return
    P.add(c)


def assume_feasible(c):
    assume(c)
    if P.solver.check() == z3.unsat:
        raise Infeasible()


def choose(n):
    return P.choose(n)


def fresh_int(base="i"):
    return z3.Int(P.fresh_name(base))


def fresh_bool(base="b"):
    return z3.Bool(P.fresh_name(base))


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.backends = {}


STATS = Stats()


class VC:
    """One discharged/undischarged verification condition."""
    __slots__ = ("name", "status", "model", "path", "detail", "backend")

    def __init__(self, name, status, model=None, detail=None, backend="z3"):
        self.name, self.status, self.model, self.detail, self.backend = name, status, model, detail, backend


def check_valid(goal, timeout_ms=20000):
    """Is goal implied by the current path condition? -> ('valid'|'invalid'|'unknown', model, backend)"""
    if isinstance(goal, bool):
        if goal:
            return "valid", None, "trivial"
        t = time.time()
        r = P.solver.check()
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        if r == z3.unsat:
            return "valid", None, "z3"
        return ("invalid", P.solver.model(), "z3") if r == z3.sat else ("unknown", None, "z3")
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "valid", None, "simplify"
    t = time.time()
    s = P.solver
    s.set("timeout", timeout_ms)
    STATS.queries += 1
    from . import vals
    if vals.lia_valid(P.pc, goal) or vals.lia_valid(P.pc, g):
        STATS.solver_s += time.time() - t
        return "valid", None, "z3-lia"
    r = s.check(z3.Not(g))
    res = None
    if r == z3.unsat:
        res = ("valid", None, "z3")
    elif r == z3.sat:
        res = ("invalid", s.model(), "z3")
    else:
        # second configuration: fresh solver, one shot
        s2 = z3.Solver()
        s2.set("timeout", timeout_ms)
        s2.add(*P.pc)
        s2.add(z3.Not(g))
        r = s2.check()
        if r == z3.unsat:
            res = ("valid", None, "z3-oneshot")
        elif r == z3.sat:
            res = ("invalid", s2.model(), "z3-oneshot")
        else:
            res = cvc5_check(P.pc, g, timeout_ms) or ("unknown", None, "z3+cvc5")
    STATS.solver_s += time.time() - t
    STATS.backends[res[2]] = STATS.backends.get(res[2], 0) + 1
    return res


def cvc5_check(pc, g, timeout_ms):
    """Second back end; only 'valid' answers are used."""
    try:
        import cvc5
        s = z3.Solver()
        s.add(*pc)
        s.add(z3.Not(g))
        smt = s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout_ms))
        slv.setOption("strings-exp", "true")
        p = cvc5.InputParser(slv)
        smt = "(set-logic ALL)\n" + smt
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "q")
        sm = p.getSymbolManager()
        last = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            last = c.invoke(slv, sm)
            if "unsat" in str(last):
                return ("valid", None, "cvc5")
    except BaseException:
        return None
    return None


def explore(fn, *, max_paths=2000, time_limit=60.0, timeout_ms=4000, on_path=None):
    """Run fn on every path. fn() may return a value collected with its path. Returns (results, complete, why)."""
    global P
    work = [[]]
    results = []
    deadline = time.time() + time_limit
    complete, why = True, ""
    npaths = 0
    while work:
        if npaths >= max_paths or time.time() > deadline:
            complete, why = False, f"stopped with {len(work)} open paths after {npaths} paths"
            break
        prefix = work.pop()
        P = Path(prefix, timeout_ms)
        P.deadline = deadline + 5
        npaths += 1
        STATS.paths += 1
        try:
            r = fn()
            results.append((P, r))
            if on_path:
                on_path(P, r)
        except Infeasible:
            pass
        except Incomplete as e:
            complete, why = False, str(e)
        work.extend(P.pending)
    return results, complete, why
