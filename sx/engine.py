"""
Path exploration by re-execution.

A harness is a deterministic Python function.  Symbolic branch conditions reach
`Engine.branch`; the engine asks z3 which sides are feasible under the current
path condition, follows one, and revisits the other on a later run.  A trail of
decisions (mirrored by the push/pop stack of one incremental solver) drives the
re-execution.  A path ends when the harness returns; the run is complete when
the trail is exhausted.
"""
from __future__ import annotations

import time
from collections import Counter

from .z3load import z3

ENGINE = None  # the active engine (one per process), or None in concrete mode


def eng():
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e


class PathAbort(BaseException):
    """The current path is infeasible or was cut; not an error."""


class BudgetExceeded(BaseException):
    """Time or path budget ran out."""


class Diverged(BaseException):
    """Re-execution did not follow the recorded trail."""


class _Dec:
    __slots__ = ("kind", "cond", "value", "alt", "tried", "pushed")

    def __init__(self, kind, cond, value, alt, pushed, tried=None):
        self.kind = kind
        self.cond = cond
        self.value = value
        self.alt = alt
        self.pushed = pushed
        self.tried = tried


class Engine:
    """Depth-first exploration of the paths of one scenario."""

    def __init__(self, query_ms=20000, deadline=None, max_paths=None, choose_limit=48):
        self.solver = z3.SolverFor("QF_NIA") if False else z3.Solver()
        self.solver.set("timeout", query_ms)
        self.query_ms = query_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.choose_limit = choose_limit
        self.trail: list[_Dec] = []
        self.pos = 0
        self.stats = Counter()
        self.solver_s = 0.0
        self.incomplete: Counter = Counter()
        self.sites: Counter = Counter()
        self.functions: set = set()
        self.names: dict = {}
        self.last_model = None

    # ---- solver
    def _check(self, *assumptions):
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded("deadline")
        t = time.time()
        r = self.solver.check(*assumptions)
        if r == z3.unknown:
            # one more try with a fresh solver (no incremental state)
            s = z3.Solver()
            s.set("timeout", self.query_ms)
            s.add(*self.solver.assertions())
            s.add(*assumptions)
            r = s.check()
            self.stats["fresh_retry"] += 1
            if r == z3.sat:
                self.last_model = s.model()
        elif r == z3.sat:
            self.last_model = self.solver.model()
        self.solver_s += time.time() - t
        self.stats["queries"] += 1
        self.stats["q_" + str(r)] += 1
        return r

    # ---- decisions
    def _next(self, kind):
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != kind:
                raise Diverged(f"{d.kind} vs {kind}")
            self.pos += 1
            return d
        return None

    def _append(self, d):
        self.trail.append(d)
        self.pos += 1

    def branch(self, cond) -> bool:
        """Decide a boolean condition, forking when both sides are feasible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        d = self._next("b")
        if d is not None:
            if not d.cond.eq(cond):
                raise Diverged(f"branch {d.cond} vs {cond}")
            return d.value
        rt = self._check(cond)
        rf = self._check(z3.Not(cond))
        if z3.unknown in (rt, rf):
            self.incomplete["unknown-branch"] += 1
        can_t, can_f = rt != z3.unsat, rf != z3.unsat
        if not can_t and not can_f:
            raise PathAbort
        if can_t and can_f:
            self.stats["forks"] += 1
            self.solver.push()
            self.solver.add(cond)
            self._append(_Dec("b", cond, True, True, True))
            return True
        self._append(_Dec("b", cond, can_t, False, False))
        return can_t

    def assume(self, cond):
        """Restrict the path; abort it when infeasible."""
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort
        d = self._next("a")
        if d is not None:
            if not d.cond.eq(cond):
                raise Diverged(f"assume {d.cond} vs {cond}")
            return
        self.solver.push()
        self.solver.add(cond)
        self._append(_Dec("a", cond, True, False, True))
        if self._check() == z3.unsat:
            raise PathAbort

    def choose(self, expr):
        """Return a concrete value for an integer/real expression, forking over all."""
        d = self._next("c")
        if d is not None:
            if not d.cond.eq(expr):
                raise Diverged(f"choose {d.cond} vs {expr}")
            if d.value is None:  # needs a new value
                self._choose_value(d)
            return d.value
        d = _Dec("c", expr, None, True, False, [])
        self._append(d)
        self._choose_value(d)
        return d.value

    def memo(self, func):
        """A value computed with the solver; recorded so re-execution sees the same one."""
        d = self._next("g")
        if d is not None:
            return d.value, False
        v = func()
        self._append(_Dec("g", None, v, False, False))
        return v, True

    def guess(self, func):
        """A value computed from some model of the path."""

        def get():
            if self._check() != z3.sat:
                return None
            return func(self.last_model)

        v, _ = self.memo(get)
        if v is None:
            raise PathAbort
        return v

    def _choose_value(self, d):
        r = self._check(*[d.cond != t for t in d.tried]) if d.tried else self._check()
        if r == z3.unsat:
            d.alt = False
            raise PathAbort
        if r == z3.unknown:
            self.incomplete["unknown-choose"] += 1
            d.alt = False
            raise PathAbort
        v = self.last_model.eval(d.cond, model_completion=True)
        self.solver.push()
        self.solver.add(d.cond == v)
        d.pushed = True
        d.tried.append(v)
        d.value = v
        if len(d.tried) >= self.choose_limit:
            d.alt = False
            self.incomplete["choose-limit"] += 1

    def _backtrack(self) -> bool:
        while self.trail:
            d = self.trail[-1]
            if d.alt:
                if d.pushed:
                    self.solver.pop()
                if d.kind == "b":
                    d.value = False
                    d.alt = False
                    self.solver.push()
                    self.solver.add(z3.Not(d.cond))
                    d.pushed = True
                else:
                    d.value = None
                    d.pushed = False
                    try:
                        self._choose_value(d)
                    except PathAbort:
                        continue
                return True
            if d.pushed:
                self.solver.pop()
            self.trail.pop()
        return False

    def explore(self, body, on_path_end=None):
        """Run body over every path."""
        prev = ENGINE
        set_engine(self)
        complete = False
        try:
            while True:
                self.pos = 0
                self.names = {}
                ok = True
                try:
                    body()
                except PathAbort:
                    self.stats["aborted"] += 1
                    ok = False
                except Diverged as e:
                    self.incomplete["diverged"] += 1
                    self.sites[f"diverged: {str(e)[:200]}"] += 1
                    ok = False
                    # drop everything below the divergence point
                    while len(self.trail) > self.pos:
                        d = self.trail.pop()
                        if d.pushed:
                            self.solver.pop()
                if ok:
                    self.stats["paths"] += 1
                    if on_path_end:
                        on_path_end()
                if not self._backtrack():
                    complete = True
                    break
                if self.max_paths and self.stats["paths"] >= self.max_paths:
                    self.incomplete["max-paths"] += 1
                    break
                if self.deadline and time.time() > self.deadline:
                    self.incomplete["deadline"] += 1
                    break
        except BudgetExceeded:
            self.incomplete["deadline"] += 1
        finally:
            set_engine(prev)
        return complete and not self.incomplete

    # ---- property queries
    def prove(self, cond):
        """Return ('valid'|'cex'|'unknown', model)."""
        if isinstance(cond, bool):
            if cond:
                return "valid", None
            r = self._check()
            if r == z3.sat:
                return "cex", self.last_model
            return ("valid" if r == z3.unsat else "unknown"), None
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return "valid", None
        r = self._check(z3.Not(cond))
        if r == z3.unsat:
            return "valid", None
        if r == z3.sat:
            return "cex", self.last_model
        return "unknown", None

    def path_model(self):
        r = self._check()
        return self.last_model if r == z3.sat else None
