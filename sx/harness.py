"""
Harness contexts.

The same harness function runs in two modes: symbolically (inputs are symbolic,
dascore is instrumented) and concretely (inputs from a counterexample or path
witness, dascore is the unmodified package).
"""
from __future__ import annotations

import traceback
from fractions import Fraction

import numpy as np

from . import engine as E


class CheckFailed(Exception):
    """Concrete mode: a property assertion failed."""


class SkipCase(BaseException):
    """Concrete mode: an assumption does not hold."""


SCENARIO_REGISTRY: dict = {}


def scenario(registry, **opts):
    """Register a harness function in a check module's SCENARIOS."""

    def deco(f):
        registry[f.__name__] = (f, opts)
        return f

    return deco


class Ctx:
    """Shared API; see SymCtx and ConcCtx."""

    symbolic = False
    tier = "quick"

    @property
    def thorough(self):
        return self.tier == "thorough"

    def choice(self, name, options):
        options = list(options)
        return options[self.small(name, 0, len(options) - 1)]


class ConcCtx(Ctx):
    """Inputs come from a dict."""

    def __init__(self, inputs):
        self.inputs = inputs
        self.checks = 0

    def _get(self, name, lo=0, hi=1):
        """The input; one the symbolic run never asked for is taken near zero."""
        return int(self.inputs.get(name, min(max(0, int(lo)), int(hi))))

    def small(self, name, lo, hi):
        return self._get(name, lo, hi)

    def int(self, name, lo, hi):
        return self._get(name, lo, hi)

    def npint(self, name, lo, hi):
        return np.int64(self._get(name, lo, hi))

    def flt(self, name, lo, hi, den=4):
        return np.float64(Fraction(self._get(name, lo * den, hi * den), den))

    def pyflt(self, name, lo, hi, den=4):
        return float(Fraction(self._get(name, lo * den, hi * den), den))

    def dt(self, name, lo, hi, unit=1):
        return np.datetime64(self._get(name, lo, hi) * unit, "ns")

    def td(self, name, lo, hi, unit=1):
        return np.timedelta64(self._get(name, lo, hi) * unit, "ns")

    def bool(self, name):
        return bool(self._get(name))

    def assume(self, cond):
        if not bool(cond):
            raise SkipCase

    def check(self, cond, msg):
        self.checks += 1
        if not bool(cond):
            raise CheckFailed(msg)

    def fail(self, msg):
        raise CheckFailed(msg)

    def cover(self, name, cond=True):
        pass

    def raises(self, func, *errors):
        """True when func() raises one of errors."""
        try:
            func()
        except errors:
            return True
        return False

    def arr(self, items, dtype=None):
        return np.array(items, dtype=dtype)

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not bool(x)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def count(self, conds):
        return sum(1 for c in conds if bool(c))


class Violation:
    def __init__(self, scenario, msg, inputs, kind, detail=""):
        self.scenario = scenario
        self.msg = msg
        self.inputs = inputs
        self.kind = kind
        self.detail = detail


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, engine, scenario):
        from . import raw as R, sym
        from .z3load import z3

        self.e = engine
        self.R, self.S, self.z3 = R, sym, z3
        self.scenario = scenario
        self.vars = {}
        self.violations = []
        self.obligations = 0
        self.discharged = 0
        self.unknown = 0
        self.witnesses = []
        self.pins, self.pinned = {}, {}
        from collections import Counter

        self.covers = Counter()

    def cover(self, name, cond=True):
        """Reachability witness: some path must satisfy cond here."""
        if self.covers[name]:
            return
        c = self._b(cond)
        if c is True:
            self.covers[name] += 1
            return
        if self.e._check(self.R.zb(c)) == self.z3.sat:
            self.covers[name] += 1

    def raises(self, func, *errors):
        try:
            func()
        except errors:
            return True
        return False

    def reset(self):
        self.vars = {}

    # --- inputs
    def _var(self, name, lo, hi):
        v = self.z3.Int(name)
        if name in self.vars:
            raise RuntimeError(f"duplicate input {name}")
        self.vars[name] = v
        self.e.assume(self.z3.And(v >= lo, v <= hi))
        return v

    def small(self, name, lo, hi):
        """A concrete integer, all values explored."""
        if name in self.pins:
            if hi >= self.pinned[name]:
                raise RuntimeError(f"the split of {name} leaves out {self.pinned[name]}..{hi}")
            self.vars[name] = self.pins[name]
            return self.pins[name]
        if lo == hi:
            self.vars[name] = lo
            return lo
        v = self._var(name, lo, hi)
        return self.e.choose(v).as_long()

    def int(self, name, lo, hi):
        return self.S.SymScalar(self._var(name, lo, hi), self.R.I8, int)

    def npint(self, name, lo, hi):
        return self.S.SymScalar(self._var(name, lo, hi), self.R.I8)

    def flt(self, name, lo, hi, den=4):
        """A float lo..hi on the grid 1/den (lo, hi in units of value)."""
        v = self._var(name, int(lo * den), int(hi * den))
        return self.S.SymScalar(self.R.Rat(v, den), self.R.F8)

    def pyflt(self, name, lo, hi, den=4):
        v = self._var(name, int(lo * den), int(hi * den))
        return self.S.SymScalar(self.R.Rat(v, den), self.R.F8, float)

    def dt(self, name, lo, hi, unit=1):
        v = self._var(name, lo, hi)
        return self.S.SymScalar(v * unit if unit != 1 else v, self.R.DT_NS)

    def td(self, name, lo, hi, unit=1):
        v = self._var(name, lo, hi)
        return self.S.SymScalar(v * unit if unit != 1 else v, self.R.TD_NS)

    def bool(self, name):
        return bool(self.small(name, 0, 1))

    def arr(self, items, dtype=None):
        items = list(items)
        if self.S.has_sym(items):
            return self.S.sym_from_nested(items, dtype)
        return np.array(items, dtype=dtype)

    # --- logic
    def _b(self, x):
        if type(x) is self.S.SymScalar:
            return x.raw if x.dtype.kind == "b" else bool(x)
        if type(x) is self.S.SymArray:
            return self._b(x.all() if x.size != 1 else x._one())
        if isinstance(x, self.z3.ExprRef):
            return x
        return bool(x)

    def _w(self, r):
        return self.S.mk_scalar(r, self.R.B1, bool)

    def And(self, *xs):
        acc = True
        for x in xs:
            acc = self.R.b_and(acc, self._b(x))
        return self._w(acc)

    def Or(self, *xs):
        acc = False
        for x in xs:
            acc = self.R.b_or(acc, self._b(x))
        return self._w(acc)

    def Not(self, x):
        return self._w(self.R.b_not(self._b(x)))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self._w(self.R.b_eq(self._b(a), self._b(b)))

    def ite(self, c, a, b):
        return self.S.array_function(np.where, (self._w(self._b(c)) if not isinstance(self._b(c), bool) else self._b(c), a, b), {}) if not isinstance(self._b(c), bool) else (a if self._b(c) else b)

    def count(self, conds):
        acc = 0
        for c in conds:
            acc = acc + self.R.b2i(self._b(c))
        return self.S.mk_scalar(self.R.si(acc), self.R.I8, int)

    # --- assertions
    def assume(self, cond):
        self.e.assume(self.R.zb(self._b(cond)))

    def _inputs(self, model):
        out = {}
        for k, v in self.vars.items():
            out[k] = v if isinstance(v, int) else model.eval(v, model_completion=True).as_long()
        return out

    def check(self, cond, msg):
        c = self._b(cond)

        def decide():
            r, model = self.e.prove(c)
            return r, (self._inputs(model) if r == "cex" else None)

        (r, inputs), fresh = self.e.memo(decide)
        if fresh:
            self.obligations += 1
            if r == "valid":
                self.discharged += 1
            elif r == "unknown":
                self.unknown += 1
            else:
                self.violations.append(Violation(self.scenario, msg, inputs, "assert"))
        if r == "cex":
            # continue on the part of the path where the condition holds
            self.e.assume(self.R.zb(c))

    def fail(self, msg):
        self.check(False, msg)
        raise E.PathAbort

    def unexpected(self, exc):
        """An exception escaped the harness."""
        m = self.e.path_model()
        if m is None:
            return
        tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
        self.violations.append(
            Violation(self.scenario, f"unexpected {type(exc).__name__}: {str(exc)[:300]}", self._inputs(m), "exception", "".join(tb)[-3000:])
        )
