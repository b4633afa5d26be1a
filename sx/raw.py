"""
Raw symbolic numbers.

kind   raw representation
 b     bool | z3.BoolRef
 i     int  | z3 Int
 M, m  int nanoseconds | z3 Int | NAT
 f     Fraction | Rat (z3 Int over a constant denominator) | z3 Real | float nan/inf
 c     Cx(re, im), two f raws
Floats are exact rationals; the bounds under which this is faithful are stated
per property.
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

from . import engine as E
from .z3load import z3


class _Nat:
    def __repr__(self):
        return "NAT"


NAT = _Nat()
NAN = float("nan")


class Unsupported(Exception):
    """Raised when an operation has no symbolic model (caller concretises)."""


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_symraw(x):
    if isinstance(x, Cx):
        return is_symraw(x.re) or is_symraw(x.im)
    return isinstance(x, (Rat, Quot)) or isinstance(x, z3.ExprRef)


def special(x):
    return isinstance(x, float)


class Rat:
    """num / den with num a z3 Int expression and den a positive int."""

    __slots__ = ("num", "den")

    def __init__(self, num, den):
        self.num = num
        self.den = den

    def __repr__(self):
        return f"Rat({self.num}/{self.den})"


class Cx:
    """A complex number with two f raws."""

    __slots__ = ("im", "re")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return f"Cx({self.re}, {self.im})"


def c_add(a, b):
    return Cx(f_add(a.re, b.re), f_add(a.im, b.im))


def c_neg(a):
    return Cx(f_neg(a.re), f_neg(a.im))


def c_mul(a, b):
    return Cx(f_sub(f_mul(a.re, b.re), f_mul(a.im, b.im)), f_add(f_mul(a.re, b.im), f_mul(a.im, b.re)))


def c_conj(a):
    return Cx(a.re, f_neg(a.im))


def c_div(a, b):
    n = f_add(f_mul(b.re, b.re), f_mul(b.im, b.im))
    p = c_mul(a, c_conj(b))
    return Cx(f_div(p.re, n), f_div(p.im, n))


def c_abs(a):
    """Modulus, where one part is zero or both are multiples of one value."""
    for x, y in ((a.re, a.im), (a.im, a.re)):
        if isinstance(y, Fraction) and y == 0:
            return x if not isinstance(x, Fraction) and special(x) else f_ite(f_cmp("ge", x, Fraction(0)), x, f_neg(x))
    if isinstance(a.re, Fraction) and isinstance(a.im, Fraction):
        return from_float(math.hypot(a.re, a.im))
    if isinstance(a.re, Rat) and isinstance(a.im, Rat):
        k = linear_ratio(a.im, a.re)
        if k is not None:
            m = f_ite(f_cmp("ge", a.re, Fraction(0)), a.re, f_neg(a.re))
            return f_mul(m, Fraction(math.hypot(1.0, k)))
    raise Unsupported("modulus of a complex value")


def linear_ratio(x, y):
    """The constant k with x = k * y, where both are multiples of one Int variable."""

    def term(r):
        e = r.num
        if z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
            return Fraction(e.arg(0).as_long(), r.den), e.arg(1)
        return Fraction(1, r.den), e

    (k1, v1), (k2, v2) = term(x), term(y)
    if not v1.eq(v2) or not z3.is_const(v1):
        return None
    return k1 / k2


def f_sqrt(a):
    """Square root, of numbers and of multiples of one squared value."""
    if isinstance(a, Fraction):
        return from_float(math.sqrt(a)) if a >= 0 else NAN
    if special(a):
        return from_float(math.sqrt(a)) if not a < 0 else NAN
    if isinstance(a, Rat):
        e = z3.simplify(a.num, som=True)
        args, todo = [], [e]
        while todo:
            t = todo.pop(0)
            if z3.is_mul(t):
                todo = t.children() + todo
            elif t.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 2:
                args += [t.arg(0)] * 2
            else:
                args.append(t)
        c = 1
        if args and z3.is_int_value(args[0]):
            c = args.pop(0).as_long()
        if c >= 0 and len(args) == 2 and args[0].eq(args[1]):
            v = mkrat(args[0], 1)
            return f_mul(f_ite(f_cmp("ge", v, Fraction(0)), v, f_neg(v)), Fraction(math.sqrt(Fraction(c, a.den))))
    raise Unsupported("square root")


class Quot:
    """num / den, both z3 Int expressions, den > 0 on this path."""

    __slots__ = ("num", "den")

    def __init__(self, num, den):
        self.num = num
        self.den = den

    def __repr__(self):
        return f"Quot({self.num} / {self.den})"

    def real(self):
        return z3.ToReal(zi(self.num)) / z3.ToReal(self.den)


def mkquot(num, den):
    """num / den with den a non-zero Int expression; constant ratios collapse."""
    e = E.eng()
    num, den = si(num), si(den)
    if isinstance(den, int):
        return mkrat(num, den) if not isinstance(num, int) else Fraction(num, den)
    if isinstance(num, int) and num == 0:
        return Fraction(0)
    # is the ratio constant on this path?  guess it from a model, then prove it
    k = _const_ratio(num, den)
    if k is not None:
        return k
    if not e.branch(den > 0):
        num, den = si(-zi(num)), si(-den)
    return Quot(num, den)


def _const_ratio(num, den):
    e = E.eng()

    def get():
        if e._check() != z3.sat:
            return None
        m = e.last_model
        nv, dv = m.eval(zi(num), model_completion=True), m.eval(den, model_completion=True)
        if not (z3.is_int_value(nv) and z3.is_int_value(dv)) or dv.as_long() == 0:
            return None
        k = Fraction(nv.as_long(), dv.as_long())
        if e._check(zi(num) * k.denominator != den * k.numerator) == z3.unsat:
            return k
        return None

    return e.memo(get)[0]


def q_floor(q):
    """Concrete floor of a quotient; forks over its possible values."""
    e = E.eng()
    for _ in range(e.choose_limit):
        k = e.guess(lambda m: m.eval(zi(q.num), model_completion=True).as_long() // m.eval(q.den, model_completion=True).as_long())
        if e.branch(z3.And(q.den * k <= zi(q.num), zi(q.num) < q.den * (k + 1))):
            return k
    e.incomplete["quotient-limit"] += 1
    raise E.PathAbort


def si(e):
    """Simplify an Int expression."""
    if isinstance(e, z3.ExprRef):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
    return e


def sb(e):
    if isinstance(e, z3.ExprRef):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return e
    return bool(e)


def mkrat(num, den):
    num = si(num)
    if isinstance(num, int):
        return Fraction(num, den)
    if den < 0:
        num, den = si(-num), -den
    return Rat(num, den)


def sr(e):
    if isinstance(e, z3.ExprRef):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return e


def to_real(x):
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    if isinstance(x, Rat):
        r = z3.ToReal(x.num)
        return r if x.den == 1 else r / x.den
    if isinstance(x, Quot):
        return x.real()
    return x


def fparts(x):
    """(num, den) of Fraction or Rat."""
    if isinstance(x, Fraction):
        return x.numerator, x.denominator
    return x.num, x.den


def from_float(v):
    v = float(v)
    if math.isnan(v) or math.isinf(v):
        return v
    return Fraction(v)


def _isreal(*xs):
    return any(is_z3(x) or isinstance(x, Quot) for x in xs)


def _quot_const(a, b):
    """(quotient, constant, swapped) when one is a Quot and the other a Fraction."""
    if isinstance(a, Quot) and isinstance(b, Fraction):
        return a, b, False
    if isinstance(b, Quot) and isinstance(a, Fraction):
        return b, a, True
    return None


# ---------------------------------------------------------------- booleans
def b_and(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return sb(z3.And(a, b))


def b_or(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return sb(z3.Or(a, b))


def b_not(a):
    return (not a) if isinstance(a, bool) else sb(z3.Not(a))


def b_xor(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    return sb(z3.Xor(zb(a), zb(b)))


def zb(a):
    return z3.BoolVal(a) if isinstance(a, bool) else a


def b_eq(a, b):
    return b_not(b_xor(a, b))


def b2i(a):
    if isinstance(a, bool):
        return int(a)
    return z3.If(a, z3.IntVal(1), z3.IntVal(0))


# ---------------------------------------------------------------- ints
def zi(a):
    return z3.IntVal(a) if isinstance(a, int) else a


def i_floordiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b if b else 0
    if isinstance(b, int):
        if b == 0:
            return 0
        if b > 0:
            return si(zi(a) / b)
        return si((-zi(a)) / (-b))
    if E.eng().branch(zi(b) == 0):
        return 0
    return si(z3.If(b > 0, zi(a) / b, (-zi(a)) / (-b)))


def i_truncdiv(a, b):
    """C-style integer division."""
    q = i_floordiv(i_abs(a), i_abs(b))
    neg = b_xor(i_cmp("lt", a, 0), i_cmp("lt", b, 0))
    return i_ite(neg, si(-q), q)


def i_mod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b if b else 0
    if isinstance(b, int) and b > 0:
        return si(zi(a) % b)
    q = i_floordiv(a, b)
    return si(zi(a) - q * b)


def i_abs(a):
    if isinstance(a, int):
        return abs(a)
    return si(z3.If(a >= 0, a, -a))


def i_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return si(z3.If(c, zi(a), zi(b)))


_CMP = {
    "lt": lambda a, b: a < b,
    "le": lambda a, b: a <= b,
    "gt": lambda a, b: a > b,
    "ge": lambda a, b: a >= b,
    "eq": lambda a, b: a == b,
    "ne": lambda a, b: a != b,
}


def i_cmp(op, a, b):
    return sb(_CMP[op](a, b))


def t_cmp(op, a, b):
    """Compare M/m raws, with NaT."""
    if a is NAT or b is NAT:
        return op == "ne"
    return i_cmp(op, a, b)


# ---------------------------------------------------------------- floats
def _npf(x):
    return np.float64(x) if isinstance(x, float) else None


def _spec2(op, a, b):
    """Handle nan/inf where at least one operand is special."""
    if special(a) and math.isnan(a) or special(b) and math.isnan(b):
        return NAN
    # use sign-only stand-ins for symbolic operands
    def val(x):
        if special(x):
            return np.float64(x)
        if isinstance(x, Fraction):
            return np.float64(float(x))
        return None

    va, vb = val(a), val(b)
    if va is not None and vb is not None:
        with np.errstate(all="ignore"):
            r = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.true_divide}[op](va, vb)
        return from_float(r)
    if op in ("add", "sub"):
        if va is not None:
            return float(va)
        return float(vb) if op == "add" else -float(vb)
    # mul/div with a symbolic operand: need its sign
    sym = a if va is None else b
    e = E.eng()
    if op == "div" and va is None:
        return Fraction(0)  # finite / inf
    sgn = 0
    if e.branch(zb(f_cmp("gt", sym, Fraction(0)))):
        sgn = 1
    elif e.branch(zb(f_cmp("lt", sym, Fraction(0)))):
        sgn = -1
    with np.errstate(all="ignore"):
        if op == "mul":
            r = (vb if va is None else va) * np.float64(sgn)
        else:
            r = va / np.float64(sgn)
    return from_float(r)


def f_add(a, b):
    if special(a) or special(b):
        return _spec2("add", a, b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    if qc := _quot_const(a, b):
        q, c, _ = qc
        return mkquot(zi(q.num) * c.denominator + q.den * c.numerator, q.den * c.denominator)
    if _isreal(a, b):
        return sr(to_real(a) + to_real(b))
    (n1, d1), (n2, d2) = fparts(a), fparts(b)
    l = math.lcm(d1, d2)
    return mkrat(n1 * (l // d1) + n2 * (l // d2), l)


def f_neg(a):
    if special(a) or isinstance(a, Fraction):
        return -a
    if isinstance(a, Rat):
        return mkrat(-a.num, a.den)
    if isinstance(a, Quot):
        return Quot(si(-zi(a.num)), a.den)
    return sr(-a)


def f_sub(a, b):
    if special(a) or special(b):
        return _spec2("sub", a, b)
    return f_add(a, f_neg(b))


def f_mul(a, b):
    if special(a) or special(b):
        return _spec2("mul", a, b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    if qc := _quot_const(a, b):
        q, c, _ = qc
        if c == 0:
            return Fraction(0)
        return Quot(si(zi(q.num) * c.numerator), si(q.den * c.denominator))
    for q, r in ((a, b), (b, a)):
        if isinstance(q, Quot) and isinstance(r, Rat):
            k = _const_ratio(r.num, q.den)
            if k is not None:  # (num / den) * (k * den)
                return f_mul(mkrat(q.num, 1) if not isinstance(q.num, int) else Fraction(q.num), k / r.den)
    if _isreal(a, b):
        return sr(to_real(a) * to_real(b))
    (n1, d1), (n2, d2) = fparts(a), fparts(b)
    if isinstance(n1, int):
        g = math.gcd(n1, d2)
        if g:
            n1, d2 = n1 // g, d2 // g
    elif isinstance(n2, int):
        g = math.gcd(n2, d1)
        if g:
            n2, d1 = n2 // g, d1 // g
    return mkrat(n1 * n2, d1 * d2)


def f_div(a, b):
    if special(a) or special(b):
        return _spec2("div", a, b)
    if isinstance(b, Fraction):
        if b == 0:
            e = E.eng()
            if isinstance(a, Fraction):
                return NAN if a == 0 else math.copysign(math.inf, a)
            if e.branch(zb(f_cmp("gt", a, Fraction(0)))):
                return math.inf
            return -math.inf if e.branch(zb(f_cmp("lt", a, Fraction(0)))) else NAN
        return f_mul(a, 1 / b)
    if E.eng().branch(zb(f_cmp("eq", b, Fraction(0)))):
        return f_div(a, Fraction(0))
    # identical numerators: common in normalisation, (x / x)
    if isinstance(b, Rat) and isinstance(a, (Rat, Fraction)):
        if isinstance(a, Rat) and a.num.eq(b.num):
            return Fraction(b.den, a.den)
        n1, d1 = fparts(a)
        g = math.gcd(d1, b.den)
        return mkquot(n1 * (b.den // g), b.num * (d1 // g))
    return sr(to_real(a) / to_real(b))


def f_cmp(op, a, b):
    if special(a) or special(b):
        if (special(a) and math.isnan(a)) or (special(b) and math.isnan(b)):
            return op == "ne"
        fa = a if special(a) else 0.0
        fb = b if special(b) else 0.0
        return bool(_CMP[op](fa, fb))
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return _CMP[op](a, b)
    if qc := _quot_const(a, b):
        q, c, swap = qc
        l, r = zi(q.num) * c.denominator, q.den * c.numerator
        return sb(_CMP[op](r, l) if swap else _CMP[op](l, r))
    if isinstance(a, Quot) and isinstance(b, Quot) and a.den.eq(b.den):
        return sb(_CMP[op](zi(a.num), zi(b.num)))
    if _isreal(a, b):
        return sb(_CMP[op](to_real(a), to_real(b)))
    (n1, d1), (n2, d2) = fparts(a), fparts(b)
    l = math.lcm(d1, d2)
    return sb(_CMP[op](n1 * (l // d1), n2 * (l // d2)))


def f_floor(a):
    """Return int raw."""
    if isinstance(a, Fraction):
        return math.floor(a)
    if isinstance(a, Rat):
        return i_floordiv(a.num, a.den)
    if isinstance(a, Quot):
        return q_floor(a)
    return si(z3.ToInt(a))


def f_ceil(a):
    if isinstance(a, Fraction):
        return math.ceil(a)
    if isinstance(a, Rat):
        return si(-i_floordiv(si(-a.num), a.den))
    if isinstance(a, Quot):
        return -q_floor(f_neg(a))
    return si(-z3.ToInt(-a))


def f_trunc(a):
    if isinstance(a, Fraction):
        return math.trunc(a)
    return i_ite(f_cmp("ge", a, Fraction(0)), f_floor(a), f_ceil(a))


def f_rint(a):
    """Round half to even; int raw."""
    if isinstance(a, Fraction):
        return round(a)
    fl = f_floor(a)
    frac2 = f_mul(f_sub(a, i2f(fl)), Fraction(2))
    even = i_cmp("eq", i_mod(fl, 2), 0)
    up = b_or(f_cmp("gt", frac2, Fraction(1)), b_and(f_cmp("eq", frac2, Fraction(1)), b_not(even)))
    return i_ite(up, si(zi(fl) + 1), fl)


def f_round(a, decimals=0):
    """Round half to even at decimals; float raw."""
    if special(a):
        return a
    p = Fraction(10) ** decimals
    return f_div(i2f(f_rint(f_mul(a, p))), p)


def i2f(a):
    return Fraction(a) if isinstance(a, int) else mkrat(a, 1)


def f_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if special(a) or special(b):
        return a if E.eng().branch(c) else b
    if isinstance(a, Fraction) and isinstance(b, Fraction) and a == b:
        return a
    if isinstance(a, Quot) or isinstance(b, Quot):
        return a if E.eng().branch(c) else b
    if _isreal(a, b):
        return sr(z3.If(c, to_real(a), to_real(b)))
    (n1, d1), (n2, d2) = fparts(a), fparts(b)
    l = math.lcm(d1, d2)
    return mkrat(z3.If(c, zi(n1 * (l // d1)), zi(n2 * (l // d2))), l)


def ite(c, a, b, kind):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if kind == "f":
        return f_ite(c, a, b)
    if kind == "c":
        return Cx(f_ite(c, a.re, b.re), f_ite(c, a.im, b.im))
    if kind == "b":
        return sb(z3.If(c, zb(a), zb(b)))
    if kind in "iuMm":
        if a is NAT or b is NAT:
            return a if E.eng().branch(c) else b
        return i_ite(c, a, b)
    return a if E.eng().branch(c) else b  # strings, objects


# ---------------------------------------------------------------- generic
def cmp(op, kind, a, b):
    if kind == "f":
        return f_cmp(op, a, b)
    if kind == "c":
        same = b_and(f_cmp("eq", a.re, b.re), f_cmp("eq", a.im, b.im))
        if op in ("eq", "ne"):
            return same if op == "eq" else b_not(same)
        raise Unsupported("ordering complex values")
    if kind == "b":
        return cmp(op, "i", b2i(a), b2i(b))
    if kind in "Mm":
        return t_cmp(op, a, b)
    if kind in "iu":
        return i_cmp(op, a, b)
    return bool(_CMP[op](a, b))


_UNIT_NS = {"ns": 1, "us": 10**3, "ms": 10**6, "s": 10**9, "m": 60 * 10**9, "h": 3600 * 10**9, "D": 86400 * 10**9, "W": 7 * 86400 * 10**9}
DT_NS = np.dtype("datetime64[ns]")
TD_NS = np.dtype("timedelta64[ns]")
F8 = np.dtype(float)
C16 = np.dtype(complex)
I8 = np.dtype(np.int64)
B1 = np.dtype(bool)
NPNAT = np.iinfo(np.int64).min


def conc_raw(val, dtype):
    """Raw of a concrete numpy scalar/python value under dtype."""
    k = dtype.kind
    if k in "Mm":
        v = np.asarray(val)
        if np.isnat(v):
            return NAT
        return int(v.astype(DT_NS if k == "M" else TD_NS).astype(np.int64))
    if k == "f":
        return from_float(val)
    if k == "c":
        return Cx(from_float(val.real), from_float(val.imag))
    if k in "iu":
        return int(val)
    if k == "b":
        return bool(val)
    return val


def raw_to_np(raw, dtype):
    """Concrete raw -> numpy scalar."""
    k = dtype.kind
    if k == "M":
        return np.datetime64("NaT", "ns") if raw is NAT else np.datetime64(int(raw), "ns")
    if k == "m":
        return np.timedelta64("NaT", "ns") if raw is NAT else np.timedelta64(int(raw), "ns")
    if k == "f":
        return dtype.type(float(raw))
    if k == "c":
        return dtype.type(complex(float(raw.re), float(raw.im)))
    if k in "iu":
        return dtype.type(int(raw))
    if k == "b":
        return np.bool_(raw)
    return raw


def cast_raw(raw, kf, kt):
    """Cast raw between kinds (numpy astype semantics)."""
    kf = "i" if kf == "u" else kf
    kt = "i" if kt == "u" else kt
    if kf == kt:
        return raw
    if kt == "c":
        return Cx(cast_raw(raw, kf, "f"), Fraction(0))
    if kf == "c":
        if kt == "b":
            return b_or(f_cmp("ne", raw.re, Fraction(0)), f_cmp("ne", raw.im, Fraction(0)))
        return cast_raw(raw.re, "f", kt)
    if kf == "b":
        raw = b2i(raw)
        kf = "i"
        if kt == "i":
            return raw
    if kf in "Mm":
        if raw is NAT:
            if kt == "f":
                return NAN if False else Fraction(NPNAT)
            if kt in "Mm":
                return NAT
            return True if kt == "b" else NPNAT
        kf = "i"
        if kt == "i" or kt in "Mm":
            return raw
    if kt == "f":
        return i2f(raw)
    if kt == "b":
        return i_cmp("ne", raw, 0) if kf == "i" else f_cmp("ne", raw, Fraction(0))
    if kf == "f":
        if special(raw):
            if kt in "Mm":
                return NAT
            return NPNAT
        return f_trunc(raw)
    if kf == "i" and kt in "Mm":
        return NAT if isinstance(raw, int) and raw == NPNAT else raw
    raise Unsupported(f"cast {kf}->{kt}")


def concretize(raw, kind):
    """Force a concrete raw via the engine."""
    if isinstance(raw, Cx):
        return Cx(concretize(raw.re, "f"), concretize(raw.im, "f"))
    if isinstance(raw, Rat):
        v = E.eng().choose(raw.num)
        return Fraction(v.as_long(), raw.den)
    if isinstance(raw, Quot):
        d = E.eng().choose(raw.den).as_long()
        n = raw.num if isinstance(raw.num, int) else E.eng().choose(raw.num).as_long()
        return Fraction(n, d)
    if isinstance(raw, z3.BoolRef):
        return E.eng().branch(raw)
    if is_z3(raw):
        v = E.eng().choose(raw)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        v = v.approx(20)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return raw


def lincomb(const, raws, coefs):
    """const + sum of coefs[i] * raws[i] (Fractions times f raws)."""
    den = const.denominator
    terms = []
    for r, c in zip(raws, coefs):
        if c == 0:
            continue
        if isinstance(r, Fraction):
            const = const + r * c
            den = math.lcm(den, const.denominator)
        elif isinstance(r, Rat):
            c = c / r.den
            terms.append((r.num, c))
            den = math.lcm(den, c.denominator)
        else:
            raise Unsupported("linear combination")
    den = math.lcm(den, const.denominator)
    if not terms:
        return const
    num = z3.Sum([z3.IntVal(int(const * den))] + [n * int(c * den) for n, c in terms])
    return mkrat(num, den)
