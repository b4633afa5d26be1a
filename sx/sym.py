"""Symbolic scalars and arrays that stand in for numpy values inside dascore."""
from __future__ import annotations

import datetime
import math
import sys
from fractions import Fraction

import numpy as np
import pandas as pd

from . import engine as E
from . import raw as R
from .raw import B1, DT_NS, F8, I8, NAT, TD_NS, Unsupported
from .z3load import z3


def _site(skip=2):
    f = sys._getframe(skip)
    while f is not None:
        fn = f.f_code.co_filename
        if "/dascore/" in fn or "/checks/" in fn:
            return f"{fn.split('/dascore/')[-1].split('/verif/')[-1]}:{f.f_lineno}:{f.f_code.co_name}"
        f = f.f_back
    return "?"


def note_concretize(why):
    e = E.eng()
    if e is not None:
        e.stats["concretisations"] += 1
        e.sites[f"concretise[{why}] {_site(3)}"] += 1


_KIND_CLS = {"i": np.int64, "u": np.uint64, "f": np.float64, "M": np.datetime64, "m": np.timedelta64, "b": np.bool_, "c": np.complex128}
_PY_CLS = {"i": int, "f": float, "b": bool, "c": complex}


def is_sym(x):
    t = type(x)
    return t is SymScalar or t is SymArray


def has_sym(x, depth=3):
    t = type(x)
    if t is SymScalar or t is SymArray:
        return True
    if depth and (t is list or t is tuple or t is set):
        return any(has_sym(y, depth - 1) for y in x)
    if t is slice:
        return has_sym(x.start, 0) or has_sym(x.stop, 0) or has_sym(x.step, 0)
    if depth and t is dict:
        return any(has_sym(y, depth - 1) for y in x.values())
    if t is np.ndarray and x.dtype == object and x.size < 4096:
        return any(has_sym(y, 0) for y in x.ravel())
    return False


def mk_scalar(raw, dtype, cls=None):
    """Scalar of dtype; concrete raws give real numpy (or python) scalars."""
    if not R.is_symraw(raw):
        if cls in (int, float, bool):
            return cls(raw)
        if cls is complex:
            return complex(float(raw.re), float(raw.im))
        if cls is pd.Timestamp or cls is pd.Timedelta:
            return cls(R.raw_to_np(raw, dtype))
        return R.raw_to_np(raw, dtype)
    return SymScalar(raw, dtype, cls)


class SymScalar:
    """A symbolic numpy/python scalar."""

    __slots__ = ("raw", "dtype", "_cls")
    __array_priority__ = 10**6

    def __init__(self, raw, dtype, cls=None):
        self.raw = raw
        self.dtype = dtype
        self._cls = cls

    @property
    def __class__(self):
        return self._cls or _KIND_CLS[self.dtype.kind]

    # --- basic numpy scalar surface
    shape = ()
    ndim = 0
    size = 1
    itemsize = 8

    @property
    def kind(self):
        return self.dtype.kind

    @property
    def T(self):
        return self

    @property
    def real(self):
        return mk_scalar(self.raw.re, F8) if self.kind == "c" else self

    @property
    def imag(self):
        return mk_scalar(self.raw.im, F8) if self.kind == "c" else mk_scalar(R.cast_raw(0, "i", self.kind), self.dtype)

    @property
    def value(self):  # pandas Timestamp.value
        return SymScalar(self.raw, I8, int)

    def __repr__(self):
        return f"<sym {self.dtype}>"

    __str__ = __repr__

    def __format__(self, spec):
        return fmt_token(self, spec)

    def item(self):
        if self.kind in "Mm":
            return SymScalar(self.raw, I8, int)
        return SymScalar(self.raw, self.dtype, _PY_CLS[self.kind])

    def tolist(self):
        return self.item()

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling symbolic value")

    def astype(self, dtype, **kw):
        return _cast_any(self, np.dtype(dtype))

    def view(self, dtype):
        dtype = np.dtype(dtype)
        return mk_scalar(_view_raw(self.raw, self.kind, dtype.kind), dtype)

    def to_numpy(self, *a, **k):
        return SymScalar(self.raw, self.dtype)

    to_datetime64 = to_timedelta64 = to_numpy

    def reshape(self, *shape, **kw):
        return to_symarray(self).reshape(*shape)

    def ravel(self):
        return to_symarray(self).reshape(-1)

    def min(self, *a, **k):
        return self

    max = sum = mean = squeeze = min

    def is_integer(self):
        return self == np.floor(self)

    def total_seconds(self):
        return apply_ufunc(np.true_divide, SymScalar(self.raw, I8), 10**9)

    def round(self, decimals=0):
        return np_round(self, decimals)

    def any(self, *a, **k):
        return self != 0 if self.kind != "b" else self

    all = any

    # --- conversions (concretising)
    def concrete(self, why="value"):
        note_concretize(why)
        r = R.concretize(self.raw, self.kind)
        return mk_scalar(r, self.dtype, self._cls)

    def __bool__(self):
        if self.kind == "b":
            return E.eng().branch(self.raw)
        if self.kind == "f":
            return E.eng().branch(R.f_cmp("ne", self.raw, Fraction(0)))
        if self.kind == "c":
            return E.eng().branch(R.cast_raw(self.raw, "c", "b"))
        return E.eng().branch(R.i_cmp("ne", self.raw, 0))

    def __int__(self):
        r = R.cast_raw(self.raw, self.kind, "i")
        note_concretize("int")
        return int(R.concretize(r, "i"))

    __trunc__ = __int__

    def __index__(self):
        if self.kind not in "iub":
            raise TypeError("not an index")
        note_concretize("index")
        return int(R.concretize(R.cast_raw(self.raw, self.kind, "i"), "i"))

    def __float__(self):
        note_concretize("float")
        return float(R.concretize(R.cast_raw(self.raw, self.kind, "f"), "f"))

    def __complex__(self):
        if self.kind == "c":
            return complex(self.concrete("complex"))
        return complex(float(self))

    def __hash__(self):
        # equality decides (and forks); see pandas' object hash tables
        return 0x51A7

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.concrete("array"), dtype=dtype)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    def __floor__(self):
        return mk_scalar(R.f_floor(R.cast_raw(self.raw, self.kind, "f")), I8, int)

    def __ceil__(self):
        return mk_scalar(R.f_ceil(R.cast_raw(self.raw, self.kind, "f")), I8, int)

    def __round__(self, n=None):
        if self.kind == "f":
            if n is None:
                return mk_scalar(R.f_rint(self.raw), I8, int)
            return np_round(self, n)
        return self


def _mk_binops(cls):
    spec = {
        "add": np.add, "sub": np.subtract, "mul": np.multiply, "truediv": np.true_divide,
        "floordiv": np.floor_divide, "mod": np.remainder, "pow": np.power,
        "and": np.bitwise_and, "or": np.bitwise_or, "xor": np.bitwise_xor,
    }
    for name, uf in spec.items():
        def op(self, other, uf=uf):
            return _try_ufunc(uf, self, other)

        def rop(self, other, uf=uf):
            return _try_ufunc(uf, other, self)

        setattr(cls, f"__{name}__", op)
        setattr(cls, f"__r{name}__", rop)
        if cls.__name__ == "SymArray":
            def iop(self, other, uf=uf):
                out = _try_ufunc(uf, self, other)
                if out is NotImplemented:
                    return out
                out = to_symarray(out)
                self._a[...] = cast_obj(out._a, out.dtype.kind, self.dtype.kind)
                return self

            setattr(cls, f"__i{name}__", iop)
    for name, uf in {"lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal, "eq": np.equal, "ne": np.not_equal}.items():
        def cop(self, other, uf=uf, name=name):
            if other is None or isinstance(other, (str, bytes)) or other is Ellipsis:
                if name == "eq":
                    return False
                if name == "ne":
                    return True
                return NotImplemented
            if name in ("eq", "ne") and isinstance(other, np.ndarray) and not is_sym(other) and other.dtype.kind in "OUS":
                try:
                    return apply_ufunc(uf, self, other)
                except (_NoLift, Unsupported):
                    # objects which are not numbers never equal numbers
                    shp = np.broadcast_shapes(np.shape(other), getattr(self, "shape", ()))
                    r = np.full(shp, name == "ne")
                    return r if shp else np.bool_(r)
            return _try_ufunc(uf, self, other)

        setattr(cls, f"__{name}__", cop)
    cls.__neg__ = lambda self: apply_ufunc(np.negative, self)
    cls.__pos__ = lambda self: self
    cls.__abs__ = lambda self: apply_ufunc(np.absolute, self)
    cls.__invert__ = lambda self: apply_ufunc(np.invert, self)

    def dm(self, other):
        return self // other, self % other

    def rdm(self, other):
        return other // self, other % self

    cls.__divmod__ = dm
    cls.__rdivmod__ = rdm


def _try_ufunc(uf, a, b):
    try:
        return apply_ufunc(uf, a, b)
    except _NoLift:
        return NotImplemented


class _NoLift(Exception):
    pass


# ------------------------------------------------------------------ lifting
def lift(x):
    """Return (raw-or-object-array, dtype, weak_pytype, is_array)."""
    t = type(x)
    if t is SymScalar:
        return x.raw, x.dtype, x._cls if x._cls in (int, float, bool, complex) else None, False
    if t is SymArray:
        return x._a, x.dtype, None, True
    if t is bool:
        return x, B1, bool, False
    if t is int:
        return x, I8, int, False
    if t is float:
        return R.from_float(x), F8, float, False
    if t is complex:
        return R.conc_raw(x, R.C16), R.C16, complex, False
    if t is np.ndarray or isinstance(x, np.ndarray) and not is_sym(x):
        dt = _norm_dtype(x.dtype)
        if dt.kind == "O":
            s = sym_from_nested(x)
            return s._a, s.dtype, None, True
        if dt.kind not in "biufcMm":
            raise _NoLift(str(dt))
        return lift_obj(np.asarray(x), dt), dt, None, True
    if isinstance(x, np.generic):
        dt = _norm_dtype(x.dtype)
        if dt.kind not in "biufcMm":
            raise _NoLift(str(dt))
        return R.conc_raw(x, dt), dt, None, False
    if isinstance(x, pd.Timestamp) or x is pd.NaT:
        return R.conc_raw(x.to_datetime64(), DT_NS), DT_NS, None, False
    if isinstance(x, pd.Timedelta):
        return R.conc_raw(x.to_timedelta64(), TD_NS), TD_NS, None, False
    if isinstance(x, datetime.timedelta):
        return R.conc_raw(np.timedelta64(x), TD_NS), TD_NS, None, False
    if t is Fraction:
        return x, F8, float, False
    if t is list or t is tuple:
        s = sym_from_nested(x)
        return s._a, s.dtype, None, True
    raise _NoLift(t.__name__)


def _norm_dtype(dt):
    if dt.kind == "M":
        return DT_NS
    if dt.kind == "m":
        return TD_NS
    return dt


def lift_obj(arr, dt):
    out = np.empty(arr.shape, dtype=object)
    k = dt.kind
    if k in "Mm":
        ns = arr.astype(dt).astype(np.int64)
        for i, v in np.ndenumerate(ns):
            out[i] = NAT if v == R.NPNAT else int(v)
    elif k == "f":
        for i, v in np.ndenumerate(arr):
            out[i] = R.from_float(v)
    elif k == "c":
        for i, v in np.ndenumerate(arr):
            out[i] = R.conc_raw(v, dt)
    elif k == "b":
        for i, v in np.ndenumerate(arr):
            out[i] = bool(v)
    else:
        for i, v in np.ndenumerate(arr):
            out[i] = v.item() if hasattr(v, "item") else v
    return out


def cast_obj(a, kf, kt):
    if kf == kt:
        return a
    out = np.empty(a.shape, dtype=object)
    for i, v in np.ndenumerate(a):
        out[i] = R.cast_raw(v, kf, kt)
    return out


def _cast_any(x, dtype):
    dtype = np.dtype(dtype)
    kt = dtype.kind
    if kt == "O":
        return x
    if kt not in "biufcMm":
        return _concrete_any(x, f"astype {dtype}").astype(dtype)
    kf = x.dtype.kind
    # unit changes
    if kf in "Mm" and kt in "Mm" or kf in "if" and kt in "Mm":
        unit = np.datetime_data(dtype)[0]
        if unit == "generic":
            dtype = DT_NS if kt == "M" else TD_NS
        elif unit != "ns":
            f = R._UNIT_NS.get(unit)
            if f is None:
                return _concrete_any(x, f"astype {dtype}").astype(dtype)
            if kf in "Mm":  # truncation to a coarser unit, kept in ns
                xi = _cast_any(x, I8)
                y = (xi // f) * f
                return _cast_any(y, DT_NS if kt == "M" else TD_NS)
            y = _cast_any(x, I8) * f
            return _cast_any(y, DT_NS if kt == "M" else TD_NS)
    if kf in "Mm" and kt in "if":
        pass
    if type(x) is SymScalar:
        return mk_scalar(R.cast_raw(x.raw, kf, kt), _norm_dtype(dtype))
    return SymArray(cast_obj(x._a, kf, kt).copy(), _norm_dtype(dtype))


def _view_raw(raw, kf, kt):
    kf2 = "i" if kf in "Mmiu" else kf
    kt2 = "i" if kt in "Mmiu" else kt
    if kf2 != kt2:
        raise Unsupported(f"view {kf}->{kt}")
    return R.cast_raw(raw, kf, kt)


def sym_from_nested(obj, dtype=None):
    """Build SymArray from nested lists / object arrays holding symbolics."""
    def shape_of(o):
        if type(o) is SymArray:
            return o.shape
        if isinstance(o, np.ndarray):
            return o.shape
        if isinstance(o, (list, tuple)):
            if not o:
                return (0,)
            return (len(o), *shape_of(o[0]))
        if hasattr(o, "__array__") and not is_sym(o) and not isinstance(o, (np.generic, pd.Timestamp, pd.Timedelta)) and not np.isscalar(o):
            return np.asarray(o).shape
        return ()

    shp = shape_of(obj)
    out = np.empty(shp, dtype=object)
    dts = []

    def fill(o, ix):
        if len(ix) == len(shp):
            if type(o) is SymArray or (type(o) is np.ndarray and o.ndim == 0):
                o = o[()]
            try:
                raw, dt, weak, _ = lift(o)
            except _NoLift:
                raise Unsupported(f"array element {type(o)}")
            if isinstance(raw, np.ndarray):
                raw = raw[()]
            out[ix] = (raw, dt)
            dts.append(dt)
            return
        for n in range(shp[len(ix)]):
            fill(o[n], (*ix, n))

    fill(obj, ())
    if dtype is not None:
        rdt = _norm_dtype(np.dtype(dtype))
    elif dts:
        kinds = {d.kind for d in dts}
        if kinds <= {"M"}:
            rdt = DT_NS
        elif kinds <= {"m"}:
            rdt = TD_NS
        else:
            rdt = np.result_type(*dts)
    else:
        rdt = F8
    if rdt.kind not in "biufcMm":
        raise Unsupported(f"nested dtype {rdt}")
    for i, (raw, dt) in np.ndenumerate(out):
        out[i] = R.cast_raw(raw, dt.kind, rdt.kind)
    return SymArray(out, rdt)


def to_symarray(x, dtype=None):
    """Lift anything array-like to SymArray."""
    if type(x) is SymArray:
        return x if dtype is None or x.dtype == np.dtype(dtype) else x.astype(dtype)
    if type(x) is SymScalar:
        a = np.empty((), dtype=object)
        a[()] = x.raw
        s = SymArray(a, x.dtype)
        return s if dtype is None else s.astype(dtype)
    if isinstance(x, (list, tuple)) and has_sym(x):
        return sym_from_nested(x, dtype)
    if isinstance(x, (pd.Series, pd.Index)):
        x = x.to_numpy()
    arr = np.asarray(x)
    if arr.dtype == object:
        return sym_from_nested(arr, dtype)
    if dtype is not None:
        arr = arr.astype(dtype)
    raw, dt, _, _ = lift(arr)
    return SymArray(raw if isinstance(raw, np.ndarray) else np.array(raw, dtype=object), dt)


def wrap(a, dtype, force=False):
    """Object array -> SymArray, collapsing all-concrete arrays to numpy."""
    if not force:
        for v in a.flat:
            if R.is_symraw(v):
                return SymArray(a, dtype)
        return obj_to_np(a, dtype)
    return SymArray(a, dtype)


def obj_to_np(a, dtype):
    k = dtype.kind
    out = np.empty(a.shape, dtype=dtype)
    for i, v in np.ndenumerate(a):
        out[i] = R.raw_to_np(v, dtype) if k in "Mmc" else (float(v) if k == "f" else v)
    return out


def _concrete_any(x, why="value"):
    if type(x) is SymScalar:
        return x.concrete(why)
    if type(x) is SymArray:
        return x.concrete(why)
    return x


def deep_concrete(x, why="call"):
    """Concretise every symbolic value inside containers."""
    t = type(x)
    if t is SymScalar or t is SymArray:
        return x.concrete(why)
    if t is list:
        return [deep_concrete(y, why) for y in x]
    if t is tuple:
        return tuple(deep_concrete(y, why) for y in x)
    if t is dict:
        return {k: deep_concrete(v, why) for k, v in x.items()}
    if t is slice:
        return slice(deep_concrete(x.start), deep_concrete(x.stop), deep_concrete(x.step))
    return x


# ------------------------------------------------------------------ ufuncs
def _k_floor_divide(kin, a, b):
    k1, k2 = kin
    if k1 == "f":
        if R.special(a) or R.special(b) or b == 0:
            raise Unsupported("floor_divide special")
        return R.i2f(R.f_floor(R.f_div(a, b)))
    if k1 == "m" and k2 == "m":
        return R.i_floordiv(a, b)
    return R.i_floordiv(a, b)


def _k_mod(kin, a, b):
    if kin[0] == "f":
        q = _k_floor_divide(kin, a, b)
        return R.f_sub(a, R.f_mul(q, b))
    return R.i_mod(a, b)


def _k_add(kin, a, b):
    if "c" in kin:
        return R.c_add(a, b)
    if "f" in kin:
        return R.f_add(a, b)
    if kin == ("b", "b"):
        return R.b_or(a, b)
    if a is NAT or b is NAT:
        return NAT
    return R.si(a + b)


def _k_sub(kin, a, b):
    if "c" in kin:
        return R.c_add(a, R.c_neg(b))
    if "f" in kin:
        return R.f_sub(a, b)
    if a is NAT or b is NAT:
        return NAT
    return R.si(a - b)


def _k_mul(kin, a, b):
    if "c" in kin:
        return R.c_mul(a, b)
    if a is NAT or b is NAT:
        return NAT
    if kin == ("f", "f"):
        return R.f_mul(a, b)
    if kin == ("b", "b"):
        return R.b_and(a, b)
    if "f" in kin:  # timedelta * float
        t, f = (a, b) if kin[0] == "m" else (b, a)
        return R.cast_raw(R.f_mul(R.i2f(t), f), "f", "m")
    return R.si(a * b)


def _k_div(kin, a, b):
    if "c" in kin:
        return R.c_div(a, b)
    if kin == ("f", "f"):
        return R.f_div(a, b)
    if a is NAT or b is NAT:
        return R.NAN if kin == ("m", "m") else NAT
    if kin == ("m", "m"):
        return R.f_div(R.i2f(a), R.i2f(b))
    if kin[1] == "f":
        return R.cast_raw(R.f_div(R.i2f(a), b), "f", "m")
    return R.i_truncdiv(a, b)


def _k_cmp(op):
    def inner(kin, a, b):
        return R.cmp(op, kin[0], a, b)

    return inner


def _k_logic(fn):
    def inner(kin, a, b):
        a = a if kin[0] == "b" else R.cast_raw(a, kin[0], "b")
        b = b if kin[1] == "b" else R.cast_raw(b, kin[1], "b")
        return fn(a, b)

    return inner


def _k_bit(fn):
    def inner(kin, a, b):
        if kin != ("b", "b"):
            if isinstance(a, int) and isinstance(b, int):
                return {R.b_and: a & b, R.b_or: a | b, R.b_xor: a ^ b}[fn]
            for c, o in ((a, b), (b, a)):
                if isinstance(c, int) and c == 0:
                    return 0 if fn is R.b_and else o
            raise Unsupported("bitwise on ints")
        return fn(a, b)

    return inner


def _k_max(op, nan_ignore=False):
    def inner(kin, a, b):
        k = kin[0]
        if a is NAT or b is NAT:
            if nan_ignore:
                return b if a is NAT else a
            return NAT
        if k == "f":
            na = R.special(a) and math.isnan(a)
            nb = R.special(b) and math.isnan(b)
            if na or nb:
                if nan_ignore:
                    return b if na else a
                return R.NAN
        c = R.cmp(op, k, a, b)
        return R.ite(c, a, b, k)

    return inner


def _k_neg(kin, a):
    if kin[0] == "c":
        return R.c_neg(a)
    if a is NAT:
        return NAT
    return R.f_neg(a) if kin[0] == "f" else R.si(-a)


def _k_abs(kin, a):
    if kin[0] == "c":
        return R.c_abs(a)
    if a is NAT:
        return NAT
    if kin[0] == "b":
        return a
    if kin[0] == "f":
        if R.special(a):
            return abs(a)
        return R.f_ite(R.f_cmp("ge", a, Fraction(0)), a, R.f_neg(a))
    return R.i_abs(a)


def _k_spacing(kin, a):
    """Distance to the next float64; exact for 2**-24 <= |a| < 2**63."""
    if R.special(a):
        return R.NAN
    if isinstance(a, Fraction):
        return R.from_float(np.spacing(float(a)))
    out = Fraction(1, 2**76)
    mag = _k_abs(kin, a)
    for k in range(-24, 63):
        out = R.f_ite(R.f_cmp("ge", mag, Fraction(2) ** k), Fraction(2) ** (k - 52), out)
    neg = R.f_cmp("lt", a, Fraction(0))
    return R.f_ite(neg, R.f_neg(out), out)


def _k_sign(kin, a):
    k = kin[0]
    if k == "f":
        if R.special(a):
            return R.from_float(np.sign(a))
        return R.f_ite(R.f_cmp("gt", a, Fraction(0)), Fraction(1), R.f_ite(R.f_cmp("lt", a, Fraction(0)), Fraction(-1), Fraction(0)))
    if a is NAT:
        return R.NAN
    r = R.i_ite(R.i_cmp("gt", a, 0), 1, R.i_ite(R.i_cmp("lt", a, 0), -1, 0))
    return R.i2f(r) if k == "m" else r


def _k_round(fn):
    def inner(kin, a):
        if kin[0] != "f":
            return a
        if R.special(a):
            return a
        return R.i2f(fn(a))

    return inner


def _k_isnan(kin, a):
    if kin[0] == "c":
        return _k_isnan("f", a.re) or _k_isnan("f", a.im)
    if kin[0] in "Mm":
        return a is NAT
    return R.special(a) and math.isnan(a)


def _k_isinf(kin, a):
    if kin[0] == "c":
        return _k_isinf("f", a.re) or _k_isinf("f", a.im)
    return R.special(a) and math.isinf(a)


def _k_isfinite(kin, a):
    if kin[0] == "c":
        return not (R.special(a.re) or R.special(a.im))
    if kin[0] in "Mm":
        return a is not NAT
    return not R.special(a)


def _k_sqrt(kin, a):
    if kin[0] != "f":
        raise Unsupported("square root")
    return R.f_sqrt(a)


def _k_power(kin, a, b):
    if kin[0] == "c":
        if R.is_symraw(b) or b.im != 0 or b.re not in (1, 2):
            raise Unsupported("complex power")
        return a if b.re == 1 else R.c_mul(a, a)
    if kin[0] == "f":
        if isinstance(b, Fraction) and b.denominator == 1 and 0 <= b <= 4:
            out = Fraction(1)
            for _ in range(int(b)):
                out = R.f_mul(out, a)
            return out
        if isinstance(b, Fraction) and b == Fraction(1, 2):
            return R.f_sqrt(a)
        if isinstance(b, Fraction) and b.denominator == 1 and -4 <= b < 0:
            return R.f_div(Fraction(1), _k_power(kin, a, -b))
    elif isinstance(b, int) and 0 <= b <= 4:
        out = 1
        for _ in range(b):
            out = R.si(out * a)
        return out
    raise Unsupported("power")


def _k_square(kin, a):
    return R.c_mul(a, a) if kin[0] == "c" else R.f_mul(a, a) if kin[0] == "f" else R.si(a * a)


def _k_recip(kin, a):
    return R.f_div(Fraction(1), a)


_DEG = Fraction(180)

KERNELS = {
    "add": _k_add, "subtract": _k_sub, "multiply": _k_mul, "divide": _k_div, "true_divide": _k_div,
    "floor_divide": _k_floor_divide, "remainder": _k_mod, "mod": _k_mod, "power": _k_power,
    "float_power": _k_power, "square": _k_square, "sqrt": _k_sqrt, "reciprocal": _k_recip,
    "negative": _k_neg, "positive": lambda kin, a: a, "absolute": _k_abs, "fabs": _k_abs, "sign": _k_sign, "spacing": _k_spacing,
    "conjugate": lambda kin, a: R.c_conj(a) if kin[0] == "c" else a,
    "floor": _k_round(R.f_floor), "ceil": _k_round(R.f_ceil), "rint": _k_round(R.f_rint), "trunc": _k_round(R.f_trunc),
    "less": _k_cmp("lt"), "less_equal": _k_cmp("le"), "greater": _k_cmp("gt"), "greater_equal": _k_cmp("ge"),
    "equal": _k_cmp("eq"), "not_equal": _k_cmp("ne"),
    "logical_and": _k_logic(R.b_and), "logical_or": _k_logic(R.b_or), "logical_xor": _k_logic(R.b_xor),
    "logical_not": lambda kin, a: R.b_not(a if kin[0] == "b" else R.cast_raw(a, kin[0], "b")),
    "bitwise_and": _k_bit(R.b_and), "bitwise_or": _k_bit(R.b_or), "bitwise_xor": _k_bit(R.b_xor),
    "invert": lambda kin, a: R.b_not(a) if kin[0] == "b" else R.si(-a - 1),
    "maximum": _k_max("ge"), "minimum": _k_max("le"), "fmax": _k_max("ge", True), "fmin": _k_max("le", True),
    "isnan": _k_isnan, "isnat": _k_isnan, "isinf": _k_isinf, "isfinite": _k_isfinite,
}


def apply_ufunc(uf, *ops, out_force=False):
    """Elementwise application with numpy's own type resolution."""
    name = uf.__name__
    kern = KERNELS.get(name)
    lifted = [lift(o) for o in ops]
    if kern is None:
        raise Unsupported(f"ufunc {name}")
    if name == "divide":
        uf = np.true_divide
    indts = tuple(w if w is not None and w is not bool else d for _, d, w, _ in lifted)
    if all(w is not None for _, _, w, _ in lifted):  # only python scalars
        indts = tuple(d for _, d, _, _ in lifted)
    res = uf.resolve_dtypes((*indts, None))
    loop_in = [r.kind for r in res[: len(ops)]]
    rdt = res[-1]
    if rdt.kind in "Mm":
        rdt = _norm_dtype(rdt)
    kin = tuple("i" if k == "u" else k for k in loop_in)
    raws = []
    for (rw, d, _, isarr), k in zip(lifted, loop_in):
        if d.kind != k:
            rw = cast_obj(rw, d.kind, k) if isarr else R.cast_raw(rw, d.kind, k)
        raws.append(rw)
    if not any(l[3] for l in lifted):
        cls = None
        if all(l[2] is not None for l in lifted):
            cls = _PY_CLS.get(rdt.kind)
        r = kern(kin, *raws)
        if rdt.kind == "b" and not R.is_symraw(r):
            return bool(r) if cls else np.bool_(r)
        return mk_scalar(r, rdt, cls)
    arrs = []
    for rw in raws:
        if not isinstance(rw, np.ndarray):
            b = np.empty((), dtype=object)
            b[()] = rw
            rw = b
        arrs.append(rw)
    bc = np.broadcast_arrays(*arrs)
    out = np.empty(bc[0].shape, dtype=object)
    for i in np.ndindex(*bc[0].shape):
        out[i] = kern(kin, *[x[i] for x in bc])
    force = any(type(o) is SymArray and o.sticky for o in ops)
    w = wrap(out, rdt, out_force)
    if not out.shape:
        return w[()]
    return w


def _fallback_ufunc(uf, method, inputs, kwargs):
    note_concretize(f"ufunc {uf.__name__}.{method}")
    inputs = deep_concrete(tuple(inputs))
    kwargs = {k: deep_concrete(v) for k, v in kwargs.items()}
    return getattr(uf, method)(*inputs, **kwargs)


def array_ufunc(uf, method, *inputs, **kwargs):
    out = kwargs.pop("out", None)
    where = kwargs.pop("where", True)
    dtype = kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    if method == "__call__" and where is True:
        try:
            r = apply_ufunc(uf, *inputs)
        except Unsupported:
            r = _fallback_ufunc(uf, method, inputs, {})
        except _NoLift:
            return NotImplemented
        if dtype is not None and hasattr(r, "astype"):
            r = r.astype(dtype)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        return r
    if method == "reduce":
        try:
            return reduce_ufunc(uf, *inputs, **kwargs)
        except Unsupported:
            pass
    if method == "accumulate":
        try:
            return accumulate_ufunc(uf, *inputs, **kwargs)
        except Unsupported:
            pass
    return _fallback_ufunc(uf, method, inputs, kwargs)


def _norm_axis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(int(a) % nd for a in axis)
    return (int(axis) % nd,)


def reduce_ufunc(uf, arr, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True, **kw):
    a = to_symarray(arr)
    name = uf.__name__
    if name in ("logical_and", "logical_or"):
        f0 = cast_obj(a._a, a.dtype.kind, "b") if a.dtype.kind != "b" else a._a
        fn = R.b_and if name == "logical_and" else R.b_or
        init = name == "logical_and"
        return _reduce(f0, B1, axis, keepdims, fn, init)
    k = a.dtype.kind
    if name == "add":
        src, rdt = (a._a, a.dtype)
        if k == "b":
            src, rdt = cast_obj(a._a, "b", "i"), I8
        init = R.cast_raw(0, "i", rdt.kind)
        return _reduce(src, rdt, axis, keepdims, lambda x, y: _k_add((rdt.kind,) * 2, x, y), init)
    if name == "multiply":
        init = R.cast_raw(1, "i", k)
        return _reduce(a._a, a.dtype, axis, keepdims, lambda x, y: _k_mul((k, k), x, y), init)
    if name in ("maximum", "minimum", "fmax", "fmin"):
        if not a._a.size:
            raise ValueError("zero-size array to reduction operation")
        fn = KERNELS[name]
        return _reduce(a._a, a.dtype, axis, keepdims, lambda x, y: fn((k, k), x, y), None)
    raise Unsupported(f"reduce {name}")


def _reduce(src, rdt, axis, keepdims, fn, init):
    axes = _norm_axis(axis, src.ndim)
    rest = [i for i in range(src.ndim) if i not in axes]
    t = src.transpose(*axes, *rest)
    red = int(np.prod([src.shape[i] for i in axes], dtype=int)) if axes else 1
    t = t.reshape(red, *[src.shape[i] for i in rest])
    out = np.empty(t.shape[1:], dtype=object)
    for ix in np.ndindex(*out.shape):
        col = [t[(n, *ix)] for n in range(red)]
        if init is None:
            acc = col[0]
            col = col[1:]
        else:
            acc = init
        for v in col:
            acc = fn(acc, v)
        out[ix] = acc
    if keepdims:
        out = out.reshape([1 if i in axes else src.shape[i] for i in range(src.ndim)])
    w = wrap(out, rdt)
    return w if out.shape else w[()]


def accumulate_ufunc(uf, arr, axis=0, **kw):
    a = to_symarray(arr)
    kern = KERNELS.get(uf.__name__)
    if kern is None:
        raise Unsupported("accumulate")
    src, rdt = a._a, a.dtype
    if rdt.kind == "b" and uf.__name__ == "add":
        src, rdt = cast_obj(src, "b", "i"), I8
    k = (rdt.kind, rdt.kind)
    src = np.moveaxis(src, axis, 0)
    out = np.empty(src.shape, dtype=object)
    for ix in np.ndindex(*src.shape[1:]):
        acc = None
        for n in range(src.shape[0]):
            v = src[(n, *ix)]
            acc = v if n == 0 else kern(k, acc, v)
            out[(n, *ix)] = acc
    return wrap(np.moveaxis(out, 0, axis), rdt)


# ------------------------------------------------------------------ indexing
def conc_index(idx, shape):
    """Replace symbolic parts of an index by concrete ones, forking as needed."""
    if not isinstance(idx, tuple):
        return _conc_one(idx, shape[0] if shape else 0)
    out = []
    nreal = sum(1 for i in idx if i is not None and i is not Ellipsis)
    dim = 0
    for i in idx:
        if i is None:
            out.append(i)
        elif i is Ellipsis:
            out.append(i)
            dim = len(shape) - (nreal - sum(1 for j in out if j is not None and j is not Ellipsis))
        else:
            out.append(_conc_one(i, shape[dim] if dim < len(shape) else 0))
            dim += 1
    return tuple(out)


def _conc_one(i, n):
    if type(i) is slice:
        if not has_sym(i):
            return i
        step = i.step
        if step is not None:
            step = int(step)
        neg = step is not None and step < 0
        lo, hi = (-1, n - 1) if neg else (0, n)

        def clamp(v):
            if type(v) is not SymScalar:
                return v
            if v.dtype.kind not in "iub":
                raise TypeError("slice indices must be integers or None")
            r = R.cast_raw(v.raw, v.dtype.kind, "i")
            e = z3.If(r < 0, r + n, r)
            e = z3.simplify(z3.If(e < lo, z3.IntVal(lo), z3.If(e > hi, z3.IntVal(hi), e)))
            c = R.concretize(R.si(e), "i")
            if neg and c < 0:
                return -n - 1
            return c

        return slice(clamp(i.start), clamp(i.stop), step)
    if type(i) is SymScalar:
        if i.dtype.kind == "b":
            return bool(i)
        if i.dtype.kind not in "iu":
            raise IndexError("only integers are valid indices")
        e = E.eng()
        if e.branch(R.zb(R.b_or(R.i_cmp("ge", i.raw, n), R.i_cmp("lt", i.raw, -n)))):
            raise IndexError("index out of bounds")
        return int(R.concretize(i.raw, "i"))
    if type(i) is SymArray:
        if i.dtype.kind == "b":
            return i.to_concrete()
        out = [_conc_one(v, n) for v in i._flat_scalars()]
        return np.array(out, dtype=int).reshape(i.shape)
    if type(i) is list and has_sym(i):
        return _conc_one(sym_from_nested(i), n)
    return i


class _Flags:
    writeable = True
    c_contiguous = True
    owndata = True

    def __getitem__(self, k):
        return True

    def __setitem__(self, k, v):
        pass


class SymArray:
    """An ndarray of known shape and dtype with symbolic elements."""

    __array_priority__ = 10**6
    sticky = False

    def __init__(self, a, dtype):
        self._a = a
        self.dtype = dtype
        self.flags = _Flags()

    @property
    def __class__(self):
        return np.ndarray

    # --- structure
    @property
    def shape(self):
        return self._a.shape

    @property
    def ndim(self):
        return self._a.ndim

    @property
    def size(self):
        return self._a.size

    @property
    def nbytes(self):
        return self._a.size * self.dtype.itemsize

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def T(self):
        return SymArray(self._a.T, self.dtype)

    @property
    def base(self):
        return None

    def _part(self, name):
        out = np.empty(self._a.shape, dtype=object)
        for i, v in np.ndenumerate(self._a):
            out[i] = getattr(v, name)
        return wrap(out, F8)

    @property
    def real(self):
        return self._part("re") if self.dtype.kind == "c" else self

    @property
    def imag(self):
        return self._part("im") if self.dtype.kind == "c" else np.zeros(self.shape, self.dtype)

    def conj(self):
        return apply_ufunc(np.conjugate, self)

    conjugate = conj

    @property
    def flat(self):
        return iter(self._flat_scalars())

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        for i in range(len(self._a)):
            yield self[i]

    def __repr__(self):
        return f"<symarray {self.shape} {self.dtype}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling symbolic array")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def _flat_scalars(self):
        return [mk_scalar(v, self.dtype) for v in self._a.flat]

    def concrete(self, why="array"):
        if any(R.is_symraw(v) for v in self._a.flat):
            note_concretize(why)
        return self.to_concrete()

    def to_concrete(self):
        out = np.empty(self._a.shape, dtype=object)
        for i, v in np.ndenumerate(self._a):
            out[i] = R.concretize(v, self.dtype.kind)
        return obj_to_np(out, self.dtype)

    def __array__(self, dtype=None, copy=None):
        out = self.concrete("__array__") if self.dtype.kind != "b" else self.to_concrete()
        return out if dtype is None else out.astype(dtype)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(mk_scalar(self._a.reshape(-1)[0], self.dtype))

    def _one(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return mk_scalar(self._a.reshape(-1)[0], self.dtype)

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __index__(self):
        return self._one().__index__()

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    def __getitem__(self, idx):
        if has_sym(idx):
            idx = conc_index(idx, self.shape)
        r = self._a[idx]
        if isinstance(r, np.ndarray) and r.dtype == object:
            return SymArray(r, self.dtype)
        return mk_scalar(r, self.dtype)

    def __setitem__(self, idx, val):
        if has_sym(idx):
            if type(idx) is SymArray and idx.dtype.kind == "b" and idx.shape == self.shape:
                v = to_symarray(val)
                va = np.broadcast_to(cast_obj(v._a, v.dtype.kind, self.dtype.kind), self.shape) if v.ndim == 0 else None
                if va is not None:
                    for i in np.ndindex(*self.shape):
                        self._a[i] = R.ite(idx._a[i], va[i], self._a[i], self.dtype.kind)
                    return
            idx = conc_index(idx, self.shape)
        v = to_symarray(val)
        src = cast_obj(v._a, v.dtype.kind, self.dtype.kind)
        if src.shape == ():
            tgt = self._a[idx]
            if isinstance(tgt, np.ndarray):
                fill = np.empty(tgt.shape, dtype=object)
                for i in np.ndindex(*tgt.shape):
                    fill[i] = src[()]
                self._a[idx] = fill
            else:
                self._a[idx] = src[()]
        else:
            self._a[idx] = src

    def __contains__(self, x):
        return bool(np_any(self == x))

    # --- methods
    def item(self, *args):
        if args:
            return self[args[0] if len(args) == 1 else args]
        s = self._one()
        return s.item()

    def tolist(self):
        def rec(a):
            if a.ndim == 0:
                s = mk_scalar(a[()], self.dtype)
                return s.item()
            return [rec(a[i]) if a.ndim > 1 else mk_scalar(a[i], self.dtype).item() for i in range(len(a))]

        return rec(self._a)

    def copy(self, *a, **k):
        return SymArray(self._a.copy(), self.dtype)

    def astype(self, dtype, copy=True, **kw):
        return _cast_any(self, np.dtype(dtype))

    def view(self, dtype=None, *a):
        if dtype is None or dtype is np.ndarray:
            return SymArray(self._a, self.dtype)
        dtype = np.dtype(dtype)
        if dtype.kind not in "biufcMm":
            raise Unsupported("view")
        out = np.empty(self.shape, dtype=object)
        for i, v in np.ndenumerate(self._a):
            out[i] = _view_raw(v, self.dtype.kind, dtype.kind)
        return SymArray(out, _norm_dtype(dtype))

    def reshape(self, *shape, **kw):
        shape = shape[0] if len(shape) == 1 else shape
        return SymArray(self._a.reshape(deep_concrete(shape)), self.dtype)

    def ravel(self, *a, **k):
        return SymArray(self._a.reshape(-1), self.dtype)

    def flatten(self, *a, **k):
        return SymArray(self._a.reshape(-1).copy(), self.dtype)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        return SymArray(self._a.transpose(axes) if axes else self._a.T, self.dtype)

    def swapaxes(self, a, b):
        return SymArray(self._a.swapaxes(a, b), self.dtype)

    def squeeze(self, axis=None):
        return SymArray(self._a.squeeze(axis), self.dtype)

    def setflags(self, **k):
        pass

    def fill(self, v):
        self[...] = v

    def min(self, axis=None, **k):
        return reduce_ufunc(np.minimum, self, axis=axis, **k)

    def max(self, axis=None, **k):
        return reduce_ufunc(np.maximum, self, axis=axis, **k)

    def sum(self, axis=None, **k):
        return reduce_ufunc(np.add, self, axis=axis, **k)

    def prod(self, axis=None, **k):
        return reduce_ufunc(np.multiply, self, axis=axis, **k)

    def all(self, axis=None, **k):
        return reduce_ufunc(np.logical_and, self, axis=axis, **k)

    def any(self, axis=None, **k):
        return reduce_ufunc(np.logical_or, self, axis=axis, **k)

    def mean(self, axis=None, **k):
        return array_function(np.mean, (self,), dict(axis=axis, **k))

    def round(self, decimals=0):
        return np_round(self, decimals)

    def cumsum(self, axis=None, **k):
        x = self.ravel() if axis is None else self
        return accumulate_ufunc(np.add, x, axis=axis or 0)

    def argsort(self, axis=-1, kind=None, **k):
        return array_function(np.argsort, (self,), dict(axis=axis))

    def sort(self, axis=-1, **k):
        self._a = to_symarray(array_function(np.sort, (self,), dict(axis=axis)))._a

    def searchsorted(self, v, side="left", sorter=None):
        return array_function(np.searchsorted, (self, v), dict(side=side))

    def argmin(self, axis=None, **k):
        return array_function(np.argmin, (self,), dict(axis=axis))

    def argmax(self, axis=None, **k):
        return array_function(np.argmax, (self,), dict(axis=axis))

    def take(self, indices, axis=None, out=None, mode="raise"):
        return array_function(np.take, (self, indices), dict(axis=axis, mode=mode))

    def repeat(self, n, axis=None):
        return SymArray(self._a.repeat(deep_concrete(n), axis), self.dtype)

    def nonzero(self):
        return self.astype(bool).to_concrete().nonzero()

    def clip(self, a_min=None, a_max=None, **k):
        return array_function(np.clip, (self, a_min, a_max), {})

    def to_numpy(self, *a, **k):
        return self


_mk_binops(SymScalar)
_mk_binops(SymArray)


def np_round(x, decimals=0):
    s = to_symarray(x)
    if s.dtype.kind != "f":
        return x
    out = np.empty(s.shape, dtype=object)
    for i, v in np.ndenumerate(s._a):
        out[i] = R.f_round(v, int(decimals))
    w = wrap(out, s.dtype)
    return w if s.shape else w[()]


def np_any(x):
    if type(x) is SymArray:
        return x.any()
    if type(x) is SymScalar:
        return x
    return np.any(x)


# string tokens for formatted symbolic values (used for query strings)
_TOKENS: dict = {}


def fmt_token(sym, spec):
    key = f"__sym{len(_TOKENS)}__"
    _TOKENS[key] = sym
    return key


def array_function(func, args, kwargs):
    from . import npmodel

    h = npmodel.NPF.get(func)
    if h is not None:
        try:
            return h(*args, **kwargs)
        except Unsupported as e:
            why = f"{func.__name__}: {e}"
        except _NoLift as e:
            why = f"{func.__name__}: nolift {e}"
    else:
        why = func.__name__
    note_concretize(f"np.{why}")
    return func(*deep_concrete(tuple(args)), **deep_concrete(dict(kwargs)))
