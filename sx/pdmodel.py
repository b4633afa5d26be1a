"""
pandas objects that hold symbolic values.

Columns with symbolic values are plain object columns, so that pandas itself does the
indexing, grouping, sorting and joining (element comparisons fork).  Where dascore
takes the array or the dtype out of such a column it gets the symbolic array.
"""
from __future__ import annotations

import types

import numpy as np
import pandas as pd

from . import raw as R
from .sym import DT_NS, F8, SymArray, SymScalar, lift, sym_from_nested, wrap

PD = (pd.Series, pd.DataFrame, pd.Index)


def _obj_has(values):
    return any(type(v) is SymScalar for v in values)


def has(obj):
    """True for pandas objects with symbolic elements."""
    if isinstance(obj, pd.DataFrame):
        return any(d == object and _obj_has(obj.iloc[:, i]._values) for i, d in enumerate(obj.dtypes))
    if isinstance(obj, (pd.Series, pd.Index)):
        return obj.dtype == object and _obj_has(obj._values)
    return False


def _null(v):
    return v is None or v is pd.NaT or v is pd.NA or (isinstance(v, (float, np.floating)) and not type(v) is SymScalar and v != v)


def column(obj):
    """The symbolic array of a Series or Index (None when it is not purely numeric)."""
    vals = list(obj._values)
    kinds = set()
    for v in vals:
        if _null(v):
            continue
        try:
            kinds.add(lift(v)[1].kind)
        except Exception:
            return None
    if kinds <= {"M"} or kinds <= {"m"}:
        nat = np.datetime64("NaT", "ns") if "M" in kinds else np.timedelta64("NaT", "ns")
        vals = [nat if _null(v) else v for v in vals]
    elif kinds & {"M", "m"}:
        return None
    else:
        vals = [np.nan if _null(v) else v for v in vals]
    return sym_from_nested(vals)


def attr(obj, name):
    """obj.values / obj.dtype in dascore's code."""
    if isinstance(obj, PD) and has(obj):
        if isinstance(obj, pd.DataFrame):
            if name == "values":
                cols = [column(obj.iloc[:, i]) if has(obj.iloc[:, i]) else None for i in range(obj.shape[1])]
                if all(c is not None for c in cols):
                    return sym_from_nested([list(r) for r in zip(*[list(c) for c in cols])])
        else:
            col = column(obj)
            if col is not None:
                return col if name == "values" else col.dtype
    return getattr(obj, name)


def lifted(obj):
    """The symbolic array when there is one, else the object itself."""
    if has(obj):
        v = attr(obj, "values")
        if type(v) is SymArray:
            return v
    return obj


def to_obj(x, depth=3):
    """Symbolic arrays as object arrays that pandas can hold."""
    t = type(x)
    if t is SymArray:
        if x.dtype.kind == "b":
            return x.to_concrete()
        out = np.empty(x.shape, dtype=object)
        for i, v in np.ndenumerate(x._a):
            s = x[i]
            out[i] = s
        return out
    if depth and t in (list, tuple):
        return t(to_obj(y, depth - 1) for y in x)
    if depth and t is dict:
        return {k: to_obj(v, depth - 1) for k, v in x.items()}
    return x


def _select_dtypes(self, include=None, exclude=None):
    out = self.select_dtypes(include=include, exclude=exclude)
    if include is not None and exclude is None:
        inc = include if isinstance(include, (list, tuple)) else [include]
        keep = set(out.columns)
        for c in self.columns:
            if has(self[c]):
                col = column(self[c])
                if col is not None and any(np.issubdtype(col.dtype, i) for i in inc):
                    keep.add(c)
        return self[[c for c in self.columns if c in keep]]
    return out


def is_pd_method(f):
    s = getattr(f, "__self__", None)
    return s is not None and type(s).__module__.split(".")[0] == "pandas"


def call_method(f, args, kwargs):
    s = f.__self__
    name = f.__name__
    if isinstance(s, PD):
        if name == "to_numpy" and has(s):
            return attr(s, "values")
        if name == "select_dtypes" and isinstance(s, pd.DataFrame) and has(s):
            return _select_dtypes(s, *args, **kwargs)
        if name == "astype" and isinstance(s, pd.Series) and has(s):
            col = column(s)
            if col is not None:
                dt = args[0] if args else kwargs["dtype"]
                try:
                    out = col.astype(dt)
                except R.Unsupported:
                    return f(*args, **kwargs)
                return pd.Series(to_obj(out), index=s.index, name=s.name)
    if isinstance(s, pd.core.groupby.SeriesGroupBy) and name in ("cummax", "cummin", "cumsum", "diff") and has(s.obj):
        # pandas does these only for its own dtypes; group by group it can
        out = np.empty(len(s.obj), dtype=object)
        for idx in s.indices.values():
            part = getattr(s.obj.iloc[idx], name)(*args, **kwargs)
            for i, v in zip(idx, part._values):
                out[i] = v
        return pd.Series(out, index=s.obj.index, name=s.obj.name)
    return f(*to_obj(args), **to_obj(kwargs))


def install():
    """pandas unboxes datetimes by isinstance; symbolic ones pass as they are."""
    import sys

    from pandas.core.dtypes import cast

    for name in ("maybe_box_native", "maybe_box_datetimelike"):
        real = getattr(cast, name)

        def keep(value, *a, real=real, **k):
            return value if type(value) is SymScalar else real(value, *a, **k)

        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("pandas.") and getattr(m, name, None) is real:
                setattr(m, name, keep)
    infer = cast.infer_dtype_from_scalar

    def infer_(val, *a, **k):
        return (np.dtype(object), val) if type(val) is SymScalar else infer(val, *a, **k)

    cast.infer_dtype_from_scalar = infer_
    # numbers of ns to times, as the patch index does it
    for name, kind in (("to_datetime", "M8[ns]"), ("to_timedelta", "m8[ns]")):
        real = getattr(pd, name)

        def conv(arg, *a, real=real, kind=kind, **k):
            if isinstance(arg, pd.Series) and has(arg):
                col = column(arg)
                if col is not None and (col.dtype.kind in "Mm" or k.get("unit", "ns") in (None, "ns")):
                    return pd.Series(to_obj(col.astype(kind)), index=arg.index, name=arg.name)
            return real(arg, *a, **k)

        setattr(pd, name, conv)
    # pint: a symbolic scalar is a number, not an array
    import pint.compat
    import pint.facets.plain.quantity as pq

    duck = pint.compat.is_duck_array_type

    def duck_(cls):
        return cls is not SymScalar and duck(cls)

    pint.compat.is_duck_array_type = pq.is_duck_array_type = duck_
    from pandas.core import ops

    for name in ("arithmetic_op", "comparison_op"):
        real = getattr(ops, name)

        def op_(left, right, op, real=real):
            if _obj_array(left) or _obj_array(right):
                a, b = _operand(left, right), _operand(right, left)
                if a is not None and b is not None:
                    out = op(a, b)
                    return to_obj(out) if type(out) is SymArray else out
            return real(left, right, op)

        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("pandas.") and getattr(m, name, None) is real:
                setattr(m, name, op_)


def _obj_array(x):
    if type(x) is SymScalar:
        return True
    return type(x) is np.ndarray and x.dtype == object and x.ndim == 1 and (_obj_has(x) or all(_null(v) for v in x))


def _operand(x, other=None):
    if type(x) is np.ndarray and x.dtype == object:
        if x.ndim == 1 and all(_null(v) for v in x):
            # shifted out completely: nulls of the other operand's kind
            kind = getattr(other.iloc[0] if isinstance(other, pd.Series) else other, "dtype", None)
            if getattr(kind, "kind", "") == "O" and len(other):
                kind = getattr(other[0], "dtype", None)
            kind = getattr(kind, "kind", "f")
            return np.full(len(x), np.datetime64("NaT", "ns") if kind in "mM" else np.nan)
        return column(pd.Series(x, dtype=object)) if x.ndim == 1 else None
    if isinstance(x, pd.api.extensions.ExtensionArray):
        return np.asarray(x) if x.dtype.kind in "mM" else None
    if isinstance(x, (list, str)) or x is None:
        return None
    if isinstance(x, (float, np.floating)) and type(x) is not SymScalar and x != x:
        # the minimum of an empty column
        if type(other) is np.ndarray and other.dtype == object and other.ndim == 1:
            col = column(pd.Series(other, dtype=object))
            if col is not None and col.dtype.kind in "mM":
                return np.datetime64("NaT", "ns")
    return x
