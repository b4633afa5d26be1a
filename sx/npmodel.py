"""Symbolic models of the numpy / pandas / builtin functions dascore calls."""
from __future__ import annotations

import builtins
import math
import operator
from fractions import Fraction

import numpy as np
import pandas as pd

from . import engine as E
from . import raw as R
from .z3load import z3
from .raw import B1, DT_NS, F8, I8, NAT, TD_NS, Unsupported
from .sym import (
    SymArray,
    SymScalar,
    _cast_any,
    _norm_axis,
    _NoLift,
    accumulate_ufunc,
    apply_ufunc,
    cast_obj,
    conc_index,
    deep_concrete,
    has_sym,
    is_sym,
    lift,
    mk_scalar,
    note_concretize,
    np_round,
    reduce_ufunc,
    sym_from_nested,
    to_symarray,
    wrap,
)

NPF: dict = {}  # __array_function__ models
CALLS: dict = {}  # models used by instrumented call sites
INSTANCES: dict = {}  # models of calling instances of a class


def npf(*funcs):
    def deco(h):
        for f in funcs:
            NPF[f] = h
        return h

    return deco


def calls(*funcs):
    def deco(h):
        for f in funcs:
            CALLS[f] = h
        return h

    return deco


def _scalar_out(w):
    return w[()] if getattr(w, "shape", None) == () else w


# ------------------------------------------------------------ construction
@calls(np.asarray, np.asanyarray, np.ascontiguousarray)
def _array(obj, dtype=None, copy=None, ndmin=0, subok=False, order=None, like=None):
    if isinstance(obj, (pd.Series, pd.Index)):
        obj = obj.to_numpy()
    if type(obj) is SymArray:
        out = obj
        if dtype is not None and np.dtype(dtype) != obj.dtype:
            out = obj.astype(dtype)
        elif copy:
            out = obj.copy()
    else:
        if dtype is not None and np.dtype(dtype).kind == "O":
            return np.array(obj, dtype=object)
        try:
            out = to_symarray(obj, dtype)
        except _NoLift as e:
            raise Unsupported(str(e))
    while out.ndim < ndmin:
        out = SymArray(out._a[None], out.dtype)
    return out


@npf(np.atleast_1d)
def _atleast_1d(*arys):
    out = []
    for a in arys:
        a = to_symarray(a)
        out.append(SymArray(a._a.reshape(1), a.dtype) if a.ndim == 0 else a)
    return out[0] if len(out) == 1 else tuple(out)


@calls(np.array)
def _new_array(obj, dtype=None, copy=True, **k):
    return _array(obj, dtype, copy=copy, **k)


@npf(np.copy)
def _copy(a, *x, **k):
    return a.copy()


@npf(np.copyto)
def _copyto(dst, src, casting="same_kind", where=True):
    if where is not True or not isinstance(dst, SymArray):
        raise Unsupported("copyto")
    dst[...] = src


@npf(np.empty_like, np.zeros_like)
def _zeros_like(a, dtype=None, shape=None, **k):
    a = to_symarray(a)
    dt = np.dtype(dtype) if dtype is not None else a.dtype
    shape = a.shape if shape is None else shape
    out = np.empty(shape, dtype=object)
    out[...] = R.cast_raw(0, "i", dt.kind)
    return SymArray(out, R.DT_NS if dt.kind == "M" else R.TD_NS if dt.kind == "m" else dt)


@npf(np.ones_like)
def _ones_like(a, dtype=None, **k):
    o = _zeros_like(a, dtype)
    o[...] = 1
    return o


@npf(np.full_like)
def _full_like(a, fill_value, dtype=None, **k):
    o = _zeros_like(a, dtype)
    o[...] = fill_value
    return o


@calls(np.full)
def _full(shape, fill_value, dtype=None, order="C", **k):
    fv = to_symarray(fill_value)
    shape = deep_concrete(shape)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = fv._a[()] if fv.ndim == 0 else None
    if fv.ndim:
        out[...] = np.broadcast_to(fv._a, out.shape)
    s = SymArray(out, fv.dtype)
    return s if dtype is None else s.astype(dtype)


def _zeros_call(func):
    def call(shape, *a, **k):
        # sizes are chosen: every feasible one is explored
        if type(shape) is SymScalar or type(shape) is SymArray:
            shape = [shape] if type(shape) is SymScalar else list(shape)
        return func(tuple(int(i) for i in shape), *a, **k)

    CALLS[func] = call


for _f in (np.zeros, np.empty, np.ones):
    _zeros_call(_f)


@calls(np.arange)
def _arange(start, stop=None, step=None, dtype=None, **k):
    if stop is None:
        start, stop = 0, start
    span = stop - start
    if step is None:
        step = np.timedelta64(1, "ns") if getattr(span, "dtype", None) is not None and span.dtype.kind == "m" else 1
    if not has_sym(span) and not has_sym(step):
        q = span / step
    else:
        q = span / step
    n = math.ceil(q) if not has_sym(q) else int(np.ceil(q))
    n = max(0, int(n))
    vals = [start + i * step for i in range(n)]
    if not vals:
        s = to_symarray(np.atleast_1d(np.asarray(0)))
        base = to_symarray(start)
        dt = base.dtype
        if not has_sym(step) or True:
            st = to_symarray(step)
            if dt.kind == "i" and st.dtype.kind == "f":
                dt = F8
        return SymArray(np.empty((0,), dtype=object), dt)
    out = sym_from_nested(vals)
    return out if dtype is None else out.astype(dtype)


@npf(np.linspace)
def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    div = (num - 1) if endpoint else num
    d = to_symarray(start).dtype.kind
    if d in "Mm":
        raise Unsupported("linspace time")
    fs = SymScalar  # noqa
    start = _cast_any(to_symarray(start), F8)[()]
    stop = _cast_any(to_symarray(stop), F8)[()]
    step = (stop - start) / div if div > 0 else math.nan
    vals = [start + i * step if div > 0 else start for i in range(num)]
    if endpoint and num > 1:
        vals[-1] = stop
    out = sym_from_nested(vals, F8) if vals else np.empty(0)
    if dtype is not None:
        dt = np.dtype(dtype)
        if dt.kind in "iu":
            out = np.floor(out)
        out = out.astype(dt)
    return (out, step) if retstep else out


# ------------------------------------------------------------ structure
def _struct(func):
    """Model a function that only moves elements: apply to the object array."""

    def h(a, *args, **kw):
        s = to_symarray(a)
        args = [deep_concrete(x) for x in args]
        kw = {k: deep_concrete(v) for k, v in kw.items()}
        r = func(s._a, *args, **kw)
        return SymArray(np.asarray(r, dtype=object), s.dtype)

    NPF[func] = h


for _f in (
    np.transpose, np.moveaxis, np.swapaxes, np.reshape, np.ravel, np.squeeze, np.expand_dims, np.flip,
    np.flipud, np.fliplr, np.roll, np.repeat, np.tile, np.broadcast_to, np.rot90, np.take_along_axis,
    np.lib.stride_tricks.sliding_window_view,
):
    _struct(_f)


@npf(np.take)
def _take(a, indices, axis=None, **k):
    s = to_symarray(a)
    n = s.size if axis is None else s.shape[axis]
    if k.get("mode") == "clip" and has_sym(indices):
        indices = np.clip(to_symarray(indices), 0, n - 1)
    idx = conc_index(to_symarray(indices), (n,)) if has_sym(indices) else indices
    r = np.take(s._a, idx, axis=axis, mode=k.get('mode') or 'raise')
    if isinstance(r, np.ndarray):
        return SymArray(r, s.dtype)
    return mk_scalar(r, s.dtype)


@npf(np.delete)
def _delete(a, obj, axis=None):
    s = to_symarray(a)
    return SymArray(np.delete(s._a, deep_concrete(obj), axis), s.dtype)


@npf(np.shape)
def _shape(a):
    return to_symarray(a).shape


@npf(np.ndim)
def _ndim(a):
    return to_symarray(a).ndim


@npf(np.size)
def _size(a, axis=None):
    s = to_symarray(a)
    return s.size if axis is None else s.shape[axis]


def _common(arrs):
    ss = [to_symarray(a) for a in arrs]
    kinds = {s.dtype.kind for s in ss}
    if len(kinds) == 1:
        k = kinds.pop()
        dt = ss[0].dtype if k in "Mmb" else np.result_type(*[s.dtype for s in ss])
    else:
        dt = np.result_type(*[s.dtype for s in ss])
    return [cast_obj(s._a, s.dtype.kind, dt.kind) for s in ss], dt


@npf(np.concatenate)
def _concatenate(arrs, axis=0, **k):
    objs, dt = _common(list(arrs))
    return SymArray(np.concatenate(objs, axis=axis), dt)


@npf(np.stack)
def _stack(arrs, axis=0, **k):
    objs, dt = _common(list(arrs))
    return SymArray(np.stack(objs, axis=axis), dt)


@npf(np.hstack)
def _hstack(arrs, **k):
    objs, dt = _common(list(arrs))
    return SymArray(np.hstack(objs), dt)


@npf(np.vstack)
def _vstack(arrs, **k):
    objs, dt = _common(list(arrs))
    return SymArray(np.vstack(objs), dt)


@npf(np.append)
def _append(a, v, axis=None):
    a, v = to_symarray(a), to_symarray(v)
    if axis is None:
        a, v = a.ravel(), v.ravel()
        axis = 0
    return _concatenate([a, v], axis=axis)


@npf(np.insert)
def _insert(a, obj, values, axis=None):
    (x, v), dt = _common([a, values])
    return SymArray(np.insert(x, deep_concrete(obj), v, axis=axis), dt)


@npf(np.pad)
def _pad(a, pad_width, mode="constant", **kw):
    (s, cv), dt = _common([a, kw.get("constant_values", 0)]) if mode == "constant" and "constant_values" in kw else ([to_symarray(a)._a, np.array(None)], to_symarray(a).dtype)
    src = to_symarray(a)
    dt = src.dtype
    fill = R.cast_raw(0, "i", dt.kind)
    if mode == "constant":
        if "constant_values" in kw:
            c = to_symarray(kw["constant_values"])
            if c.ndim:
                raise Unsupported("pad constant arrays")
            fill = R.cast_raw(c._a[()], c.dtype.kind, dt.kind)
        probe = np.pad(np.arange(src.size).reshape(src.shape), deep_concrete(pad_width), mode="constant", constant_values=-1)
    else:
        probe = np.pad(np.arange(src.size).reshape(src.shape), deep_concrete(pad_width), mode=mode, **{k: v for k, v in kw.items()})
    flat = src._a.reshape(-1)
    out = np.empty(probe.shape, dtype=object)
    for i, p in np.ndenumerate(probe):
        out[i] = fill if p < 0 else flat[p]
    return SymArray(out, dt)


@npf(np.broadcast_arrays)
def _broadcast_arrays(*arrs, **k):
    ss = [to_symarray(a) for a in arrs]
    bc = np.broadcast_arrays(*[s._a for s in ss])
    return tuple(SymArray(b.copy(), s.dtype) for b, s in zip(bc, ss))


@npf(np.meshgrid)
def _meshgrid(*xs, **kw):
    ss = [to_symarray(x) for x in xs]
    outs = np.meshgrid(*[s._a for s in ss], **kw)
    return [SymArray(o, s.dtype) for o, s in zip(outs, ss)]


@npf(np.split, np.array_split)
def _split(a, ind, axis=0):
    s = to_symarray(a)
    return [SymArray(x, s.dtype) for x in np.array_split(s._a, deep_concrete(ind), axis=axis)]


# ------------------------------------------------------------ reductions
@npf(np.min, np.amin)
def _min(a, axis=None, out=None, keepdims=False, **k):
    return reduce_ufunc(np.minimum, a, axis=axis, keepdims=bool(keepdims))


@npf(np.max, np.amax)
def _max(a, axis=None, out=None, keepdims=False, **k):
    return reduce_ufunc(np.maximum, a, axis=axis, keepdims=bool(keepdims))


@npf(np.nanmin)
def _nanmin(a, axis=None, out=None, keepdims=False, **k):
    return reduce_ufunc(np.fmin, a, axis=axis, keepdims=bool(keepdims))


@npf(np.nanmax)
def _nanmax(a, axis=None, out=None, keepdims=False, **k):
    return reduce_ufunc(np.fmax, a, axis=axis, keepdims=bool(keepdims))


@npf(np.sum)
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    r = reduce_ufunc(np.add, a, axis=axis, keepdims=bool(keepdims))
    return r if dtype is None else r.astype(dtype)


@npf(np.prod)
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_ufunc(np.multiply, a, axis=axis, keepdims=bool(keepdims))


@npf(np.all)
def _all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_ufunc(np.logical_and, a, axis=axis, keepdims=bool(keepdims))


@npf(np.any)
def _any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_ufunc(np.logical_or, a, axis=axis, keepdims=bool(keepdims))


def _nan_split(a):
    """Return (values with nan->0, count array) for concrete nans."""
    s = to_symarray(a)
    z = R.cast_raw(0, "i", s.dtype.kind)
    vals = s._a.copy()
    cnt = np.ones(s.shape, dtype=int)
    for i, v in np.ndenumerate(s._a):
        if v is NAT or (R.special(v) and math.isnan(v)):
            vals[i] = z
            cnt[i] = 0
    return SymArray(vals, s.dtype), cnt


def _mean_impl(a, axis, keepdims, nan):
    s = to_symarray(a)
    if s.dtype.kind in "biu":
        s = s.astype(F8)
    if nan:
        v, c = _nan_split(s)
        tot = reduce_ufunc(np.add, v, axis=axis, keepdims=keepdims)
        n = np.sum(c, axis=axis, keepdims=keepdims)
    else:
        tot = reduce_ufunc(np.add, s, axis=axis, keepdims=keepdims)
        n = int(np.prod([s.shape[x] for x in _norm_axis(axis, s.ndim)], dtype=int))
    return tot / n


@npf(np.mean)
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _mean_impl(a, axis, bool(keepdims), False)


@npf(np.var)
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    s = to_symarray(a)
    if s.dtype.kind not in "biuf" or out is not None or k:
        raise Unsupported("var")
    d = s - _mean_impl(s, axis, True, False)
    n = int(np.prod([s.shape[x] for x in _norm_axis(axis, s.ndim)], dtype=int))
    return reduce_ufunc(np.add, d * d, axis=axis, keepdims=bool(keepdims)) / (n - ddof)


@npf(np.std)
def _std(a, axis=None, **k):
    return np.sqrt(_var(a, axis, **k))


@npf(np.nanmean)
def _nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _mean_impl(a, axis, bool(keepdims), True)


@npf(np.nansum)
def _nansum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    v, _ = _nan_split(a)
    return reduce_ufunc(np.add, v, axis=axis, keepdims=bool(keepdims))


def _is_nan(c):
    return c is NAT or (R.special(c) and math.isnan(c))


@npf(np.median)
def _median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return _median_impl(a, axis, keepdims, False)


@npf(np.nanmedian)
def _nanmedian(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return _median_impl(a, axis, keepdims, True)


def _median_impl(a, axis, keepdims, nan):
    s = to_symarray(a)
    if s.dtype.kind in "biu":
        s = s.astype(F8)
    axes = _norm_axis(axis, s.ndim)
    rest = [i for i in range(s.ndim) if i not in axes]
    t = s._a.transpose(*axes, *rest)
    m = int(np.prod([s.shape[i] for i in axes], dtype=int))
    t = t.reshape(m, *[s.shape[i] for i in rest])
    out_ = np.empty(t.shape[1:], dtype=object)
    for ix in np.ndindex(*out_.shape):
        col = [t[(j, *ix)] for j in range(m)]
        null = NAT if s.dtype.kind in "mM" else float("nan")
        if not nan and any(_is_nan(c) for c in col):
            out_[ix] = null
            continue
        col = [c for c in col if not _is_nan(c)]
        if not col:
            out_[ix] = null
            continue
        order = _sort_idx(col, s.dtype.kind)
        h = len(col) // 2
        if len(col) % 2:
            out_[ix] = col[order[h]]
        else:
            k = s.dtype.kind
            if k == "f":
                out_[ix] = R.f_div(R.f_add(col[order[h - 1]], col[order[h]]), Fraction(2))
            else:
                out_[ix] = R.i_truncdiv(R.si(col[order[h - 1]] + col[order[h]]), 2)
    if keepdims:
        out_ = out_.reshape([1 if i in axes else s.shape[i] for i in range(s.ndim)])
    return _scalar_out(wrap(out_, s.dtype))


@npf(np.cumsum)
def _cumsum(a, axis=None, **k):
    s = to_symarray(a)
    if axis is None:
        s, axis = s.ravel(), 0
    return accumulate_ufunc(np.add, s, axis=axis)


@npf(np.diff)
def _diff(a, n=1, axis=-1, prepend=None, append=None):
    s = to_symarray(a)
    for _ in range(int(n)):
        sl1 = [slice(None)] * s.ndim
        sl2 = [slice(None)] * s.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        uf = np.not_equal if s.dtype.kind == "b" else np.subtract
        s = to_symarray(apply_ufunc(uf, SymArray(s._a[tuple(sl1)], s.dtype), SymArray(s._a[tuple(sl2)], s.dtype)))
    return wrap(s._a, s.dtype)


@npf(np.ptp)
def _ptp(a, axis=None, **k):
    return _max(a, axis) - _min(a, axis)


@npf(np.count_nonzero)
def _count_nonzero(a, axis=None, **k):
    return reduce_ufunc(np.add, to_symarray(a).astype(bool), axis=axis)


# ------------------------------------------------------------ selection
@npf(np.where)
def _where(cond, x=None, y=None):
    c = to_symarray(cond)
    if c.dtype.kind != "b":
        c = c.astype(bool)
    if x is None and y is None:
        return c.to_concrete().nonzero()
    try:
        (xo, yo), dt = _common([x, y])
    except _NoLift:
        raise Unsupported("where operands")
    bc = np.broadcast_arrays(c._a, xo, yo)
    out = np.empty(bc[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = R.ite(bc[0][i], bc[1][i], bc[2][i], dt.kind)
    return _scalar_out(wrap(out, dt))


@npf(np.nonzero, np.argwhere, np.flatnonzero)
def _nonzero(a):
    return to_symarray(a).nonzero()


def _argwhere(a):
    return np.argwhere(to_symarray(a).astype(bool).to_concrete())


NPF[np.argwhere] = _argwhere
NPF[np.flatnonzero] = lambda a: np.flatnonzero(to_symarray(a).astype(bool).to_concrete())


@npf(np.clip)
def _clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    if a_min is not None:
        a = apply_ufunc(np.maximum, a, a_min)
    if a_max is not None:
        a = apply_ufunc(np.minimum, a, a_max)
    return a


@npf(np.round, np.around)
def _round(a, decimals=0, out=None):
    return np_round(a, decimals)


@npf(np.fix)
def _fix(a, out=None):
    return apply_ufunc(np.trunc, a)


@npf(np.nan_to_num)
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    s = to_symarray(x)
    out = s._a.copy()
    for i, v in np.ndenumerate(s._a):
        if R.special(v):
            out[i] = Fraction(0) if math.isnan(v) else R.from_float(np.nan_to_num(v))
    return _scalar_out(wrap(out, s.dtype))


@npf(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    for v in (a, b):
        if v is None or isinstance(v, str) or (type(v) is np.ndarray and v.dtype.kind in "OUS" and any(o is None or isinstance(o, str) for o in v.ravel())):
            raise TypeError("isclose needs numbers")
    a, b = to_symarray(a), to_symarray(b)
    bc = np.broadcast_arrays(a._a, b._a)
    out = np.empty(bc[0].shape, dtype=object)
    rt, at = Fraction(float(rtol)), None
    timelike = a.dtype.kind in "Mm" or b.dtype.kind in "Mm"
    if timelike:
        # numpy: timedelta atol required to be castable; rtol * |timedelta| truncates
        if not isinstance(atol, (np.timedelta64,)):
            raise TypeError("isclose time atol")
    at = Fraction(float(atol)) if not timelike else Fraction(int(np.timedelta64(atol, "ns").astype(int)))
    for i in np.ndindex(*out.shape):
        x = R.cast_raw(bc[0][i], a.dtype.kind, "f")
        y = R.cast_raw(bc[1][i], b.dtype.kind, "f")
        if R.special(x) or R.special(y):
            if R.special(x) and R.special(y) and (x == y or (math.isnan(x) and math.isnan(y) and equal_nan)):
                out[i] = True
            else:
                out[i] = False
            continue
        d = R.f_sub(x, y)
        ad = R.f_ite(R.f_cmp("ge", d, Fraction(0)), d, R.f_neg(d))
        ay = R.f_ite(R.f_cmp("ge", y, Fraction(0)), y, R.f_neg(y))
        out[i] = R.f_cmp("le", ad, R.f_add(at, R.f_mul(rt, ay)))
    return _scalar_out(wrap(out, B1))


@npf(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _isclose(a, b, rtol, atol, equal_nan)
    r = to_symarray(r).all() if is_sym(r) else np.all(r)
    return r if is_sym(r) else bool(r)


@npf(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    a, b = to_symarray(a), to_symarray(b)
    if a.shape != b.shape:
        return False
    if equal_nan:
        acc = True
        for x, y in zip(a._a.flat, b._a.flat):
            nx = x is NAT or (R.special(x) and math.isnan(x))
            ny = y is NAT or (R.special(y) and math.isnan(y))
            if nx or ny:
                acc = R.b_and(acc, nx and ny)
            else:
                kx = "f" if "f" in (a.dtype.kind, b.dtype.kind) else a.dtype.kind
                acc = R.b_and(acc, R.cmp("eq", kx, R.cast_raw(x, a.dtype.kind, kx), R.cast_raw(y, b.dtype.kind, kx)))
        return mk_scalar(acc, B1, bool)
    try:
        r = apply_ufunc(np.equal, a, b)
    except TypeError:
        return False
    r = to_symarray(r).all()
    return r if is_sym(r) else bool(r)


# ------------------------------------------------------------ sorting
def _less(kind, a, b):
    """a < b, nan/NaT sorted last."""
    na = a is NAT or (R.special(a) and math.isnan(a))
    nb = b is NAT or (R.special(b) and math.isnan(b))
    if na:
        return False
    if nb:
        return True
    return R.cmp("lt", kind, a, b)


def _sort_idx(vals, kind):
    """Stable order of raws; forks on comparisons."""
    e = E.eng()
    order = []
    for i in range(len(vals)):
        j = len(order)
        while j > 0 and e.branch(R.zb(_less(kind, vals[i], vals[order[j - 1]]))):
            j -= 1
        order.insert(j, i)
    return order


@npf(np.argsort)
def _argsort(a, axis=-1, kind=None, order=None, **k):
    s = to_symarray(a)
    if axis is None:
        s, axis = s.ravel(), 0
    src = np.moveaxis(s._a, axis, -1)
    out = np.empty(src.shape, dtype=np.int64)
    for ix in np.ndindex(*src.shape[:-1]):
        out[ix] = _sort_idx(list(src[ix]), s.dtype.kind)
    return np.moveaxis(out, -1, axis)


@npf(np.sort)
def _sort(a, axis=-1, **k):
    s = to_symarray(a)
    if axis is None:
        s, axis = s.ravel(), 0
    o = _argsort(s, axis=axis)
    return SymArray(np.take_along_axis(s._a, o, axis=axis), s.dtype)


@npf(np.lexsort)
def _lexsort(keys, axis=-1):
    ks = [to_symarray(k) for k in keys]
    n = ks[0].shape[0]
    idx = list(range(n))
    for k in ks:
        vals = [k._a[i] for i in idx]
        o = _sort_idx(vals, k.dtype.kind)
        idx = [idx[i] for i in o]
    return np.array(idx)


@npf(np.unique)
def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True, **k):
    s = to_symarray(a).ravel()
    if axis is not None:
        raise Unsupported("unique axis")
    vals = list(s._a)
    order = _sort_idx(vals, s.dtype.kind)
    e = E.eng()
    groups = []
    inv = np.empty(len(vals), dtype=np.int64)
    for i in order:
        if groups:
            p = vals[groups[-1][0]]
            v = vals[i]
            both_nan = (R.special(p) and math.isnan(p) and R.special(v) and math.isnan(v)) or (p is NAT and v is NAT)
            if both_nan or e.branch(R.zb(R.cmp("eq", s.dtype.kind, p, v))):
                groups[-1].append(i)
                inv[i] = len(groups) - 1
                continue
        groups.append([i])
        inv[i] = len(groups) - 1
    out = np.empty(len(groups), dtype=object)
    for j, g in enumerate(groups):
        out[j] = vals[g[0]]
    ret = [wrap(out, s.dtype)]
    if return_index:
        ret.append(np.array([min(g) for g in groups]))
    if return_inverse:
        ret.append(inv)
    if return_counts:
        ret.append(np.array([len(g) for g in groups]))
    return ret[0] if len(ret) == 1 else tuple(ret)


@npf(np.searchsorted)
def _searchsorted(a, v, side="left", sorter=None):
    s = to_symarray(a)
    vs = to_symarray(v)
    if sorter is not None:
        s = SymArray(s._a[np.asarray(sorter)], s.dtype)
    (ao, vo), dt = _common([s, vs])
    out = np.empty(vo.shape, dtype=object)
    op = "lt" if side == "left" else "le"
    for i, x in np.ndenumerate(vo):
        cnt = 0
        for y in ao:
            # nan/NaT sort last
            ny = y is NAT or (R.special(y) and math.isnan(y))
            nx = x is NAT or (R.special(x) and math.isnan(x))
            if ny and not nx:
                c = False
            elif nx:
                c = (not ny) or side == "right"
            else:
                c = R.cmp(op, dt.kind, y, x)
            cnt = cnt + R.b2i(c)
        out[i] = R.si(cnt)
    return _scalar_out(wrap(out, I8))


def _argext(op):
    def h(a, axis=None, out=None, **k):
        s = to_symarray(a)
        if axis is None:
            s, axis = s.ravel(), 0
        src = np.moveaxis(s._a, axis, -1)
        o = np.empty(src.shape[:-1], dtype=object)
        kd = s.dtype.kind
        for ix in np.ndindex(*src.shape[:-1]):
            col = src[ix]
            best, bi = col[0], 0
            for j in range(1, len(col)):
                c = R.cmp(op, kd, col[j], best)
                best = R.ite(c, col[j], best, kd)
                bi = R.i_ite(c, j, bi)
            o[ix] = bi
        return _scalar_out(wrap(o, I8))

    return h


NPF[np.argmin] = NPF[np.nanargmin] = _argext("lt")
NPF[np.argmax] = NPF[np.nanargmax] = _argext("gt")


@npf(np.isin)
def _isin(a, test, **k):
    s, t = to_symarray(a), to_symarray(test)
    (ao, to_), dt = _common([s, t])
    out = np.empty(ao.shape, dtype=object)
    for i, x in np.ndenumerate(ao):
        acc = False
        for y in to_.flat:
            acc = R.b_or(acc, R.cmp("eq", dt.kind, x, y))
        out[i] = acc
    if k.get("invert"):
        for i, x in np.ndenumerate(out):
            out[i] = R.b_not(x)
    return wrap(out, B1)


@npf(np.intersect1d)
def _intersect1d(a, b, assume_unique=False, return_indices=False):
    ua, ia = _unique(a, return_index=True)
    ub, ib = _unique(b, return_index=True)
    ua, ub = to_symarray(ua), to_symarray(ub)
    (ao, bo), dt = _common([ua, ub])
    e = E.eng()
    keep, k1, k2 = [], [], []
    for i, x in enumerate(ao):
        for j, y in enumerate(bo):
            if e.branch(R.zb(R.cmp("eq", dt.kind, x, y))):
                keep.append(x)
                k1.append(ia[i])
                k2.append(ib[j])
                break
    out = np.empty(len(keep), dtype=object)
    out[:] = keep
    r = wrap(out, dt)
    if return_indices:
        return r, np.array(k1, dtype=int), np.array(k2, dtype=int)
    return r


@npf(np.union1d)
def _union1d(a, b):
    return _unique(_concatenate([to_symarray(a).ravel(), to_symarray(b).ravel()]))


@npf(np.interp)
def _interp(x, xp, fp, left=None, right=None, period=None):
    xs, xp, fp = to_symarray(x), to_symarray(xp).astype(F8), to_symarray(fp).astype(F8)
    xs = xs.astype(F8)
    out = np.empty(xs.shape, dtype=object)
    n = len(xp)
    for i, v in np.ndenumerate(xs._a):
        r = fp._a[n - 1] if right is None else to_symarray(right).astype(F8)._a[()]
        r = R.f_ite(R.f_cmp("eq", v, xp._a[n - 1]), fp._a[n - 1], r)
        for j in range(n - 2, -1, -1):
            slope = R.f_div(R.f_sub(fp._a[j + 1], fp._a[j]), R.f_sub(xp._a[j + 1], xp._a[j]))
            seg = R.f_add(fp._a[j], R.f_mul(slope, R.f_sub(v, xp._a[j])))
            r = R.f_ite(R.f_cmp("lt", v, xp._a[j + 1]), seg, r)
        lv = fp._a[0] if left is None else to_symarray(left).astype(F8)._a[()]
        r = R.f_ite(R.f_cmp("lt", v, xp._a[0]), lv, r)
        out[i] = r
    return _scalar_out(wrap(out, F8))


@npf(np.iscomplexobj)
def _iscomplexobj(a):
    return np.result_type(getattr(a, "dtype", type(a))).kind == "c"


@npf(np.isrealobj)
def _isrealobj(a):
    return not _iscomplexobj(a)


@npf(np.real)
def _real(a):
    return to_symarray(a).real if np.shape(a) else a.real


@npf(np.imag)
def _imag(a):
    return to_symarray(a).imag if np.shape(a) else a.imag


@npf(np.isreal)
def _isreal(a):
    return _imag(a) == 0


def _const_gap(v):
    """A difference whose symbolic parts cancel, as a plain number."""
    if isinstance(v, R.Rat) and R.is_z3(v.num):
        num = z3.simplify(v.num)
        if z3.is_int_value(num):
            return Fraction(num.as_long(), v.den)
    return v


@npf(np.gradient)
def _gradient(f, *varargs, axis=None, edge_order=1):
    s = to_symarray(f).astype(F8)
    axes = _norm_axis(axis, s.ndim)
    outs = []
    dxs = list(varargs) or [1.0]
    if len(dxs) == 1:
        dxs = dxs * len(axes)
    for ax, dx in zip(axes, dxs):
        d = np.moveaxis(s._a, ax, 0)
        out = np.empty(d.shape, dtype=object)
        dxa = to_symarray(dx).astype(F8)
        n = d.shape[0]
        if dxa.ndim == 0:
            h = [dxa._a[()]] * (n - 1)
            uniform = True
        else:
            if len(dxa) != n:
                raise ValueError("when 1d, distances must match the length of the corresponding dimension")
            h = [_const_gap(R.f_sub(dxa._a[i + 1], dxa._a[i])) for i in range(n - 1)]
            uniform = False
        for ix in np.ndindex(*d.shape[1:]):
            y = [d[(j, *ix)] for j in range(n)]
            for j in range(1, n - 1):
                if uniform:
                    v = R.f_div(R.f_sub(y[j + 1], y[j - 1]), R.f_mul(Fraction(2), h[0]))
                else:
                    a_, b_ = h[j - 1], h[j]
                    num = R.f_add(
                        R.f_sub(R.f_mul(R.f_mul(a_, a_), y[j + 1]), R.f_mul(R.f_mul(b_, b_), y[j - 1])),
                        R.f_mul(R.f_sub(R.f_mul(b_, b_), R.f_mul(a_, a_)), y[j]),
                    )
                    den = R.f_mul(R.f_mul(a_, b_), R.f_add(a_, b_))
                    v = R.f_div(num, den)
                out[(j, *ix)] = v
            if edge_order == 1:
                out[(0, *ix)] = R.f_div(R.f_sub(y[1], y[0]), h[0])
                out[(n - 1, *ix)] = R.f_div(R.f_sub(y[-1], y[-2]), h[-1])
            else:
                if not uniform:
                    m_, a_ = R.f_mul, R.f_add
                    p, q = h[0], h[1]
                    c0 = R.f_neg(R.f_div(a_(m_(Fraction(2), p), q), m_(p, a_(p, q))))
                    c1 = R.f_div(a_(p, q), m_(p, q))
                    c2 = R.f_neg(R.f_div(p, m_(q, a_(p, q))))
                    out[(0, *ix)] = a_(a_(m_(c0, y[0]), m_(c1, y[1])), m_(c2, y[2]))
                    p, q = h[-2], h[-1]
                    c0 = R.f_div(q, m_(p, a_(p, q)))
                    c1 = R.f_neg(R.f_div(a_(p, q), m_(p, q)))
                    c2 = R.f_div(a_(m_(Fraction(2), q), p), m_(q, a_(p, q)))
                    out[(n - 1, *ix)] = a_(a_(m_(c0, y[-3]), m_(c1, y[-2])), m_(c2, y[-1]))
                    continue
                t2 = R.f_mul(Fraction(2), h[0])
                out[(0, *ix)] = R.f_div(R.f_add(R.f_add(R.f_mul(Fraction(-3), y[0]), R.f_mul(Fraction(4), y[1])), R.f_neg(y[2])), t2)
                out[(n - 1, *ix)] = R.f_div(R.f_add(R.f_add(R.f_mul(Fraction(3), y[-1]), R.f_mul(Fraction(-4), y[-2])), y[-3]), t2)
        outs.append(wrap(np.moveaxis(out, 0, ax), F8))
    return outs[0] if len(outs) == 1 else tuple(outs)


@npf(np.trapezoid)
def _trapezoid(y, x=None, dx=1.0, axis=-1):
    s = to_symarray(y).astype(F8)
    n = s.shape[axis]
    d = np.moveaxis(s._a, axis, -1)
    if x is None:
        h = [to_symarray(dx).astype(F8)._a[()]] * (n - 1)
    else:
        xa = to_symarray(x)
        k = xa.dtype.kind
        xa = xa.astype(F8)
        if xa.ndim != 1:
            raise Unsupported("trapezoid nd x")
        h = [_const_gap(R.f_sub(xa._a[i + 1], xa._a[i])) for i in range(n - 1)]
    out = np.empty(d.shape[:-1], dtype=object)
    for ix in np.ndindex(*out.shape):
        acc = Fraction(0)
        for j in range(n - 1):
            acc = R.f_add(acc, R.f_div(R.f_mul(h[j], R.f_add(d[(*ix, j)], d[(*ix, j + 1)])), Fraction(2)))
        out[ix] = acc
    return _scalar_out(wrap(out, F8))


# ------------------------------------------------------------ scalar calls
def _time_cls(kind, dt):
    def h(val=None, unit=None, *a):
        if type(val) is SymArray:
            val = val._one()
        if not is_sym(val):
            raise Unsupported("time cls")
        k = val.dtype.kind
        f = 1
        if unit is not None and not isinstance(unit, str):
            unit = unit[0]
        if k in "iu":
            f = R._UNIT_NS[unit or "ns"]
            return mk_scalar(R.si(val.raw * f), dt)
        if k in "Mm":
            return mk_scalar(val.raw, dt)
        raise Unsupported("time cls kind")

    return h


CALLS[np.datetime64] = _time_cls("M", DT_NS)
CALLS[np.timedelta64] = _time_cls("m", TD_NS)


@calls(pd.Timestamp)
def _timestamp(x=None, **k):
    return SymScalar(x.raw, DT_NS, pd.Timestamp)


@calls(pd.Timedelta)
def _timedelta(x=None, unit=None, **k):
    if x.dtype.kind == "m":
        return SymScalar(x.raw, TD_NS, pd.Timedelta)
    raise Unsupported("Timedelta")


def _as_scalar(x):
    if type(x) is SymArray:
        return x._one()
    return x


@calls(int)
def _int(x=0, *a):
    x = _as_scalar(x)
    if not is_sym(x):
        return int(x, *a)
    if x.dtype.kind == "f" and R.special(x.raw):
        return int(x.raw)
    return mk_scalar(R.cast_raw(x.raw, x.dtype.kind, "i"), I8, int)


@calls(float)
def _float(x=0.0):
    x = _as_scalar(x)
    if x.dtype.kind in "Mm":
        return mk_scalar(R.i2f(x.raw), F8, float)
    return mk_scalar(R.cast_raw(x.raw, x.dtype.kind, "f"), F8, float)


@calls(bool)
def _bool(x=False):
    x = _as_scalar(x)
    if type(x) is SymScalar and x.dtype.kind == "b":
        return SymScalar(x.raw, B1, bool)
    return bool(x)


def _npscalar(dt):
    def h(x=0, *a, **k):
        if type(x) is SymArray and x.ndim:
            return x.astype(dt)
        return _as_scalar(x).astype(dt)

    return h


for _t in (np.float64, np.float32, np.int64, np.int32, np.bool_):
    CALLS[_t] = _npscalar(np.dtype(_t))


@calls(type)
def _type(x, *a):
    return type(x, *a) if a else x.__class__


@calls(hash)
def _hash(x):
    return hash(x)


@calls(round)
def _pyround(x, n=None):
    return x.__round__(n)


@calls(math.floor)
def _mfloor(x):
    return x.__floor__()


@calls(math.ceil)
def _mceil(x):
    return x.__ceil__()


@calls(math.trunc)
def _mtrunc(x):
    return _int(x)


@calls(math.isnan)
def _misnan(x):
    return bool(R.special(x.raw) and math.isnan(x.raw))


@calls(math.isinf)
def _misinf(x):
    return bool(R.special(x.raw) and math.isinf(x.raw))


@calls(math.isfinite)
def _misfin(x):
    return not R.special(x.raw)


@calls(math.isclose)
def _misclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    d = abs(a - b)
    m = apply_ufunc(np.maximum, abs(a) * rel_tol, abs(b) * rel_tol)
    return d <= apply_ufunc(np.maximum, m, abs_tol)


@calls(min)
def _pymin(*a, **k):
    return _minmax(builtins.min, np.minimum, a, k)


@calls(max)
def _pymax(*a, **k):
    return _minmax(builtins.max, np.maximum, a, k)


def _minmax(fn, uf, a, k):
    if k:
        return fn(*a, **k)
    items = list(a[0]) if len(a) == 1 else list(a)
    try:
        acc = items[0]
        for x in items[1:]:
            acc = apply_ufunc(uf, acc, x)
        return acc
    except (_NoLift, Unsupported, TypeError):
        return fn(*a, **k)


@calls(pd.isnull, pd.isna)
def _isnull(x):
    if type(x) is SymScalar:
        return bool(x.raw is NAT or (R.special(x.raw) and math.isnan(x.raw)))
    if type(x) is SymArray:
        out = np.zeros(x.shape, dtype=bool)
        for i, v in np.ndenumerate(x._a):
            out[i] = v is NAT or (R.special(v) and math.isnan(v))
        return out
    return pd.isnull(x)


CALLS[pd.notnull] = CALLS[pd.notna] = lambda x: ~_isnull(x) if type(x) is SymArray else (not _isnull(x) if is_sym(x) else pd.notnull(x))


@calls(np.atleast_2d)
def _atleast_2d(x):
    a = to_symarray(x)
    return a.reshape(1, a.size) if a.ndim < 2 else a


@calls(np.isscalar)
def _isscalar(x):
    return type(x) is SymScalar


@calls(pd.to_datetime)
def _to_datetime(x, **k):
    if is_sym(x) and x.dtype.kind == "M":
        return x
    if is_sym(x) and x.dtype.kind in "iu" and k.get("unit", "ns") == "ns":
        return x.astype(DT_NS)
    raise Unsupported("to_datetime")


@calls(pd.to_timedelta)
def _to_timedelta(x, **k):
    if is_sym(x) and x.dtype.kind == "m":
        return x
    if is_sym(x) and x.dtype.kind in "iu" and k.get("unit", "ns") == "ns":
        return x.astype(TD_NS)
    raise Unsupported("to_timedelta")


@calls(sum)
def _pysum(it, start=0):
    acc = start
    for x in it:
        acc = acc + x
    return acc


def _uf_call(uf):
    def h(*a, **k):
        return uf(*a, **k)  # goes through __array_ufunc__

    return h


@calls(np.may_share_memory, np.shares_memory)
def _shares(a, b, *x):
    return False


@calls(np.iterable)
def _iterable(x):
    return type(x) is SymArray


@npf(np.array2string)
def _array2string(a, *args, **kwargs):
    """Text of an array (histories): its shape stands for the values."""
    return f"[symbolic {to_symarray(a).shape}]"
