"""Models for helper libraries, registered after dascore is imported."""
from __future__ import annotations

import inspect
import math
from fractions import Fraction

import numpy as np

from . import raw as R
from .npmodel import CALLS, INSTANCES, NPF, _const_gap
from .raw import C16, F8, Unsupported
from .sym import mk_scalar, to_symarray, wrap


def _interp1d(x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
    """scipy's interp1d with extrapolation: straight lines, or the library's own weights where the places are known."""
    straight = kind in ("linear", "slinear", 1)
    if kind not in ("linear", "slinear", "nearest", "previous", "next", "quadratic", "cubic", 1, 2, 3) or not (isinstance(fill_value, str) and fill_value == "extrapolate"):
        raise Unsupported(f"interp1d {kind}")
    xa, ya = to_symarray(x).astype(F8), to_symarray(y).astype(F8)
    n = len(xa)
    d = np.moveaxis(ya._a, axis, 0)
    if xa.ndim != 1 or d.shape[0] != n:
        raise ValueError("x and y arrays must be equal in length along interpolation axis.")

    def known(raws):
        gaps = [_const_gap(R.f_sub(v, xa._a[0])) for v in raws]
        if not all(isinstance(g, (int, float, Fraction)) for g in gaps):
            raise Unsupported(f"interp1d {kind} at unknown places")
        return np.array([float(g) for g in gaps])

    def weighted(new):
        from scipy.interpolate import interp1d

        na = to_symarray(new).astype(F8)
        w = interp1d(known(xa._a), np.eye(n), axis=0, kind=kind, fill_value="extrapolate", assume_sorted=assume_sorted)(known(na._a.ravel()))
        w = [[Fraction(float(v)) for v in r] for r in w]
        out = np.empty((len(w), *d.shape[1:]), dtype=object)
        for i, row in enumerate(w):
            for jx in np.ndindex(*d.shape[1:]):
                cells = [R.f_mul(c, d[(k, *jx)]) for k, c in enumerate(row) if c]
                tot = cells[0] if cells else Fraction(0)
                for c in cells[1:]:
                    tot = R.f_add(tot, c)
                out[(i, *jx)] = tot
        out = out.reshape(na.shape + d.shape[1:])
        if axis % ya.ndim and na.ndim == 1:
            out = np.moveaxis(out, 0, axis % ya.ndim)
        return wrap(out, F8)

    def less(a, b):
        return bool(mk_scalar(a, F8) < mk_scalar(b, F8))

    if not straight:
        return weighted
    order = [0]
    for i in range(1, n):
        k = len(order)
        while not assume_sorted and k and less(xa._a[i], xa._a[order[k - 1]]):
            k -= 1
        order.insert(k, i)

    def call(new):
        na = to_symarray(new).astype(F8)
        out = np.empty(na.shape + d.shape[1:], dtype=object)
        for ix in np.ndindex(*na.shape):
            v = na._a[ix]
            k = 1
            while k < n - 1 and less(xa._a[order[k]], v):
                k += 1
            a, b = order[k - 1], order[k]
            w = R.f_div(_const_gap(R.f_sub(v, xa._a[a])), _const_gap(R.f_sub(xa._a[b], xa._a[a])))
            for jx in np.ndindex(*d.shape[1:]):
                lo, hi = d[(a, *jx)], d[(b, *jx)]
                out[(*ix, *jx)] = R.f_add(R.f_mul(w, R.f_sub(hi, lo)), lo)
        if axis % ya.ndim and na.ndim == 1:
            out = np.moveaxis(out, 0, axis % ya.ndim)
        return wrap(out, F8)

    return call


def _quantise(c):
    """Coefficients as fractions; digits below 2**-52 of the largest are rounding noise of the library."""
    c = np.asarray(c)
    top = float(np.max(np.abs(c))) if c.size else 0.0
    q = 2.0 ** (52 - math.frexp(top)[1]) if top else 1.0
    fq = Fraction(q)

    def one(v):
        return Fraction(int(round(float(v) * q))) / fq

    if np.iscomplexobj(c):
        return [(one(v.real), one(v.imag)) for v in c.ravel()]
    return [(one(v), Fraction(0)) for v in c.ravel()]


def linear_apply(f, data):
    """f(data) for a library function f that is affine in its data: its matrix is taken from the library itself."""
    s = to_symarray(data)
    kind = s.dtype.kind
    if kind in "iub":
        s, kind = s.astype(F8), "f"
    if kind not in "fc" or s.dtype.itemsize not in (8, 16):
        raise Unsupported(f"linear function of {s.dtype}")
    cells = s._a.ravel()
    fixed = np.zeros(s.shape, dtype=s.dtype)
    raws, units = [], []
    for n, ix in enumerate(np.ndindex(*s.shape)):
        v = cells[n]
        parts = ((v.re, 1.0), (v.im, 1j)) if kind == "c" else ((v, 1.0),)
        for r, unit in parts:
            if R.special(r):
                raise Unsupported("linear function of nan")
            if R.is_symraw(r):
                raws.append(r)
                units.append((ix, unit))
            else:
                fixed[ix] += float(r) * unit
    base = np.asarray(f(fixed))
    cols = []
    if raws:
        zero = np.asarray(f(np.zeros(s.shape, dtype=s.dtype)))
    for ix, unit in units:
        e = np.zeros(s.shape, dtype=s.dtype)
        e[ix] = unit
        cols.append(np.asarray(f(e)) - zero)
    cplx = np.iscomplexobj(base)
    const = _quantise(base)
    flat = _quantise(np.stack(cols)) if cols else []
    n = base.size
    out = np.empty(base.shape, dtype=object)
    for k, ix in enumerate(np.ndindex(*base.shape)):
        cs = [flat[j * n + k] for j in range(len(raws))]
        re = R.lincomb(const[k][0], raws, [c[0] for c in cs])
        out[ix] = R.Cx(re, R.lincomb(const[k][1], raws, [c[1] for c in cs])) if cplx else re
    return wrap(out, C16 if cplx else F8)


def linear(func, name, also=()):
    """Model of func(.., name=data, ..): linear in that argument."""
    sig = inspect.signature(func)

    def model(*args, **kwargs):
        b = sig.bind(*args, **kwargs)
        data = b.arguments[name]

        def f(x):
            b.arguments[name] = x
            return func(*b.args, **b.kwargs)

        return linear_apply(f, data)

    CALLS[func] = model
    NPF[func] = model


def _moves(func):
    """Model of a function which only moves cells."""

    def model(x, *args, **kwargs):
        s = to_symarray(x)
        return wrap(func(s._a, *args, **kwargs), s.dtype)

    CALLS[func] = model
    NPF[func] = model


def register():
    import scipy.fft
    import scipy.ndimage as ndi
    import scipy.signal as sig

    for name in ("fft", "ifft", "rfft", "irfft", "fftn", "ifftn", "rfftn", "irfftn", "fft2", "ifft2", "rfft2", "irfft2"):
        linear(getattr(np.fft, name), "a")
        linear(getattr(scipy.fft, name), "x")
    for name in ("fftshift", "ifftshift"):
        _moves(getattr(np.fft, name))
        _moves(getattr(scipy.fft, name))
    for f in (sig.sosfilt, sig.sosfiltfilt, sig.filtfilt, sig.lfilter, sig.decimate, sig.savgol_filter, sig.hilbert):
        linear(f, "x")
    linear(sig.detrend, "data")
    for f in (ndi.sobel, ndi.gaussian_filter, ndi.gaussian_filter1d, ndi.uniform_filter, ndi.uniform_filter1d, ndi.convolve, ndi.convolve1d, ndi.correlate1d):
        linear(f, "input")
    for name in ("stft", "stft_detrend"):
        linear(getattr(sig.ShortTimeFFT, name), "x")
    linear(sig.ShortTimeFFT.istft, "S")

    def _resample(x, num, t=None, axis=0, window=None, domain="time"):
        s = to_symarray(x)
        data = linear_apply(lambda a: sig.resample(a, num, axis=axis, window=window, domain=domain), s)
        if t is None:
            return data
        return data, np.arange(0, num) * (t[1] - t[0]) * s.shape[axis] / float(num) + t[0]

    CALLS[sig.resample] = _resample

    def _median(input, size=None, footprint=None, output=None, mode="reflect", cval=0.0, origin=0, **kw):
        s = to_symarray(input)
        if footprint is not None or output is not None or origin != 0 or not isinstance(mode, str):
            raise Unsupported("median_filter options")
        if s.dtype.kind in "iub":
            s = s.astype(F8)
        size = (size,) * s.ndim if np.isscalar(size) else tuple(size)
        pads = [(w // 2, w - 1 - w // 2) for w in size]
        ids = np.arange(1, s.size + 1).reshape(s.shape)
        how = {"reflect": "symmetric", "nearest": "edge", "mirror": "reflect", "wrap": "wrap", "grid-wrap": "wrap", "grid-mirror": "symmetric", "constant": "constant", "grid-constant": "constant"}[mode]
        padded = np.pad(ids, pads, mode=how)
        flat = [mk_scalar(v, F8) for v in s._a.ravel()]
        out = np.empty(s.shape, dtype=object)
        rank = int(np.prod(size)) // 2
        for ix in np.ndindex(*s.shape):
            win = padded[tuple(slice(i, i + w) for i, w in zip(ix, size))].ravel()
            vals = [flat[k - 1] if k else mk_scalar(Fraction(cval), F8) for k in win]
            # as far as the wanted rank: the smallest of the rest moves to the front
            for i in range(rank + 1):
                for j in range(i + 1, len(vals)):
                    a, b = vals[i], vals[j]
                    vals[i], vals[j] = np.minimum(a, b), np.maximum(a, b)
            out[ix] = to_symarray(vals[rank])._a[()]
        return wrap(out, F8)

    CALLS[ndi.median_filter] = _median

    def _move_median(a, window, min_count=None, axis=-1):
        s = to_symarray(a)
        need = window if min_count is None else min_count
        if s.dtype.kind in "iub":
            s = s.astype(F8)
        rows = np.moveaxis(s._a, axis, -1)
        out = np.empty(rows.shape, dtype=object)
        for ix in np.ndindex(*rows.shape):
            cells = rows[ix[:-1]][max(0, ix[-1] - window + 1) : ix[-1] + 1]
            if len(cells) < need:
                out[ix] = to_symarray(mk_scalar(float("nan"), F8))._a[()]
                continue
            vals = [mk_scalar(v, F8) for v in cells]
            k = len(vals) // 2
            for i in range(k + 1):
                for j in range(i + 1, len(vals)):
                    vals[i], vals[j] = np.minimum(vals[i], vals[j]), np.maximum(vals[i], vals[j])
            out[ix] = to_symarray(vals[k] if len(vals) % 2 else (vals[k - 1] + vals[k]) * 0.5)._a[()]
        return wrap(np.moveaxis(out, -1, axis), F8)

    try:
        import bottleneck
    except ImportError:
        pass
    else:
        CALLS[bottleneck.move_median] = _move_median

    from scipy.interpolate import interp1d

    CALLS[interp1d] = _interp1d
    INSTANCES[interp1d] = lambda f, new: _interp1d(f.x, f.y, kind=f._kind, axis=f.axis, fill_value="extrapolate" if f._extrapolate else None)(new)
