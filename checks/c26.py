"""C26: Filters and resampling act along the named dimension with the named settings."""
from __future__ import annotations

import numpy as np
from scipy import ndimage, signal
from scipy.interpolate import interp1d

import dascore as dc
from dascore.exceptions import FilterValueError, ParameterError
from dascore.units import get_quantity
from sx.harness import scenario

from .c25 import dot, even_coord, fixed, near, near_c
from .common import same_values, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "data of up to 30 x 2 cells, up to eight of them (every one in turn in the thorough tier) of any values within +-512, either axis; datetime, timedelta, integer and float coordinates of both directions starting anywhere; listed bands, corners, widths, orders, "
    "modes, sampling periods and units; median windows of up to 3 x 3 cells"
)
ASSUMPTIONS = [
    "scipy's filters are linear in the data: their matrices are taken from the library itself by filtering unit vectors on every run, what the code does before and after is executed symbolically",
    "the reference is the library's filter applied line by line with sampling rate, band and window lengths computed by the check",
    "floats are exact rationals compared within 1e-6; path witnesses are replayed on real floats",
]
COVERS = []
KINDS = ("dt", "td", "flt", "int")


def build(x, coord, n, m, axis):
    """A patch of n cells along time, the given axis, and m along distance; up to eight of them, spread over the patch, are unknown."""
    every = max(1, -(-(n * m) // 8))
    off = x.small("off", 0, every - 1) if every > 1 and x.thorough else every // 2
    data = [[x.flt(f"c{i}_{j}", -512, 512, 8) if (i * m + j) % every == off else float((7 * i + 5 * j) % 11 - 4) for j in range(m)] for i in range(n)]
    rows = data if axis == 0 else [[data[i][j] for i in range(n)] for j in range(m)]
    dims = ("time", "distance") if axis == 0 else ("distance", "time")
    coords = {"time": coord, "distance": fixed(m), "near": ("time", np.arange(n)), "side": ("distance", np.arange(m) * 3)}
    return dc.Patch(data=x.arr(rows), coords=coords, dims=dims, attrs=dict(tag="one", data_units="m/s")), data


def cell(q, axis, i, j):
    return q.data[i, j] if axis == 0 else q.data[j, i]


def acts_as(x, q, axis, data, mat, msg, mat2=None, tol=1e-5):
    """q's cells are mat (along time) and mat2 (along distance) applied to the data."""
    n, m = len(data), len(data[0])
    k, l = len(mat), m if mat2 is None else len(mat2)
    want = (k, l) if axis == 0 else (l, k)
    x.check(tuple(q.data.shape) == want, msg + ": shape")
    if tuple(q.data.shape) != want:
        return
    cplx = np.iscomplexobj(mat)
    ok = []
    for a in range(k):
        for b in range(l):
            if mat2 is None:
                co, cells = np.asarray(mat[a]), [data[i][b] for i in range(n)]
            else:
                co, cells = np.outer(mat[a], mat2[b]).ravel(), [data[i][j] for i in range(n) for j in range(m)]
            got = cell(q, axis, a, b)
            ok.append(near_c(x, got, dot(co.real, cells), dot(co.imag, cells), tol) if cplx else near(x, got, dot(co, cells), tol))
    x.check(x.And(*ok), msg)


def kept(x, p, q, coords=True):
    """Everything but the data is as it was."""
    x.check(q.dims == p.dims, "dimensions")
    if coords:
        x.check(q.coords == p.coords, "coordinates")
    x.check(q.attrs.tag == "one" and get_quantity(q.attrs.data_units) == get_quantity("m/s"), "attributes")


def untouched(x, p, axis, data):
    x.check(x.And(*[cell(p, axis, i, j) == data[i][j] for i in range(len(data)) for j in range(len(data[0]))]), "the input keeps its cells")


def matrix(f, n):
    """f along the first axis as a matrix."""
    return f(np.eye(n))


BANDS = ((0.25, 0.5), (None, 0.375), (0.125, None), (..., 0.625))  # fractions of the Nyquist frequency


def band_args(form, lo, hi, kind, dx):
    """The band in one of the forms users write it in: two periods are given in their own order, a single one at the place of its frequency."""
    pair = (hi, lo) if lo not in (None, ...) and hi not in (None, ...) else (lo, hi)
    dimu = {"dt": "s", "td": "s", "flt": "m", "int": "ft"}[kind]
    if form == 0:
        return lo, hi
    if form == 1:  # frequencies with units
        u = get_quantity("Hz") if dimu == "s" else 1 / get_quantity(dimu)
        return tuple(v if v is None or v is ... else v * u for v in (lo, hi))
    if form == 2:  # periods or wave lengths
        u = get_quantity(dimu)
        return tuple(v if v is None or v is ... else (1 / v) * u for v in pair)
    # periods in other units
    u, f = (get_quantity("ms"), 1000.0) if dimu == "s" else (get_quantity("cm"), 100.0 if dimu == "m" else 30.48)
    return tuple(v if v is None or v is ... else (f / v) * u for v in pair)


@scenario(SCENARIOS, split={"kind": 4, "desc": 2, "axis": 2, "band": 4})
def passed(x):
    """pass_filter applies the band between the given frequencies or periods along its dimension."""
    kind, desc, axis = KINDS[x.small("kind", 0, 3)], x.small("desc", 0, 1), x.small("axis", 0, 1)
    lo, hi = BANDS[x.small("band", 0, 3)]
    form, corners, zero = x.small("form", 0, 3), x.choice("corners", (1, 2, 3)), bool(x.small("zero", 0, 1))
    n = 22
    coord, dx = even_coord(x, kind, n, desc)
    nyq = 0.5 / abs(dx)
    low = None if lo is None or lo is ... else lo * nyq
    high = None if hi is None else hi * nyq
    p, data = build(x, coord, n, 1, axis)
    args = band_args(form, ... if lo is ... else low, high, kind, dx)
    kw = {} if zero else {"zerophase": False}
    q = p.pass_filter(corners=corners, time=args, **kw)
    fs = 1 / abs(dx)
    if low is not None and high is not None:
        sos = signal.butter(corners, [low, high], "bandpass", fs=fs, output="sos")
    elif low is not None:
        sos = signal.butter(corners, low, "highpass", fs=fs, output="sos")
    else:
        sos = signal.butter(corners, high, "lowpass", fs=fs, output="sos")
    f = signal.sosfiltfilt if zero else signal.sosfilt
    acts_as(x, q, axis, data, matrix(lambda d: f(sos, d, axis=0), n), "filtered lines", tol=1e-4)
    kept(x, p, q)
    untouched(x, p, axis, data)


@scenario(SCENARIOS, split={"desc": 2})
def bands_refused(x):
    """Bands beyond the Nyquist frequency, reversed or missing are refused."""
    desc = x.small("desc", 0, 1)
    coord, dx = even_coord(x, "dt", 22, desc)
    p, data = build(x, coord, 22, 1, 0)
    nyq = 0.5 / abs(dx)
    for bad in ((nyq * 1.5, nyq * 2), (None, nyq * 1.25), (nyq * 1.125, None), (nyq / 2, nyq / 4), (-nyq / 2, nyq / 4)):
        x.check(x.raises(lambda: p.pass_filter(time=bad), FilterValueError), "band outside the spectrum")
    x.check(x.raises(lambda: p.pass_filter(time=(None, None)), FilterValueError), "no band")
    x.check(x.raises(lambda: p.pass_filter(time=nyq), FilterValueError), "one number is no band")
    x.check(x.raises(lambda: p.notch_filter(q=5, time=nyq * 1.25), FilterValueError), "notch outside the spectrum")


@scenario(SCENARIOS, split={"kind": 4, "desc": 2, "axis": 2, "form": 3})
def notched(x):
    """notch_filter removes the given frequency (or period) along each named dimension."""
    kind, desc, axis = KINDS[x.small("kind", 0, 3)], x.small("desc", 0, 1), x.small("axis", 0, 1)
    form, both = x.small("form", 0, 2), bool(x.small("both", 0, 1))
    n, m = (12, 11) if both else (12, 1)
    if both and (kind != "dt" or form == 1):
        return
    coord, dx = even_coord(x, kind, n, desc)
    fs = 1 / abs(dx)
    w = fs * 0.25
    if both:
        # only two lines of the data are unknown
        data = [[x.flt(f"c{i}_{j}", -512, 512, 8) if (i, j) in ((0, 0), (3, 5), (7, 2), (11, 10)) else 0.0 for j in range(m)] for i in range(n)]
        rows = data if axis == 0 else [[data[i][j] for i in range(n)] for j in range(m)]
        dims = ("time", "distance") if axis == 0 else ("distance", "time")
        p = dc.Patch(data=x.arr(rows), coords={"time": coord, "distance": fixed(m)}, dims=dims, attrs=dict(tag="one", data_units="m/s"))
    else:
        p, data = build(x, coord, n, m, axis)
    value = [v for v in band_args(form, w, None, kind, dx) if v is not None][0]
    kw = {"distance": 0.5} if both else {}
    q = p.notch_filter(q=5, time=value, **kw)
    b, a = signal.iirnotch(w, Q=5, fs=fs)
    mat2 = None
    if both:
        b2, a2 = signal.iirnotch(0.5, Q=5, fs=4.0)
        mat2 = matrix(lambda d: signal.filtfilt(b2, a2, d, axis=0), m)
    acts_as(x, q, axis, data, matrix(lambda d: signal.filtfilt(b, a, d, axis=0), n), "filtered lines", mat2, tol=1e-4)
    kept(x, p, q)


@scenario(SCENARIOS, split={"kind": 4, "axis": 2, "dims": 3, "what": 2})
def smoothed(x):
    """savgol_filter and gaussian_filter smooth every named dimension over the given width."""
    kind, axis = KINDS[x.small("kind", 0, 3)], x.small("axis", 0, 1)
    desc = x.small("desc", 0, 1)
    which, what = x.small("dims", 0, 2), x.small("what", 0, 1)
    samples = bool(x.small("samples", 0, 1))
    n, m = (5, 4)
    coord, dx = even_coord(x, kind, n, desc)
    p, data = build(x, coord, n, m, axis)
    dx = abs(dx)
    wn, wm = (3, 4) if what == 0 else (2, 1)
    if samples:
        args = {"time": wn, "distance": wm}
    else:
        # any width that needs exactly so many steps
        t = x.flt("w", 0, 8, 8)
        x.assume(x.And(t > dx * (wn - 1), t <= dx * wn))
        # as a plain number or with units
        args = {"time": t, "distance": wm * 0.25 - 0.0625}
    if which < 2:
        args = {k: v for k, v in args.items() if k == ("time", "distance")[which]}
    mode = x.choice("mode", ("nearest", "constant"))
    if what == 0:
        one = {} if mode == "nearest" else {"cval": 2.0}
        q = p.savgol_filter(polyorder=2, samples=samples, mode=mode, **one, **args)

        def f(d, w):
            return signal.savgol_filter(d, w, 2, axis=0, mode=mode)

        if one:
            # the padding adds a constant
            x.check(tuple(q.data.shape) == p.data.shape, "shape")
            base = [[0.0] * m for _ in range(n)]
            ref = np.zeros((n, m))
            if "time" in args:
                ref = signal.savgol_filter(ref, wn, 2, axis=0, mode=mode, cval=2.0)
            if "distance" in args:
                ref = signal.savgol_filter(ref, wm, 2, axis=1, mode=mode, cval=2.0)
            shift = ref
        else:
            shift = np.zeros((n, m))
    else:
        q = p.gaussian_filter(samples=samples, mode=mode, truncate=2.0, **args)

        def f(d, w):
            return ndimage.gaussian_filter1d(d, w, axis=0, mode=mode, truncate=2.0)

        shift = np.zeros((n, m))
    mt = matrix(lambda d: f(d, wn), n) if "time" in args else np.eye(n)
    md = matrix(lambda d: f(d, wm), m) if "distance" in args else np.eye(m)
    x.check(tuple(q.data.shape) == tuple(p.data.shape), "shape")
    ok = []
    for a in range(n):
        for b in range(m):
            co = np.outer(mt[a], md[b]).ravel()
            ok.append(near(x, cell(q, axis, a, b), dot(co, [data[i][j] for i in range(n) for j in range(m)]) + float(shift[a, b]), 1e-4))
    x.check(x.And(*ok), "smoothed cells")
    kept(x, p, q)
    untouched(x, p, axis, data)


@scenario(SCENARIOS, split={"axis": 2, "dim": 2})
def sobel(x):
    """sobel_filter is the gradient filter along its dimension."""
    axis, dim = x.small("axis", 0, 1), ("time", "distance")[x.small("dim", 0, 1)]
    mode = x.choice("mode", ("reflect", "constant", "nearest", "mirror", "wrap"))
    cval = x.choice("cval", (0.0, 3.0))
    n, m = 4, 3
    coord, dx = even_coord(x, "dt", n, 0)
    p, data = build(x, coord, n, m, axis)
    q = p.sobel_filter(dim, mode=mode, cval=cval)
    ax = 0 if dim == "time" else 1
    zero = ndimage.sobel(np.zeros((n, m)), axis=ax, mode=mode, cval=cval)
    ok = []
    resp = np.zeros((n, m, n, m))
    for i in range(n):
        for j in range(m):
            e = np.zeros((n, m))
            e[i, j] = 1
            resp[i, j] = ndimage.sobel(e, axis=ax, mode=mode, cval=cval) - zero
    for a in range(n):
        for b in range(m):
            want = dot(resp[:, :, a, b].ravel(), [data[i][j] for i in range(n) for j in range(m)]) + float(zero[a, b])
            ok.append(near(x, cell(q, axis, a, b), want))
    x.check(x.And(*ok), "gradient")
    kept(x, p, q)
    x.check(x.raises(lambda: p.sobel_filter(dim, mode="none"), FilterValueError), "unknown mode")


@scenario(SCENARIOS, split={"kind": 4, "desc": 2, "axis": 2, "what": 5})
def along_lines(x):
    """detrend, hilbert and decimation with a filter act on whole lines."""
    kind, desc, axis = KINDS[x.small("kind", 0, 3)], x.small("desc", 0, 1), x.small("axis", 0, 1)
    what = x.small("what", 0, 4)
    n = 6 if what < 3 else 30
    coord, dx = even_coord(x, kind, n, desc)
    p, data = build(x, coord, n, 2 if what < 3 else 1, axis)
    if what < 2:
        q = p.detrend("time", type=("linear", "constant")[what])
        acts_as(x, q, axis, data, matrix(lambda d: signal.detrend(d, axis=0, type=("linear", "constant")[what]), n), "lines without trend")
        kept(x, p, q)
        x.check(x.raises(lambda: p.detrend("near"), ParameterError), "only dimensions")
    elif what == 2:
        q = p.hilbert("time")
        acts_as(x, q, axis, data, matrix(lambda d: signal.hilbert(d, axis=0), n), "analytic signal")
        kept(x, p, q)
    else:
        ftype = ("iir", "fir")[what - 3]
        k = x.choice("factor", (2, 3))
        q = p.decimate(time=k, **({} if what == 3 else {"filter_type": "fir"}))
        acts_as(x, q, axis, data, matrix(lambda d: signal.decimate(d, k, axis=0, ftype=ftype), n), "filtered and thinned")
        same_values(x, values_list(q.get_coord("time")), values_list(coord)[::k], "coordinate")
        x.check(q.get_coord("time").units == coord.units, "units")
        x.check([int(v) for v in q.get_array("near")] == list(range(0, n, k)) if "near" in q.coords.coord_map else True, "attached coordinate")
        kept(x, p, q, coords=False)
    untouched(x, p, axis, data)


@scenario(SCENARIOS, split={"desc": 2, "axis": 2})
def enveloped(x):
    """envelope is the size of the analytic signal (of a pattern times any factor)."""
    desc, axis = x.small("desc", 0, 1), x.small("axis", 0, 1)
    n = x.choice("n", (4, 5, 6))
    coord, dx = even_coord(x, "dt", n, desc)
    k = x.flt("factor", -512, 512, 8)
    pattern = np.array([[3.0, -1.0], [0.5, 2.0], [-1.25, 0.0], [4.0, 1.0], [1.0, 1.5], [-2.0, 0.25]][:n])
    cells = [[k * float(v) for v in r] for r in (pattern if axis == 0 else pattern.T)]
    p = dc.Patch(data=x.arr(cells), coords={"time": coord, "distance": fixed(2)}, dims=("time", "distance") if axis == 0 else ("distance", "time"))
    q = p.envelope("time")
    want = np.abs(signal.hilbert(pattern, axis=0))
    x.check(x.And(*[near(x, cell(q, axis, i, j), abs(k) * float(want[i, j]), 1e-4) for i in range(n) for j in range(2)]), "envelope")
    x.check(q.coords == p.coords and q.dims == p.dims, "coordinates")


@scenario(SCENARIOS, split={"kind": 4, "desc": 2, "axis": 2, "form": 4})
def resampled(x):
    """resample gives the requested number or spacing of samples over the same extent, with units and the other coordinates kept."""
    kind, desc, axis = KINDS[x.small("kind", 0, 3)], x.small("desc", 0, 1), x.small("axis", 0, 1)
    form = x.small("form", 0, 3)
    n = x.choice("n", (6, 8))
    coord, dx = even_coord(x, kind, n, desc)
    p, data = build(x, coord, n, 2, axis)
    size = abs(dx)
    window = x.choice("window", (None, "hann"))
    if form == 0:  # number of samples
        num = x.choice("num", (3, 4, 6, 9))
        q = p.resample(time=num, samples=True, window=window)
        step = size * n / num
    else:
        ratio = x.choice("ratio", (0.5, 2.0, 1.5, 1.25))
        step = size * ratio
        dimu = {"dt": "s", "td": "s", "flt": "m", "int": "ft"}[kind]
        value = step if form == 1 else step * get_quantity(dimu) if form == 2 else 1 / (step * get_quantity(dimu))
        if form == 1 and kind in ("dt", "td") and ratio == 2.0:
            value = dc.to_timedelta64(step)
        lines = ("linear", "nearest", "cubic")[n // 8 + (window is None) if ratio in (1.5, 1.25) else 0]
        q = p.resample(time=value, window=window, interp_kind=lines)
        num = int(np.round(n / ratio))
    mat = matrix(lambda d: signal.resample(d, num, axis=0, window=window), n)
    exact = form == 0 or abs(n / ratio - num) < 1e-9
    got_dx = size * n / num
    if not exact:
        # straight lines (or as asked for) between the resampled values
        count = int(np.ceil((num - 1) * got_dx / step - 1e-9))
        rows = []
        for i in range(count):
            at = i * step / got_dx
            k = min(int(np.floor(at + 1e-12)), num - 2)
            rows.append(mat[k] * (1 - (at - k)) + mat[k + 1] * (at - k))
        if lines != "linear":
            rows = interp1d(np.arange(num) * float(got_dx), mat, axis=0, kind=lines, fill_value="extrapolate")(np.arange(count) * float(step))
        mat, got_dx = np.array(rows), step
    acts_as(x, q, axis, data, mat, "resampled lines", tol=1e-4)
    c = q.get_coord("time")
    got = values_list(c)
    first = values_list(coord)[0]
    sign = -1 if desc else 1
    x.check(len(got) == len(mat), "one value per sample")
    ok = []
    for i, v in enumerate(got):
        if kind in ("dt", "td"):
            d = v - first - np.timedelta64(int(round(sign * i * got_dx * 1e9)), "ns")
            ok.append(x.And(d <= np.timedelta64(12, "ns"), d >= np.timedelta64(-12, "ns")))
        else:
            ok.append(near(x, v - first, sign * i * got_dx, 1e-6))
    x.check(x.And(*ok), "values over the same extent")
    x.check(c.units == coord.units, "units")
    x.check(q.get_coord("distance") == p.get_coord("distance") and [int(v) for v in q.get_array("side")] == [0, 3], "other coordinates")
    kept(x, p, q, coords=False)
    untouched(x, p, axis, data)


def slopes(x, filt, n, m, dt, dd, directional, invert, dims):
    """Response of the f-k filter on unit cells, computed with plain Fourier sums."""
    f = np.fft.fftfreq(n, dt)[:, None]
    k = np.fft.fftfreq(m, dd)[None, :]
    num, den = (f, k) if dims == ("distance", "time") else (k, f)
    num, den = np.broadcast_arrays(num, den)
    s = np.zeros(num.shape)
    for ix in np.ndindex(*s.shape):
        s[ix] = num[ix] / den[ix] if den[ix] else (0.0 if num[ix] == 0 else np.inf * num[ix])
    if not directional:
        s = np.abs(s)
    a, b, c, d = filt
    keep = np.zeros(s.shape)
    for ix, v in np.ndenumerate(s):
        if b <= v <= c:
            keep[ix] = 1.0
        elif a < v < b:
            keep[ix] = np.sin(0.5 * np.pi * (v - a) / (b - a))
        elif c < v < d:
            keep[ix] = 1 - np.sin(0.5 * np.pi * (v - c) / (d - c))
    if invert:
        keep = 1 - keep
    out = np.zeros((n, m, n, m))
    for i in range(n):
        for j in range(m):
            e = np.zeros((n, m))
            e[i, j] = 1
            out[i, j] = np.fft.ifft2(np.fft.fft2(e) * keep).real
    return out


@scenario(SCENARIOS, split={"axis": 2, "filt": 4, "form": 4})
def sloped(x):
    """slope_filter keeps (or removes) the waves whose slope lies in the band."""
    axis, form = x.small("axis", 0, 1), x.small("form", 0, 3)
    filt = ((0.25, 0.6, 1.5, 3.1), (0.0, 0.0, 1.1, 2.2), (0.6, 0.9, 2.05, 2.05), (-2.3, -1.1, -0.3, 0.0))[x.small("filt", 0, 3)]
    directional = bool(filt[0] < 0) or bool(x.small("dir", 0, 1))
    invert = bool(x.small("inv", 0, 1))
    desc = x.small("desc", 0, 1)
    dims = x.choice("dims", (("distance", "time"), ("time", "distance")))
    n, m = 4, 5
    coord, dt = even_coord(x, "dt", n, desc)
    p, data = build(x, coord, n, m, axis)
    dd = 0.25
    given = np.array(filt)
    unit = get_quantity("m/s") if dims == ("distance", "time") else get_quantity("s/m")
    if form == 1:
        given = given * unit
    elif form == 2:
        if filt[0] <= 0:
            return
        given = [v * unit for v in (1 / np.array(filt))[::-1]]
        given = [(v.magnitude) / unit for v in given]
    elif form == 3:
        given = given * 100 * (get_quantity("cm/s") if dims == ("distance", "time") else get_quantity("s/m") / 100)
    if form == 2:
        given = get_quantity(1 / unit.units) * np.array([v.magnitude for v in given])
    q = p.slope_filter(given, dims=dims, directional=directional, invert=invert)
    resp = slopes(x, filt, n, m, dt, dd, directional, invert, dims)
    x.check(tuple(q.data.shape) == tuple(p.data.shape), "shape")
    ok = []
    flat = [data[i][j] for i in range(n) for j in range(m)]
    for a in range(n):
        for b in range(m):
            ok.append(near(x, cell(q, axis, a, b), dot(resp[:, :, a, b].ravel(), flat), 1e-4))
    x.check(x.And(*ok), "filtered cells")
    x.check(q.dims == p.dims, "dimensions")
    same_values(x, values_list(q.get_coord("time")), values_list(coord), "times")
    x.check(q.attrs.tag == "one", "attributes")


@scenario(SCENARIOS)
def slopes_refused(x):
    """Only four increasing slopes of two dimensions make a slope filter."""
    coord, dt = even_coord(x, "dt", 3, 0)
    p, data = build(x, coord, 3, 2, 0)
    for bad in ((1, 2, 3), (1, 5, 3, 4), (4, 3, 2, 1), (1, 2, 4, 3), (1, 2, 3, 4, 5)):
        x.check(x.raises(lambda: p.slope_filter(np.array(bad)), ParameterError) and x.raises(lambda: p.slope_filter(bad), ParameterError), "not four sorted slopes")
    x.check(x.raises(lambda: p.slope_filter((1, 2, 3, 4), dims=("distance", "depth")), ParameterError), "missing dimension")


@scenario(SCENARIOS, split={"axis": 2, "dims": 3, "samples": 2})
def medians(x):
    """median_filter gives the median of the window around each cell, over the named dimensions."""
    axis, which, samples = x.small("axis", 0, 1), x.small("dims", 0, 2), x.small("samples", 0, 1)
    desc = x.small("desc", 0, 1)
    n, m = 4, 3
    coord, dx = even_coord(x, "dt", n, desc)
    free = ((0, 0), (2, 1)) if which == 2 else ((0, 0), (1, 0), (2, 0), (2, 1), (2, 2), (3, 0))
    data = [[x.flt(f"c{i}_{j}", -512, 512, 8) if (i, j) in free else float((7 * i + 5 * j) % 11 - 4) for j in range(m)] for i in range(n)]
    rows = data if axis == 0 else [[data[i][j] for i in range(n)] for j in range(m)]
    p = dc.Patch(data=x.arr(rows), coords={"time": coord, "distance": fixed(m)}, dims=("time", "distance") if axis == 0 else ("distance", "time"), attrs=dict(tag="one", data_units="m/s"))
    w = [3 if which != 1 else 1, 3 if which != 0 else 1]
    args = {"time": 3 if samples else 2.125 * abs(dx), "distance": 3 if samples else 0.625}
    if which < 2:
        args = {k: v for k, v in args.items() if k == ("time", "distance")[which]}
    mode = x.choice("mode", ("reflect", "constant", "nearest"))
    kw = {"cval": 1.5} if mode == "constant" else {}
    q = p.median_filter(samples=bool(samples), mode=mode, **kw, **args)
    half = [k // 2 for k in w]

    def place(i, size):
        if 0 <= i < size:
            return i
        return None if mode == "constant" else (0 if i < 0 else size - 1) if mode == "nearest" else (-1 - i if i < 0 else 2 * size - 1 - i)

    conds = []
    for i in range(n):
        for j in range(m):
            win = []
            for a in range(i - half[0], i + half[0] + 1):
                for b in range(j - half[1], j + half[1] + 1):
                    u, v = place(a, n), place(b, m)
                    win.append(1.5 if u is None or v is None else data[u][v])
            got = cell(q, axis, i, j)
            less = sum(x.ite(v < got, 1, 0) for v in win)
            upto = sum(x.ite(v <= got, 1, 0) for v in win)
            conds.append(x.And(less <= len(win) // 2, upto > len(win) // 2))
    x.check(x.And(*conds), "half of the window's cells lie on either side")
    kept(x, p, q)
    untouched(x, p, axis, data)
