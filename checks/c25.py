"""C25: Fourier transforms measure the named frequencies and can be undone."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.units import get_quantity
from sx.harness import scenario

from .common import same_values, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "data of up to 7 x 3 cells of any values (within +-512) along either axis; datetime, timedelta, integer and float coordinates of both directions starting anywhere, with and without units; dft over one or two dimensions in "
    "either order, real or not, padded or not; spectra of data with one unknown factor; short-time transforms of 8..11 samples with windows of 3..5 samples"
)
ASSUMPTIONS = [
    "numpy's and scipy's transforms are linear: their matrices are taken from the library itself by transforming unit vectors on every run, what the code does before and after is executed symbolically",
    "floats are exact rationals compared within 1e-6; path witnesses are replayed on real floats",
]
COVERS = []

SEC = 10**9
KINDS = ("dt", "td", "flt", "int")


def even_coord(x, kind, n, desc, tag="start", units=True):
    """An evenly sampled coordinate starting anywhere and its (signed) spacing as a float."""
    step = {"dt": np.timedelta64(SEC // 4, "ns"), "td": np.timedelta64(2 * SEC, "ns"), "flt": 0.5, "int": 2}[kind]
    dx = {"dt": 0.25, "td": 2.0, "flt": 0.5, "int": 2.0}[kind]
    start = val(x, tag, kind)
    if desc:
        step, dx = -step, -dx
    u = {"dt": "s", "td": "s", "flt": "m", "int": "ft"}[kind] if units else None
    return get_coord(start=start, step=step, stop=start + step * n, units=u), dx


def fixed(n, dx=0.25, start=1.0):
    return get_coord(start=start, step=dx, stop=start + dx * n, units="m")


def make(x, coord, n, m, axis, data_units="m/s", **attrs):
    data = [[x.flt(f"c{i}_{j}", -512, 512, 8) for j in range(m)] for i in range(n)]
    rows = data if axis == 0 else [[data[i][j] for i in range(n)] for j in range(m)]
    dims = ("time", "distance") if axis == 0 else ("distance", "time")
    coords = {"time": coord, "distance": fixed(m), "near": ("time", np.arange(n)), "side": ("distance", np.arange(m) * 3), "free": (None, np.array([4, 2]))}
    return dc.Patch(data=x.arr(rows), coords=coords, dims=dims, attrs=dict(tag="one", data_units=data_units, **attrs)), data


def near(x, a, b, tol=1e-6):
    d = a - b
    return x.And(d <= tol, -d <= tol)


def near_c(x, got, re, im, tol=1e-6):
    return x.And(near(x, got.real, re, tol), near(x, got.imag, im, tol))


def dot(coefs, cells):
    out = 0.0
    for c, v in zip(coefs, cells):
        out = out + float(c) * v
    return out


def freqs_ok(x, q, dim, n, dx, real, msg):
    """The frequency coordinate lists each bin of an n sample (or longer, when padded) transform once, in order."""
    f = [float(v) for v in values_list(q.get_coord(dim))]
    size = n if not real else None
    if real:
        bins = list(range(len(f)))
        x.check(len(f) == n // 2 + 1, msg + " number of real frequencies")
    else:
        x.check(len(f) == size, msg + " number of frequencies")
        bins = list(range(-(n // 2), (n - 1) // 2 + 1))
    x.check(len(bins) == len(f) and all(abs(a - b / (n * dx)) < 1e-9 for a, b in zip(f, bins)), msg + " values")
    return f


def fast(n):
    from scipy.fft import next_fast_len

    return next_fast_len(n)


def measure_ok(x, q, p, data, dims, dxs, msg):
    """Every cell of q is the sum of p's cells against the cell's frequencies."""
    n, m = len(data), len(data[0])
    mats = {}
    for d, dx, size in (("time", dxs[0], n), ("distance", dxs[1], m)):
        if d in dims:
            f = np.array([float(v) for v in values_list(q.get_coord(f"ft_{d}"))])
            mats[d] = np.exp(-2j * np.pi * np.outer(f, np.arange(size) * dx)) * dx
        else:
            mats[d] = np.eye(size, dtype=complex)
    t_ax = 0 if p.dims[0] == "time" else 1
    x.check(q.data.shape[t_ax] == len(mats["time"]) and q.data.shape[1 - t_ax] == len(mats["distance"]), msg + " shape")
    flat = [data[i][j] for i in range(n) for j in range(m)]
    ok = []
    for a in range(len(mats["time"])):
        for b in range(len(mats["distance"])):
            co = np.outer(mats["time"][a], mats["distance"][b]).ravel()
            got = q.data[a, b] if t_ax == 0 else q.data[b, a]
            ok.append(near_c(x, got, dot(co.real, flat), dot(co.imag, flat)))
    x.check(x.And(*ok), msg)


@scenario(SCENARIOS, split={"kind": 4, "desc": 2, "axis": 2})
def spectrum_along_one(x):
    """dft along a dimension: each cell measures the frequency it is labelled with."""
    kind, desc, axis = KINDS[x.small("kind", 0, 3)], x.small("desc", 0, 1), x.small("axis", 0, 1)
    n = x.choice("n", (1, 2, 4, 5, 7) if not x.thorough else (1, 2, 3, 4, 5, 6, 7, 11))
    real, pad, units = x.choice("real", (None, True, "time")), bool(x.small("pad", 0, 1)), kind != "int" or bool(x.small("units", 0, 1))
    m = 2
    coord, dx = even_coord(x, kind, n, desc, units=units)
    p, data = make(x, coord, n, m, axis)
    q = p.dft("time", real=real, pad=pad)
    size = fast(n) if pad else n
    x.check(q.dims == tuple("ft_time" if d == "time" else d for d in p.dims), "dimensions")
    freqs_ok(x, q, "ft_time", size, dx, real is not None, "frequencies")
    measure_ok(x, q, p, data, ("time",), (dx, 0.25), "amplitudes")
    x.check(q.get_coord("distance") == p.get_coord("distance"), "other dimension")
    x.check([int(v) for v in q.get_array("side")] == [0, 3] and [int(v) for v in q.get_array("free")] == [4, 2], "coordinates of the other dimension")
    unit = {"dt": "Hz", "td": "Hz", "flt": "1/m", "int": "1/ft" if units else None}[kind]
    x.check(get_quantity(q.get_coord("ft_time").units) == get_quantity(unit), "frequency units")
    want = get_quantity("m/s") * (get_quantity(p.get_coord("time").units) if units else 1)
    x.check(get_quantity(q.attrs.data_units) == want, "data units")
    x.check(q.attrs.tag == "one" and q.attrs.data_type == "fourier_transform", "attributes")
    same = q.dft("time")
    x.check(same.dims == q.dims and same.data.shape == q.data.shape and same is not None, "transforming again is refused quietly")


@scenario(SCENARIOS, split={"axis": 2, "what": 5, "real": 3})
def spectrum_along_two(x):
    """dft over both dimensions, at once or one after another."""
    axis = x.small("axis", 0, 1)
    what = (("time", "distance"), ("distance", "time"), None, "distance then time", "time then distance")[x.small("what", 0, 4)]
    real = (None, True, "time")[x.small("real", 0, 2)]
    n, m = x.choice("size", ((3, 2), (4, 3)) if not x.thorough else ((3, 2), (4, 3), (1, 3), (5, 3), (7, 2)))
    pad = bool(x.small("pad", 0, 1))
    coord, dx = even_coord(x, "dt", n, x.small("desc", 0, 1))
    p, data = make(x, coord, n, m, axis)
    if isinstance(what, str):
        first, second = what.split(" then ")
        # a later real transform of complex values makes no sense
        q = p.dft(first, real=True if real is True else None, pad=pad).dft(second, pad=pad)
    else:
        q = p.dft(what, real=real, pad=pad)
    x.check(q.dims == tuple("ft_" + d for d in p.dims), "dimensions")
    measure_ok(x, q, p, data, ("time", "distance"), (dx, 0.25), "amplitudes")
    want = get_quantity("m/s") * get_quantity("s") * get_quantity("m")
    x.check(get_quantity(q.attrs.data_units) == want, "data units")


def same_patch(x, r, p, data, msg, tol=1e-6):
    x.check(r.dims == p.dims, msg + " dimensions")
    for d in p.dims:
        same_values(x, values_list(r.get_coord(d)), values_list(p.get_coord(d)), f"{msg} {d}")
        x.check(r.get_coord(d) == p.get_coord(d), f"{msg} {d} coordinate")
    x.check(r.data.shape == p.data.shape, msg + " shape")
    n, m = len(data), len(data[0])
    t0 = p.dims[0] == "time"
    ok = []
    for i in range(n):
        for j in range(m):
            got = r.data[i, j] if t0 else r.data[j, i]
            ok.append(near_c(x, got, data[i][j], 0.0, tol))
    x.check(x.And(*ok), msg + " cells")
    x.check(r.attrs.tag == "one" and r.attrs.data_type == p.attrs.data_type, msg + " attributes")
    x.check(get_quantity(r.attrs.data_units) == get_quantity(p.attrs.data_units), msg + " data units")


@scenario(SCENARIOS, split={"kind": 4, "desc": 2, "axis": 2, "real": 2})
def undone(x):
    """idft of dft gives the patch back."""
    kind, desc, axis = KINDS[x.small("kind", 0, 3)], x.small("desc", 0, 1), x.small("axis", 0, 1)
    real = (None, True)[x.small("real", 0, 1)]
    n = x.choice("n", (1, 2, 3, 4, 7) if not x.thorough else (1, 2, 3, 4, 5, 6, 7, 11))
    pad = bool(x.small("pad", 0, 1))
    coord, dx = even_coord(x, kind, n, desc)
    p, data = make(x, coord, n, 2, axis, data_units=x.choice("units", ("m/s", None)), data_type="velocity")
    q = p.dft("time", real=real, pad=pad)
    r = q.idft() if x.small("named", 0, 1) else q.idft("time")
    same_patch(x, r, p, data, "back")
    x.check([int(v) for v in r.get_array("side")] == [0, 3], "coordinates of the other dimension")
    x.check({c for c in r.coords.coord_map} <= {c for c in p.coords.coord_map}, "no coordinates left over")


@scenario(SCENARIOS, split={"axis": 2, "what": 3, "real": 4, "back": 3})
def undone_two(x):
    """idft of a two-dimensional dft, at once or one dimension after another."""
    axis = x.small("axis", 0, 1)
    what = (("time", "distance"), ("distance", "time"), None)[x.small("what", 0, 2)]
    real = (None, True, "time", "distance")[x.small("real", 0, 3)]
    back = x.small("back", 0, 2)
    n, m = x.choice("size", ((2, 3), (4, 2)) if not x.thorough else ((2, 3), (4, 2), (3, 1), (1, 2), (7, 2), (5, 3)))
    pad = bool(x.small("pad", 0, 1))
    coord, dx = even_coord(x, "flt", n, x.small("desc", 0, 1))
    p, data = make(x, coord, n, m, axis)
    q = p.dft(what, real=real, pad=pad)
    if back == 0:
        r = q.idft()
    elif back == 1:
        r = q.idft(("distance", "time"))
    else:
        # the real axis must be undone last
        half = "distance" if real == "distance" or (real is True and (what or p.dims)[-1] == "distance") else "time"
        other = "time" if half == "distance" else "distance"
        r = q.idft(f"ft_{other}").idft(half)
    same_patch(x, r, p, data, "back")


WINDOWS = {"hann": None, "boxcar": None, "array": (0.25, 1.0, 1.0, 0.5, 0.75)}


@scenario(SCENARIOS, split={"kind": 4, "desc": 2, "axis": 2})
def short_time(x):
    """stft measures the frequencies in the windows around the times it names, and istft undoes it."""
    from scipy.signal import get_window

    kind, desc, axis = KINDS[x.small("kind", 0, 3)], x.small("desc", 0, 1), x.small("axis", 0, 1)
    n = x.choice("n", (8, 11) if x.thorough else (8,))
    w = x.choice("w", (3, 4, 5))
    over = x.choice("over", (0, 1, 2, None) if x.thorough else (1, 2, None))
    win = x.choice("win", tuple(WINDOWS))
    coord, dx = even_coord(x, kind, n, desc)
    p, data = make(x, coord, n, 1, axis, data_type="velocity")
    table = np.array(WINDOWS["array"][:w]) if win == "array" else get_window(win, w, fftbins=False)
    how = x.small("how", 0, 1)  # in samples or as a duration
    size, lap = (w, over) if how else (w * abs(dx), None if over is None else over * abs(dx))
    if not how and kind in ("dt", "td"):
        size, lap = dc.to_timedelta64(size), None if lap is None else dc.to_timedelta64(lap)
    q = p.stft(time=size, overlap=lap, samples=bool(how), taper_window=table if win == "array" else win)
    x.check(set(q.dims) == {"time", "ft_time", "distance"} and q.dims[p.dims.index("time")] == "ft_time" and q.dims[-1] == "time", "dimensions")
    x.check(q.get_coord("distance") == p.get_coord("distance") and [int(v) for v in q.get_array("side")] == [0], "other coordinates")
    hop = w - (over or 0)
    freqs = [float(v) for v in values_list(q.get_coord("ft_time"))]
    x.check(len(freqs) == w // 2 + 1 and all(abs(f - k / (w * abs(dx))) < 1e-9 for k, f in enumerate(freqs)), "frequencies")
    t0 = coord.values[0]
    times = values_list(q.get_coord("time"))
    slots = range(-(w // hop + 1), n // hop + w // hop + 3)
    centres = []
    for v in times:
        off = v - t0
        hit = [s for s in slots if bool(off == (dc.to_timedelta64(s * hop * dx) if kind in ("dt", "td") else s * hop * dx))]
        x.check(len(hit) == 1, "window times are whole numbers of steps from the first sample")
        centres += [s * hop for s in hit]
    x.check(centres == list(range(centres[0], centres[-1] + 1, hop)), "window times")
    # every window which touches a sample is there
    live = [k - w // 2 for k in range(w) if table[k] != 0]
    x.check(all(not 0 <= c + k < n for c in (centres[0] - hop, centres[-1] + hop) for k in live), "first and last window")
    ok = []
    fi, ti = q.dims.index("ft_time"), q.dims.index("time")
    for a, f in enumerate(freqs):
        for b, c in enumerate(centres):
            idx = [0, 0, 0]
            idx[fi], idx[ti] = a, b
            inside = [(i, table[i - c + w // 2]) for i in range(n) if 0 <= i - c + w // 2 < w]
            ph = [np.exp(-2j * np.pi * f * (i - c) * abs(dx)) * g * dx for i, g in inside]
            cells = [data[i][0] for i, _ in inside]
            ok.append(near_c(x, q.data[tuple(idx)], dot([v.real for v in ph], cells), dot([v.imag for v in ph], cells)))
    x.check(x.And(*ok), "amplitudes")
    r = None
    failed = x.raises(lambda: q.istft(), dc.exceptions.PatchError)
    total = [sum(table[i - c + w // 2] ** 2 for c in centres if 0 <= i - c + w // 2 < w) for i in range(n)]
    x.check(failed == bool(min(total) < 1e-12), "transforms which lost samples cannot be undone")
    if not failed:
        r = q.istft()
        same_patch(x, r, p, data, "back")
        x.check([int(v) for v in r.get_array("side")] == [0], "coordinates of the other dimension after the inverse")


@scenario(SCENARIOS, split={"desc": 2, "axis": 2, "output": 3})
def spectra(x):
    """Amplitude and power spectra of a pattern times an unknown factor follow from its transform."""
    desc, axis = x.small("desc", 0, 1), x.small("axis", 0, 1)
    output = ("AS", "PS", "PSD")[x.small("output", 0, 2)]
    n = x.choice("n", (3, 4, 7))
    pad, real = bool(x.small("pad", 0, 1)), (None, True)[x.small("real", 0, 1)]
    coord, dx = even_coord(x, "dt", n, desc)
    k = x.flt("factor", -512, 512, 8)
    pattern = [[3.0, -1.0], [0.5, 2.0], [-1.25, 0.0], [4.0, 1.0], [1.0, 1.5], [-2.0, 0.25], [0.75, -3.0]][:n]
    cells = [[k * v for v in row] for row in pattern]
    rows = cells if axis == 0 else [[cells[i][j] for i in range(n)] for j in range(2)]
    dims = ("time", "distance") if axis == 0 else ("distance", "time")
    p = dc.Patch(data=x.arr(rows), coords={"time": coord, "distance": fixed(2)}, dims=dims, attrs=dict(data_units="m"))
    q = p.dft("time", output=output, pad=pad, real=real)
    x.check(q.dims == tuple("ft_time" if d == "time" else d for d in dims), "dimensions")
    size = fast(n) if pad else n
    freqs = np.array(freqs_ok(x, q, "ft_time", size, dx, real is not None, "frequencies"))
    spec = np.abs(np.exp(-2j * np.pi * np.outer(freqs, np.arange(n) * dx)) @ np.array(pattern) * dx)
    extent = size * abs(dx)
    mag = abs(k)
    ok = []
    for a in range(len(freqs)):
        for j in range(2):
            got = q.data[a, j] if axis == 0 else q.data[j, a]
            c = float(spec[a, j])
            want = {"AS": mag * (c / extent), "PS": k * k * (c / extent) ** 2, "PSD": k * k * (c * c / extent)}[output]
            ok.append(near(x, got, want, 1e-4))
    x.check(x.And(*ok), "spectrum")
    unit = {"AS": "m", "PS": "m**2", "PSD": "m**2/Hz"}[output]
    x.check(get_quantity(q.attrs.data_units) == get_quantity(unit), "units")
    x.check(x.raises(lambda: q.idft(), ValueError), "spectra cannot be undone")
