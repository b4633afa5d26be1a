"""C27: Correlations, detectors and slant stacks follow their definitions."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.exceptions import ParameterError
from dascore.units import get_quantity
from sx.harness import scenario

from .c25 import even_coord, fixed, near
from .common import same_values, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "data of up to 28 x 3 cells with up to eight unknown ones (two to four where products of them occur) within +-512, either axis; datetime, timedelta, integer and float coordinates of both directions starting anywhere, distances "
    "evenly, unevenly, reverse and not sorted; listed sources, windows, thresholds and velocities in samples, values and other units"
)
ASSUMPTIONS = [
    "numpy's transforms and scipy's filters are linear: their matrices are taken from the library itself on every run; medians are modelled by comparison networks",
    "functions compiled by numba are executed as the Python they are written in; witnesses are replayed on the compiled ones",
    "floats are exact rationals compared within 1e-6; path witnesses are replayed on real floats",
]
COVERS = []
KINDS = ("dt", "td", "flt", "int")


def build(x, coord, n, other, axis, unknown, low=-512, **attrs):
    """A patch of n cells along time, the given axis; the cells unknown(i, j) says are unknown."""
    m = len(other)
    data = [[x.flt(f"c{i}_{j}", low, 512, 8) if unknown(i, j) else float((7 * i + 5 * j) % 11 - 4 if low < 0 else (7 * i + 5 * j) % 11 + 1) for j in range(m)] for i in range(n)]
    rows = data if axis == 0 else [[data[i][j] for i in range(n)] for j in range(m)]
    dims = ("time", "distance") if axis == 0 else ("distance", "time")
    coords = {"time": coord, "distance": other, "side": ("distance", np.arange(m) * 3)}
    return dc.Patch(data=x.arr(rows), coords=coords, dims=dims, attrs=dict(tag="one", station="st", data_units="m/s", **attrs)), data


def seconds(v):
    """A lag as a float."""
    return v / np.timedelta64(1, "s") if isinstance(v, np.timedelta64) else float(v)


def correlation(data, i, s, k, circular=False):
    """The sum of line i's cells k samples later against line s's."""
    n = len(data)
    out = 0.0
    for t in range(n):
        if circular or 0 <= t + k < n:
            out = out + data[(t + k) % n][i] * data[t][s]
    return out


def lags(x, q, dim, dx, n):
    """The lags in samples, which follow each other and cover -(n - 1) .. n - 1."""
    ks = [seconds(v) / dx for v in values_list(q.get_coord(dim))]
    ints = [int(round(k)) for k in ks]
    x.check(all(abs(a - b) < 1e-9 for a, b in zip(ks, ints)) and all(b - a == 1 for a, b in zip(ints, ints[1:])), "lags are multiples of the spacing, in order")
    x.check(min(ints) <= -(n - 1) and max(ints) >= n - 1, "all lags")
    return ints


SOURCES = ("value", "between", "units", "samples", "from the end", "list", "all")


@scenario(SCENARIOS, split={"kind": 4, "desc": 2, "axis": 2})
def correlated(x):
    """correlate gives for every lag and line the sum of products with the named source lines."""
    kind, desc, axis = KINDS[x.small("kind", 0, 3)], x.small("desc", 0, 1), x.small("axis", 0, 1)
    form = SOURCES[x.small("form", 0, 6)]
    n = x.choice("n", (3, 4) if not x.thorough else (1, 2, 3, 4, 5, 7))
    coord, dx = even_coord(x, kind, n, desc)
    other = get_coord(data=np.array([1.0, 1.5, 2.5]), units="m") if x.small("uneven", 0, 1) else fixed(3, 0.5)
    p, data = build(x, coord, n, other, axis, lambda i, j: j == 2)
    given = {"value": 1.5, "between": 1.25, "units": 150 * get_quantity("cm"), "samples": 1, "from the end": -2, "list": np.array([1.0, 1.5]), "all": None}[form]
    index = {"list": [0, 1], "all": [0, 1, 2]}.get(form, [1])
    q = p.correlate(distance=given, samples=form in ("samples", "from the end"))
    if form == "list":
        x.check(list(given) == [1.0, 1.5], "the given sources stay as they are")
    x.check(q.dims == tuple("lag_time" if d == "time" else d for d in p.dims) + ("source_distance",), "dimensions")
    ks = lags(x, q, "lag_time", dx, n)
    src = values_list(q.get_coord("source_distance"))
    x.check([float(v) for v in src] == [float(values_list(other)[i]) for i in index], "the sources are named by their coordinate")
    x.check(get_quantity(q.get_coord("source_distance").units) == get_quantity("m"), "units of the sources")
    x.check(get_quantity(q.get_coord("lag_time").units) == get_quantity(coord.units), "units of the lags")
    x.check(q.get_coord("distance") == p.get_coord("distance") and [int(v) for v in q.get_array("side")] == [0, 3, 6], "the other dimension")
    x.check(q.attrs.tag == "one" and q.attrs.station == "st" and q.attrs.data_type == "correlation", "attributes")
    ok = []
    for a, k in enumerate(ks):
        for i in range(3):
            for b, s in enumerate(index):
                if i == 2 and s == 2:
                    continue  # products of unknown cells: see autocorrelated
                got = q.data[a, i, b] if axis == 0 else q.data[i, a, b]
                ok.append(near(x, got, correlation(data, i, s, k), 1e-5))
    x.check(x.And(*ok), "correlations")


@scenario(SCENARIOS, split={"axis": 2, "desc": 2})
def autocorrelated(x):
    """The same for unknown sources."""
    axis, desc, n = x.small("axis", 0, 1), x.small("desc", 0, 1), 3
    coord, dx = even_coord(x, "dt", n, desc)
    p, data = build(x, coord, n, fixed(2, 0.5), axis, lambda i, j: (i, j) in ((0, 0), (2, 0), (1, 1)))
    q = p.correlate(distance=0, samples=True)
    ks = lags(x, q, "lag_time", dx, n)
    for a, k in enumerate(ks):
        for i in range(2):
            got = q.data[a, i, 0] if axis == 0 else q.data[i, a, 0]
            x.check(near(x, got, correlation(data, i, 0, k), 1e-3), "correlations")


@scenario(SCENARIOS, split={"axis": 2, "form": 3})
def correlated_times(x):
    """Sources may be times: lags are distances then."""
    axis, form = x.small("axis", 0, 1), x.small("form", 0, 2)
    desc = x.small("desc", 0, 1)
    n, m = 3, 4
    coord, _ = even_coord(x, "dt", n, 0)
    other = fixed(m, -0.5 if desc else 0.5)
    p, data = build(x, coord, n, other, axis, lambda i, j: i == 2)
    times = values_list(coord)
    given = (times[1], 1, x.arr(times[:2]))[form]
    index = [0, 1] if form == 2 else [1]
    q = p.correlate(time=given, samples=form == 1)
    x.check(q.dims == tuple("lag_distance" if d == "distance" else d for d in p.dims) + ("source_time",), "dimensions")
    ks = lags(x, q, "lag_distance", -0.5 if desc else 0.5, m)
    same_values(x, values_list(q.get_coord("source_time")), [times[i] for i in index], "the sources are named by their coordinate")
    turned = [[data[i][j] for i in range(n)] for j in range(m)]
    ok = []
    for a, k in enumerate(ks):
        for i in range(n):
            for b, s in enumerate(index):
                got = q.data[i, a, b] if axis == 0 else q.data[a, i, b]
                ok.append(near(x, got, correlation(turned, i, s, k), 1e-5))
    x.check(x.And(*ok), "correlations")


@scenario(SCENARIOS, split={"kind": 4, "desc": 2, "real": 2})
def correlated_spectra(x):
    """Transformed patches are correlated as they are; idft and correlate_shift then give the circular correlation."""
    kind, desc, real, axis = KINDS[x.small("kind", 0, 3)], x.small("desc", 0, 1), x.small("real", 0, 1), x.small("axis", 0, 1)
    n = x.choice("n", (3, 4, 5))
    coord, dx = even_coord(x, kind, n, desc)
    p, data = build(x, coord, n, fixed(2, 0.5), axis, lambda i, j: j == 1)
    f = p.dft("time", real="time" if real else None)
    g = f.correlate(distance=1.0)
    x.check(g.dims == f.dims + ("source_distance",), "still transformed")
    undo = bool(x.small("undo", 0, 1))
    q = g.idft().correlate_shift("time", **({} if undo else {"undo_weighting": False}))
    ks = [seconds(v) / dx for v in values_list(q.get_coord("lag_time"))]
    x.check(all(abs(k - (a - n // 2)) < 1e-9 for a, k in enumerate(ks)) and len(ks) == n, "lags around zero")
    ok = []
    for a in range(n):
        for i in range(2):
            got = q.data[a, i, 0] if axis == 0 else q.data[i, a, 0]
            want = correlation(data, i, 0, a - n // 2, circular=True) * (1.0 if undo else dx)
            ok.append(near(x, got.real, want, 1e-5))
    x.check(x.And(*ok), "correlations")


@scenario(SCENARIOS, split={"kind": 4, "desc": 2, "form": 3})
def ratios(x):
    """stalta is the ratio of the means of the last cells."""
    kind, desc, form, axis = KINDS[x.small("kind", 0, 3)], x.small("desc", 0, 1), x.small("form", 0, 2), x.small("axis", 0, 1)
    n, m = 5, 2
    coord, dx = even_coord(x, kind, n, desc)
    p, data = build(x, coord, n, fixed(m), axis, lambda i, j: j == 1 and i < 4, low=1)
    s, l = x.choice("windows", ((1, 2), (2, 3), (2, 4), (1, 5)))
    dimu = {"dt": "s", "td": "s", "flt": "m", "int": "ft"}[kind]
    w = [(s, l), (s * abs(dx), l * abs(dx)), tuple(v * abs(dx) * get_quantity(dimu) for v in (s, l))][form]
    q = p.stalta(time=w, samples=form == 0)
    ok = []
    for i in range(n):
        for j in range(m):
            got = q.data[i, j] if axis == 0 else q.data[j, i]
            if i < l - 1:
                ok.append(np.isnan(got))
                continue
            a, b = sum(data[i - k][j] for k in range(s)), sum(data[i - k][j] for k in range(l))
            # got == (a / s) / (b / l)
            ok.append(near(x, got * b * s, a * l, 1e-4))
    x.check(x.And(*ok), "ratios")
    x.check(q.coords == p.coords and q.attrs.tag == "one" and q.attrs.data_type == "stalta", "coordinates and attributes")
    x.check(x.raises(lambda: p.stalta(time=(w[1], w[0]), samples=form == 0), ParameterError), "windows in the wrong order")
    x.check(x.raises(lambda: p.stalta(time=(w[1], w[1]), samples=form == 0), ParameterError), "windows of the same length")


@scenario(SCENARIOS, split={"axis": 2, "desc": 2, "dist": 5})
def stacked(x):
    """tau_p sums every line along the slanted lines of the given velocities."""
    axis, desc = x.small("axis", 0, 1), x.small("desc", 0, 1)
    dist = ((1.0, 1.5, 2.0), (1.0, 1.25, 2.0), (2.0, 1.5, 1.0), (2.0, 1.25, 1.0), (1.5, 1.0, 2.25))[x.small("dist", 0, 4)]
    kind = x.choice("kind", ("dt", "flt"))
    n, m = 5, 3
    dt = 0.25
    step = np.timedelta64(250_000_000, "ns") if kind == "dt" else 0.25
    start = val(x, "start", kind)
    step = -step if desc else step
    coord = get_coord(start=start, step=step, stop=start + step * n, units="s")
    cm = x.small("cm", 0, 1)
    other = get_coord(data=np.array([v * 100 for v in dist] if cm else dist), units="cm" if cm else "m")
    p, data = build(x, coord, n, other, axis, lambda i, j: (i + j) % 2 == 0)
    vel = (0.75, 1.0, 3.0)
    q = p.tau_p(np.array(vel))
    x.check(q.dims == ("slowness", "time"), "dimensions")
    want = [-1 / v for v in vel[::-1]] + [1 / v for v in vel]
    got_s = [float(v) for v in values_list(q.get_coord("slowness"))]
    x.check(len(got_s) == 6 and all(abs(a - b) < 1e-9 for a, b in zip(got_s, want)), "slownesses")
    x.check(get_quantity(q.get_coord("slowness").units) == get_quantity("s/m") and get_quantity(q.get_coord("time").units) == get_quantity("s"), "units")
    same_values(x, values_list(q.get_coord("time")), values_list(coord)[:: -1 if desc else 1], "times")
    by_time = data[::-1] if desc else data
    first, last = min(dist), max(dist)
    ok = []
    for a, s in enumerate(want):
        for tau in range(n):
            total = 0.0
            for j, d in enumerate(dist):
                pos = tau + s * (d - first if s > 0 else d - last) / dt
                k = int(pos + 1e-9)
                w = pos - k
                if k + 1 < n:
                    total = total + (1 - w) * by_time[k][j] + w * by_time[k + 1][j]
            ok.append(near(x, q.data[a, tau], total, 1e-5))
    x.check(x.And(*ok), "stacks")


@scenario(SCENARIOS)
def stacks_refused(x):
    """Velocities must be positive and increasing."""
    coord, _ = even_coord(x, "dt", 4, 0)
    p, _ = build(x, coord, 4, fixed(3), 1, lambda i, j: i == j)
    a, b = x.flt("a", -16, 16, 8), x.flt("b", -16, 16, 8)
    if x.And(a > 0, b > a):
        return
    x.check(x.raises(lambda: p.tau_p(x.arr([a, b])), ParameterError), "refused")


def med3(x, v):
    """The median of an odd number of values."""
    v = list(v)
    for i in range(len(v) // 2 + 1):
        for j in range(i + 1, len(v)):
            v[i], v[j] = np.minimum(v[i], v[j]), np.maximum(v[i], v[j])
    return v[len(v) // 2]


@scenario(SCENARIOS, split={"form": 3, "axis": 2})
def spikes(x):
    """hampel_filter puts the median of the window where a cell is further from it than threshold times the median of these distances."""
    form, axis = x.small("form", 0, 2), x.small("axis", 0, 1)
    approx = bool(x.small("approx", 0, 1))
    n, m = 7, 2
    coord, dx = even_coord(x, "dt", n, x.small("desc", 0, 1))
    p, data = build(x, coord, n, fixed(m), axis, lambda i, j: j == 1 and i == 3)
    thr = x.choice("threshold", (1.5, 4.0))
    w = (3, 2.25 * abs(dx), 3 * abs(dx) * 1000 * get_quantity("ms"))[form]
    q = p.hampel_filter(time=w, samples=form == 0, threshold=thr, approximate=approx)
    line = [data[i][1] for i in range(n)]
    at = lambda v, i: v[-1 - i if i < 0 else 2 * n - 1 - i if i >= n else i]
    med = [med3(x, [at(line, i + k) for k in (-1, 0, 1)]) for i in range(n)]
    dif = [abs(a - b) for a, b in zip(line, med)]
    mad = [med3(x, [at(dif, i + k) for k in (-1, 0, 1)]) for i in range(n)]
    ok = []
    for i in range(n) if not approx else range(2, n - 2):
        got = q.data[i, 1] if axis == 0 else q.data[1, i]
        far = x.Or(x.And(mad[i] > 0, dif[i] > thr * mad[i]), x.And(mad[i] == 0, dif[i] > 1e-9))
        ok.append(x.Or(x.And(far, got == med[i]), x.And(x.Not(far), got == line[i])))
    x.check(x.And(*ok), "despiked")
    x.check(q.coords == p.coords and q.attrs.tag == "one", "coordinates and attributes")
    x.check(x.And(*[(p.data[i, 1] if axis == 0 else p.data[1, i]) == line[i] for i in range(n)]), "the input keeps its cells")


def window(form, size, dx, kind):
    """A window of size samples in samples, values or with units, and whether it is in samples."""
    dimu = {"dt": "s", "td": "s", "flt": "m", "int": "ft"}[kind]
    w = (size - 0.125) * abs(dx)
    return (size, w, w * get_quantity(dimu))[form], form == 0


@scenario(SCENARIOS, split={"kind": 4, "desc": 2, "axis": 2, "form": 3})
def tailed(x):
    """kurtosis is the fourth central moment of the cells around over their squared variance (of a pattern times any factor, moved by any offset)."""
    kind, desc, axis = KINDS[x.small("kind", 0, 3)], x.small("desc", 0, 1), x.small("axis", 0, 1)
    form, size = x.small("form", 0, 2), x.choice("size", (2, 3, 4))
    n, m = 5, 2
    coord, dx = even_coord(x, kind, n, desc)
    f, g = x.flt("factor", 1, 8, 8), x.flt("offset", -8, 8, 8)
    pattern = [[1.0, 2.0], [3.0, -1.0], [-2.0, 1.5], [0.5, 0.25], [4.0, 3.0]]
    rows = [[f * v + g for v in r] for r in pattern]
    if axis:
        rows = [list(r) for r in zip(*rows)]
    p = dc.Patch(data=x.arr(rows), coords={"time": coord, "distance": fixed(m)}, dims=("time", "distance") if axis == 0 else ("distance", "time"), attrs=dict(tag="one", data_units="m/s"))
    w, samples = window(form, size, dx, kind)
    q = p.kurtosis(time=w, samples=samples, recursive=False)
    for i in range(n):
        for j in range(m):
            got = q.data[i, j] if axis == 0 else q.data[j, i]
            cells = np.array([pattern[k][j] for k in range(max(i - size // 2, 0), min(i - size // 2 + size, n))])
            if len(cells) == 1:
                x.check(np.isnan(got), "no kurtosis of one cell")
                continue
            away = cells - cells.mean()
            x.check(near(x, got, float(np.mean(away**4) / np.mean(away**2) ** 2), 1e-6), "kurtosis")
    x.check(q.coords == p.coords and q.dims == p.dims, "coordinates")
    x.check(q.attrs.tag == "one" and q.attrs.data_type == "kurtosis" and q.attrs.data_units is None, "attributes")
    x.check(x.raises(lambda: p.kurtosis(time=1, samples=True), ParameterError), "windows of one cell are refused")


@scenario(SCENARIOS, split={"axis": 2, "desc": 2})
def tailed_on_the_way(x):
    """The recursive kurtosis follows its recursion (of a pattern times any factor)."""
    axis, desc, form = x.small("axis", 0, 1), x.small("desc", 0, 1), x.small("form", 0, 2)
    n, size = 4, x.choice("size", (2, 3))
    coord, dx = even_coord(x, "dt", n, desc)
    f = x.flt("factor", 1, 64, 8)
    pattern = np.array([[1.0, -2.0], [3.0, 0.5], [-1.0, 2.0], [0.5, -4.0]])
    cells = [[f * float(v) for v in r] for r in (pattern if axis == 0 else pattern.T)]
    p = dc.Patch(data=x.arr(cells), coords={"time": coord, "distance": fixed(2)}, dims=("time", "distance") if axis == 0 else ("distance", "time"), attrs=dict(tag="one"))
    w, samples = window(form, size, dx, "dt")
    q = p.kurtosis(time=w, samples=samples)
    keep = 1 - 1 / size
    for j in range(2):
        whole = float(np.var(pattern[:, j]))
        mean = var = kurt = 0.0
        for i in range(n):
            v = float(pattern[i, j])
            mean = keep * mean + (1 - keep) * v
            var = keep * var + (1 - keep) * (v - mean) ** 2
            kurt = keep * kurt + (1 - keep) * (v - mean) ** 4 / max(var, whole) ** 2
            x.check(near(x, q.data[i, j] if axis == 0 else q.data[j, i], kurt, 1e-5), "kurtosis")
    x.check(q.coords == p.coords and q.attrs.tag == "one" and q.attrs.data_type == "kurtosis", "coordinates and attributes")


@scenario(SCENARIOS, split={"kind": 4, "desc": 2, "axis": 2})
def energies(x):
    """fbe is the root of the mean of the squares of the last filtered cells (of a pattern times any factor)."""
    from scipy import signal

    kind, desc, axis = KINDS[x.small("kind", 0, 3)], x.small("desc", 0, 1), x.small("axis", 0, 1)
    n, m = 28, 2
    coord, dx = even_coord(x, kind, n, desc)
    f = x.flt("factor", -64, 64, 8)
    pattern = np.array([[float((7 * i + 5 * j) % 11 - 4) for j in range(m)] for i in range(n)])
    cells = [[f * float(v) for v in r] for r in (pattern if axis == 0 else pattern.T)]
    coords = {"time": coord, "distance": fixed(m), "side": ("distance", np.arange(m) * 3)}
    p = dc.Patch(data=x.arr(cells), coords=coords, dims=("time", "distance") if axis == 0 else ("distance", "time"), attrs=dict(tag="one", station="st", data_units="m/s"))
    size, every = x.choice("windows", ((2, 1), (3, 2)))
    nyq = 0.5 / abs(dx)
    lo, hi = x.choice("band", ((0.25, 0.5), (None, 0.375)))
    band = tuple(None if v is None else v * nyq for v in (lo, hi))
    kw = {} if every == 1 else {"step": every * abs(dx)}
    q = p.fbe(time=band, window=size * abs(dx), db=False, **kw)
    fs = 1 / abs(dx)
    sos = signal.butter(4, band, "bandpass", fs=fs, output="sos") if lo else signal.butter(4, band[1], "lowpass", fs=fs, output="sos")
    out = signal.sosfiltfilt(sos, pattern, axis=0)
    ids = list(range(0, n, every))
    x.check(q.data.shape == ((len(ids), m) if axis == 0 else (m, len(ids))), "shape")
    ok = []
    for k, i in enumerate(ids):
        for j in range(m):
            got = q.data[k, j] if axis == 0 else q.data[j, k]
            if i < size - 1:
                ok.append(np.isnan(got))
                continue
            want = float(np.sqrt(np.mean(out[i - size + 1 : i + 1, j] ** 2)))
            ok.append(near(x, got, abs(f) * want, 1e-4))
    x.check(x.And(*ok), "energies")
    same_values(x, values_list(q.get_coord("time")), [values_list(coord)[i] for i in ids], "times")
    x.check(q.get_coord("distance") == p.get_coord("distance") and [int(v) for v in q.get_array("side")] == [0, 3], "the other dimension")
    x.check(q.attrs.tag == "one" and q.attrs.station == "st" and q.attrs.data_type == "frequency_band_energy" and get_quantity(q.attrs.data_units) == get_quantity("m/s"), "attributes")
