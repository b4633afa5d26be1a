"""C19: unit conversions keep the physical quantity."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.exceptions import UnitError
from dascore.units import convert_units, get_filter_units, get_quantity
from sx.harness import scenario

from .common import index_list, mono_values, same_values, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "values within +-4096 on a 1/8 grid; 16 units of length, time, speed and temperature, every ordered pair within a kind; coordinates of 1..4 samples (evenly "
    "sampled either direction, uneven, unsorted, valueless); one unit per call for data and two coordinates"
)
ASSUMPTIONS = [
    "floats are exact rationals, compared within 1e-9 relative; path witnesses are replayed on real floats",
    "quantity bounds stay 1e-6 away from every sample, since conversion rounds",
    "unit definitions are those of pint (its conversion factors enter as constants)",
]
COVERS = ["kept some", "dropped some", "offset units", "refused"]

# unit -> (factor, offset) to its base
UNITS = {
    "length": (("m", 1, 0), ("km", 1000, 0), ("ft", 0.3048, 0), ("10 m", 10, 0), ("mm", 0.001, 0)),
    "time": (("s", 1, 0), ("ms", 0.001, 0), ("minute", 60, 0), ("5 ms", 0.005, 0)),
    "rate": (("m/s", 1, 0), ("km/s", 1000, 0), ("ft/minute", 0.3048 / 60, 0)),
    "temp": (("K", 1, 0), ("degC", 1, 273.15), ("degF", 5 / 9, 459.67 * 5 / 9)),
}
PAIRS = [(a, b) for group in UNITS.values() for a in group for b in group]


def close(x, a, b):
    d = a - b
    tol = 1e-9
    mag = abs(b) + abs(a) + 1
    return x.And(d <= mag * tol, -d <= mag * tol)


def expected(v, a, b):
    """v in units a, expressed in units b."""
    return ((v * a[1] + a[2]) - b[2]) / b[1]


@scenario(SCENARIOS, split={"pair": len(PAIRS)})
def values(x):
    """Converted values are the same quantity; converting back restores them."""
    a, b = PAIRS[x.small("pair", 0, len(PAIRS) - 1)]
    v = val(x, "v", "flt")
    out = convert_units(v, b[0], a[0])
    x.check(close(x, out, expected(v, a, b)), "same quantity")
    x.check(close(x, convert_units(out, a[0], b[0]), v), "and back")
    arr = np.array([v, v + 1])
    got = convert_units(arr, b[0], a[0])
    x.check(close(x, got[1], expected(v + 1, a, b)), "arrays")
    q = get_quantity(a[0])
    if q.magnitude == 1:
        x.check(close(x, convert_units(dc.units.Quantity(v, q.units), b[0]), expected(v, a, b)), "quantities")
    x.check(convert_units(v, b[0]) == v, "no units yet")


def wrong_unit(a):
    return "kg" if a[0] != "kg" else "m"


FORMS = ("asc", "desc", "uneven", "uneven desc", "unsorted", "none")


def make(x, form, n, units, tag="v", span=4096):
    """A float coordinate with units."""
    if form in ("asc", "desc"):
        start = val(x, tag, "flt", -span, span)
        step = 1.5 if form == "asc" else -1.5
        return get_coord(start=start, step=step, stop=start + step * n, units=units)
    if form == "unsorted":
        a, b, c = mono_values(x, tag, "flt", 3)
        return get_coord(data=x.arr([b, a, c]), units=units)
    if form == "none":
        return get_coord(shape=(n,), units=units, dtype=np.dtype(np.float64))
    return get_coord(data=x.arr(mono_values(x, tag, "flt", n, desc=form == "uneven desc")), units=units)


SOME = [
    (("m", 1, 0), ("km", 1000, 0)), (("ft", 0.3048, 0), ("m", 1, 0)), (("10 m", 10, 0), ("mm", 0.001, 0)),
    (("degC", 1, 273.15), ("K", 1, 0)), (("degF", 5 / 9, 459.67 * 5 / 9), ("degC", 1, 273.15)), (("m/s", 1, 0), ("ft/minute", 0.3048 / 60, 0)),
]


def converted(x, coord, vals, a, b, msg):
    got = values_list(coord)
    x.check(len(coord) == len(got) == len(vals), msg + ": length kept")
    x.check(get_quantity(coord.units) == get_quantity(b[0]), msg + ": units")
    for g, v in zip(got, vals):
        x.check(close(x, g, expected(v, a, b)), msg + ": each value is the same quantity")


@scenario(SCENARIOS, split={"pair": len(SOME), "form": 5})
def coordinates(x):
    """A converted coordinate holds the same positions, evenly sampled if it was; back again is the original."""
    a, b = SOME[x.small("pair", 0, len(SOME) - 1)]
    form = FORMS[x.small("form", 0, 4)]
    x.cover("offset units", a[2] != b[2])
    n = 3 if form == "unsorted" else x.small("n", 1 if form[0] in "ad" else 2, 4)
    coord = make(x, form, n, a[0])
    vals = values_list(coord)
    new = coord.convert_units(b[0])
    converted(x, new, vals, a, b, "convert")
    x.check(new.evenly_sampled == coord.evenly_sampled, "evenly sampled or not as before")
    x.check((new.sorted, new.reverse_sorted) == (coord.sorted, coord.reverse_sorted), "sorted as before")
    back = new.convert_units(a[0])
    for g, v in zip(values_list(back), vals):
        x.check(close(x, g, v), "and back")
    other = coord.set_units(b[0])
    same_values(x, values_list(other), vals, "set_units keeps the values")
    x.check(get_quantity(other.units) == get_quantity(b[0]), "set_units sets")
    try:
        coord.convert_units(wrong_unit(a))
    except UnitError:
        x.cover("refused", True)
    else:
        x.check(False, "incompatible units are refused")


PATCH_OPS = ("convert", "set", "simplify")
BASES = {"ft": ("m", 1, 0), "degC": ("K", 1, 0), "m/s": ("m/s", 1, 0), "degF": ("K", 1, 0), "10 m": ("m", 1, 0), "m": ("m", 1, 0)}


@scenario(SCENARIOS, split={"pair": len(SOME), "op": 3, "form": 3})
def patches(x):
    """Data and coordinates are converted together, each by its own units; everything else stays."""
    a, b = SOME[x.small("pair", 0, len(SOME) - 1)]
    op = PATCH_OPS[x.small("op", 0, 2)]
    form = ("asc", "uneven", "none")[x.small("form", 0, 2)]
    on = x.small("on", 0, 2)  # 0: data, 1: a coordinate, 2: both
    n = 2
    ca = make(x, form, n, "ft")
    time = get_coord(start=np.datetime64(5, "ns"), step=np.timedelta64(10**9, "ns"), stop=np.datetime64(5 + 2 * 10**9, "ns"), units="s")
    d = [val(x, f"d{i}", "flt") for i in range(4)]
    data = np.array([[d[0], d[1]], [d[2], d[3]]])
    patch = dc.Patch(data=data, coords={"a": ca, "time": time}, dims=("a", "time"), attrs={"data_units": a[0], "station": "keep"})
    vals = values_list(ca) if form != "none" else None
    kw = {}
    if on != 1:
        kw["data_units"] = b[0]
    if on:
        kw["a"] = "km"
    if op == "convert":
        out = patch.convert_units(**kw)
    elif op == "set":
        out = patch.set_units(**kw)
    else:
        out = patch.simplify_units()
    got = out.data
    ca_out = out.get_coord("a")
    if op == "simplify":
        du, cu = BASES[a[0]], ("m", 1, 0)
    else:
        du, cu = (b if on != 1 else a), (("km", 1000, 0) if on else ("ft", 0.3048, 0))
    if not (op == "set" and on == 1):  # set_units without data units clears them
        x.check(get_quantity(out.attrs.data_units) == get_quantity(du[0]), "data units")
    for k in range(4):
        want = d[k] if op == "set" else expected(d[k], a, du)
        x.check(close(x, got[k // 2, k % 2], want), "data is the same quantity")
    x.check(get_quantity(ca_out.units) == get_quantity(cu[0]), "coordinate units")
    x.check(len(ca_out) == n, "coordinate length")
    if vals is not None:
        for g, v in zip(values_list(ca_out), vals):
            x.check(close(x, g, v if op == "set" else expected(v, ("ft", 0.3048, 0), cu)), "coordinate positions")
    t_out = out.get_coord("time")
    x.check(t_out == time, "the time coordinate is untouched")
    x.check(out.dims == patch.dims and out.attrs.station == "keep", "dimensions and other attributes stay")
    if vals is not None:
        x.check(get_quantity(out.attrs.coords["a"].units) == get_quantity(cu[0]), "summary units")


BOUND_UNITS = {
    "m": (("km", 1000, 0), ("ft", 0.3048, 0), ("mm", 0.001, 0)),
    "degC": (("K", 1, 0), ("degF", 5 / 9, 459.67 * 5 / 9), ("degC", 1, 273.15)),
}


@scenario(SCENARIOS, split={"u": 2, "b": 3, "form": 5})
def select_quantity(x):
    """Bounds given as quantities select what the converted bounds select."""
    base = (("m", 1, 0), ("degC", 1, 273.15))[x.small("u", 0, 1)]
    b = BOUND_UNITS[base[0]][x.small("b", 0, 2)]
    form = FORMS[x.small("form", 0, 4)]
    n = 3
    coord = make(x, form, n, base[0], span=64)
    vals = values_list(coord)
    hard = b[0] in ("degF", "ft") and form in ("asc", "desc")  # one-sided only
    mode = x.small("mode", 1 if hard else 0, 2)
    unit = get_quantity(b[0]).units
    lo = hi = None
    args = [None, ...]
    if mode != 2:
        l = val(x, "lo", "flt", -512, 512)
        lo = expected(l, b, base)
        args[0] = dc.units.Quantity(l, unit)
    if mode != 1:
        h = val(x, "hi", "flt", -512, 512)
        hi = expected(h, b, base)
        args[1] = dc.units.Quantity(h, unit)
    if mode == 0:
        x.assume(lo < hi)
    for v in vals:
        for q in (lo, hi):
            if q is not None:
                x.assume(x.Or(v - q > 2**-20, q - v > 2**-20))
    _, ind = coord.select(tuple(args))
    got = index_list(n, ind)
    for i in range(n):
        conds = [True]
        if lo is not None:
            conds.append(vals[i] >= lo)
        if hi is not None:
            conds.append(vals[i] <= hi)
        x.check(x.Iff(i in got, x.And(*conds)), "keeps the samples within the quantities")
    x.cover("kept some", len(got) > 0)
    x.cover("dropped some", len(got) < n)


T_UNITS = (("ms", 10**6), ("s", 10**9), ("minute", 60 * 10**9))


@scenario(SCENARIOS, split={"kind": 2, "b": 3})
def select_time_quantity(x):
    """On time coordinates quantities of time are converted to seconds, absolute or relative."""
    kind = ("dt", "td")[x.small("kind", 0, 1)]
    name, ns = T_UNITS[x.small("b", 0, 2)]
    rel = bool(x.bool("relative"))
    n = 4
    step = np.timedelta64(1500 * 10**6, "ns")
    start = x.dt("start", -(10**12), 10**12) if kind == "dt" else x.td("start", -(10**12), 10**12)
    coord = get_coord(start=start, step=step, stop=start + step * n, units="s")
    vals = values_list(coord)
    q = x.small("q", 1, 5) if rel else x.flt("q", -(10**4), 10**4, 8)
    unit = get_quantity(name).units
    base = np.datetime64(0, "ns") if kind == "dt" else np.timedelta64(0, "ns")
    _, ind = coord.select((dc.units.Quantity(q, unit), None), relative=rel)
    got = index_list(n, ind)
    zero = start if rel else base
    for i in range(n):
        off = (vals[i] - zero) / np.timedelta64(1, "ns")
        if not rel:
            x.assume(x.Or(off - q * ns > 2, q * ns - off > 2))
        x.check(x.Iff(i in got, off >= q * ns), "keeps the samples from the quantity on")
    x.cover("dropped some", len(got) < n)


@scenario(SCENARIOS)
def filter_limits(x):
    """Band limits given as quantities become the same band in inverse coordinate units."""
    which = x.small("which", 0, 3)
    dim, unit, f, inverted = (("s", "Hz", 1, True), ("s", "ms", 0.001, False), ("m", "1/km", 0.001, True), ("m", "ft", 0.3048, False))[which]
    u = get_quantity(unit).units
    a, b = x.flt("a", 1, 4096, 8), x.flt("b", 1, 4096, 8)
    mode = x.small("mode", 0, 2)
    q1 = dc.units.Quantity(a, u) if mode != 2 else None
    q2 = dc.units.Quantity(b, u) if mode != 1 else ...
    o1, o2 = get_filter_units(q1, q2, dim)
    want1 = None if mode == 2 else (a * f if inverted else 1 / (a * f))
    want2 = None if mode == 1 else (b * f if inverted else 1 / (b * f))
    if mode == 0 and not inverted:
        want1, want2 = want2, want1
    for o, w in ((o1, want1), (o2, want2)):
        if w is None:
            x.check(o is None, "open side stays open")
        else:
            x.check(close(x, o, w), "the same limit as a frequency")


@scenario(SCENARIOS, split={"kind": 2})
def counts(x):
    """A length given as a quantity counts the samples the converted length counts."""
    n = 4
    if x.small("kind", 0, 1):
        coord = get_coord(start=np.datetime64(0, "ns"), step=np.timedelta64(1500, "ms"), stop=np.datetime64(6000, "ms"), units="s")
        k = x.int("k", 1, 60)
        got = coord.get_sample_count(dc.units.Quantity(k * 100, get_quantity("ms").units))
        x.check(x.And(got * 15 >= k, (got - 1) * 15 < k), "rounded up")
        return
    coord = get_coord(start=2.0, step=1.5, stop=8.0, units="m")
    v = x.flt("v", 1, 8, 8)
    got = coord.get_sample_count(dc.units.Quantity(v, get_quantity("ft").units))
    m = v * 0.3048
    x.check(x.And(got * 1.5 >= m - 1e-9, (got - 1) * 1.5 < m + 1e-9), "rounded up")


@scenario(SCENARIOS, split={"form": 5})
def percent(x):
    """Percentages are fractions of the coordinate's extent, from the start or (negative) from the end."""
    form = FORMS[x.small("form", 0, 4)]
    n = 3
    coord = make(x, form, n, "m")
    vals = values_list(coord)
    p = x.flt("p", -100, 100, 8)
    x.assume(p != 0)
    lo, hi = coord.min(), coord.max()
    cut = lo + (hi - lo) * p / 100 if bool(p > 0) else hi + (hi - lo) * p / 100
    for v in vals:
        x.assume(x.Or(v - cut > 2**-20, cut - v > 2**-20))
    _, ind = coord.select((dc.units.Quantity(p, get_quantity("percent").units), None))
    got = index_list(n, ind)
    for i in range(n):
        x.check(x.Iff(i in got, vals[i] >= cut), "keeps the samples beyond the fraction")
