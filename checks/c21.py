"""C21: derivatives and integrals use the coordinate's own spacing."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.exceptions import ParameterError
from dascore.units import get_quantity
from sx.harness import scenario

from .common import same_values, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "data of 4 x 2 or 4 x 3 cells (9 for strided derivatives) of any values, float or integer, along either axis; evenly and unevenly sampled coordinates in both directions and times, starting anywhere, with the sample offsets listed; "
    "derivatives of all parabolas (all products of parabolas for two dimensions); order 2"
)
ASSUMPTIONS = ["floats are exact rationals compared within 1e-9 relative; path witnesses are replayed on real floats", "np.gradient and np.trapezoid are modelled by their documented formulas"]
COVERS = []

# kind -> (offsets of the samples in units of 1/8 coordinate unit, evenly sampled)
OFFSETS = {
    "even": (0, 4, 8, 12), "even desc": (0, -4, -8, -12), "uneven": (0, 4, 6, 14, 15, 21, 30, 31, 40), "uneven desc": (0, -8, -10, -22, -23, -40, -42, -50, -51),
    "time": (0, 4, 8, 12), "uneven time": (0, 2, 8, 12),
}
FORMS = tuple(OFFSETS)
SEC = 10**9


def close(x, a, b, tol=1e-9):
    d = a - b
    mag = abs(b) + abs(a) + 1
    return x.And(d <= mag * tol, -d <= mag * tol)


def make_coord(x, form, n, tag="start", units=True):
    """A coordinate starting anywhere and its sample offsets (floats, or seconds)."""
    offs = OFFSETS[form]
    offs = [o / 8 for o in (offs if len(offs) >= n else [offs[1] * i for i in range(n)])][:n]
    if "time" in form:
        start = val(x, tag, "dt")
        steps = [np.timedelta64(int(o * SEC), "ns") for o in offs]
        u = "s"
    else:
        start = val(x, tag, "flt", -512, 512)
        steps = offs
        u = "m"
    if form.startswith("un"):
        return get_coord(data=x.arr([start + s for s in steps]), units=u), offs
    return get_coord(start=start, step=steps[1], stop=start + steps[1] * n, units=u), offs


def datum(x, name, ints):
    return x.npint(name, -100, 100) if ints else val(x, name, "flt", -512, 512)


def grid(x, axis, lines):
    """2-D data from lines along an axis."""
    n, m = len(lines[0]), len(lines)
    cells = [[lines[j][i] for j in range(m)] for i in range(n)] if axis == 0 else lines
    return x.arr(cells)


def make_patch(x, axis, coord, data, m):
    other = get_coord(start=0, stop=m, step=1)
    name = "time" if coord.dtype.kind == "M" else "distance"
    dims = (name, "line") if axis == 0 else ("line", name)
    return name, dc.Patch(data=data, coords={name: coord, "line": other}, dims=dims, attrs={"data_units": "m/s", "data_type": "velocity"})


def line_of(data, axis, j):
    return [data[i, j] if axis == 0 else data[j, i] for i in range(data.shape[axis])]


def unchanged(x, patch, out, msg):
    x.check(out.dims == patch.dims, msg + ": dimensions")
    for name in patch.dims:
        same_values(x, values_list(out.get_coord(name)), values_list(patch.get_coord(name)), msg + f": {name} values")


@scenario(SCENARIOS, split={"form": len(FORMS), "axis": 2, "ints": 2})
def derivative(x):
    """The derivative of a parabola in the coordinate is exact at every sample, edges included."""
    form = FORMS[x.small("form", 0, len(FORMS) - 1)]
    axis, ints = x.small("axis", 0, 1), bool(x.small("ints", 0, 1))
    n, m = 4, 2
    coord, offs = make_coord(x, form, n)
    ps = [[datum(x, f"p{j}{k}", ints) for k in range(3)] for j in range(m)]
    scale = 8 if ints else 1  # keeps integer data integer
    lines = [[p[0] + p[1] * int(o * scale) + p[2] * int(o * scale) * int(o * scale) if ints else p[0] + p[1] * o + p[2] * (o * o) for o in offs] for p in ps]
    name, patch = make_patch(x, axis, coord, grid(x, axis, lines), m)
    out = patch.differentiate(name)
    for j, p in enumerate(ps):
        for got, o in zip(line_of(out.data, axis, j), offs):
            want = p[1] * scale + p[2] * (2 * o * scale * scale)
            x.check(close(x, got, want), "derivative at the sample")
    unchanged(x, patch, out, "coordinates")
    x.check(get_quantity(out.attrs.data_units) == get_quantity("m/s") / get_quantity(coord.units), "units divided")


@scenario(SCENARIOS, split={"form": 4, "axis": 2, "ints": 2, "step": 2})
def strided_derivative(x):
    """With a step the same holds using samples that far apart; velocity_to_strain_rate is that derivative."""
    form = ("even", "even desc", "time", "uneven")[x.small("form", 0, 3)]
    axis, ints = x.small("axis", 0, 1), bool(x.small("ints", 0, 1))
    step = 2 + x.small("step", 0, 1)
    n, m = 3 * step, 2
    coord, offs = make_coord(x, form, n)
    ps = [[datum(x, f"p{j}{k}", ints) for k in range(3)] for j in range(m)]
    scale = 8 if ints else 1
    lines = [[p[0] + p[1] * int(o * scale) + p[2] * int(o * scale) * int(o * scale) if ints else p[0] + p[1] * o + p[2] * (o * o) for o in offs] for p in ps]
    name, patch = make_patch(x, axis, coord, grid(x, axis, lines), m)
    outs = [patch.differentiate(name, step=step)]
    if name == "distance" and form != "uneven":
        outs.append(patch.velocity_to_strain_rate(step_multiple=2 * step))
        x.check(outs[1].attrs.gauge_length == coord.step * 2 * step, "gauge length")
        x.check(outs[1].attrs.data_type == "strain_rate", "data type")
    for out in outs:
        for j, p in enumerate(ps):
            for got, o in zip(line_of(out.data, axis, j), offs):
                want = p[1] * scale + p[2] * (2 * o * scale * scale)
                x.check(close(x, got, want), "derivative at the sample")
        unchanged(x, patch, out, "coordinates")


@scenario(SCENARIOS, split={"f1": 3, "f2": 3})
def both_dimensions(x):
    """Without a dimension the data is differentiated, or integrated, along each in turn."""
    fa, fb = ("even", "uneven", "uneven desc")[x.small("f1", 0, 2)], ("time", "uneven time", "time")[x.small("f2", 0, 2)]
    ca, oa = make_coord(x, fa, 3, "sa")
    cb, ob = make_coord(x, fb, 4, "sb")
    cs = {(p, q): datum(x, f"c{p}{q}", False) for p in range(3) for q in range(3)}
    cell = lambda a, b: sum(c * (a**p * b**q) for (p, q), c in cs.items())  # noqa
    data = x.arr([[cell(a, b) for b in ob] for a in oa])
    patch = dc.Patch(data=data, coords={"distance": ca, "time": cb}, dims=("distance", "time"))
    out = patch.differentiate(None)
    for i, a in enumerate(oa):
        for j, b in enumerate(ob):
            want = sum(c * (p * a ** max(p - 1, 0) * q * b ** max(q - 1, 0)) for (p, q), c in cs.items())
            x.check(close(x, out.data[i, j], want), "mixed derivative")
    unchanged(x, patch, out, "coordinates")
    total = patch.integrate(None, definite=True)
    want = 0
    for i in range(2):
        for j in range(3):
            area = (oa[i + 1] - oa[i]) * (ob[j + 1] - ob[j]) / 4
            want = want + (data[i, j] + data[i + 1, j] + data[i, j + 1] + data[i + 1, j + 1]) * area
    x.check(total.data.shape == (1, 1), "one cell")
    x.check(close(x, total.data[0, 0], want), "volume")
    cum = patch.integrate(None)
    x.check(close(x, cum.data[2, 3], want), "running volume ends at the total")


@scenario(SCENARIOS, split={"form": len(FORMS), "axis": 2, "ints": 2, "m": 2})
def integral(x):
    """Running and definite integrals are the trapezoid sums over the coordinate."""
    form = FORMS[x.small("form", 0, len(FORMS) - 1)]
    axis, ints = x.small("axis", 0, 1), bool(x.small("ints", 0, 1))
    n = 4
    m = 2 + x.small("m", 0, 1)
    coord, offs = make_coord(x, form, n)
    lines = [[datum(x, f"d{j}{i}", ints) for i in range(n)] for j in range(m)]
    name, patch = make_patch(x, axis, coord, grid(x, axis, lines), m)
    cum = patch.integrate(name)
    tot = patch.integrate(name, definite=True)
    unchanged(x, patch, cum, "coordinates")
    for j, line in enumerate(lines):
        want = [line[0] * 0]
        for i in range(1, n):
            want.append(want[-1] + (line[i] + line[i - 1]) * ((offs[i] - offs[i - 1]) / 2))
        got = line_of(cum.data, axis, j)
        for g, w in zip(got, want):
            x.check(close(x, g, w), "running integral")
        total = line_of(tot.data, axis, j)
        x.check(len(total) == 1, "one value per line")
        x.check(close(x, total[0], want[-1]), "definite integral")
    u = get_quantity("m/s") * get_quantity(coord.units)
    x.check(get_quantity(cum.attrs.data_units) == u and get_quantity(tot.attrs.data_units) == u, "units multiplied")
    x.check(tot.dims == patch.dims, "dimensions")
    x.check(tot.get_array(f"pre_integrate_{name}_min")[0] == coord.min(), "start of the integration")
    x.check(tot.get_array(f"pre_integrate_{name}_max")[0] == coord.max(), "end of the integration")
    mid = tot.get_array(name)[0]
    x.check(x.And(mid >= coord.min(), mid <= coord.max()), "positioned inside")


@scenario(SCENARIOS, split={"k": 3, "axis": 2, "desc": 2})
def edgeless(x):
    """velocity_to_strain_rate_edgeless differences samples k apart, positioned at their midpoint."""
    k, axis = 1 + x.small("k", 0, 2), x.small("axis", 0, 1)
    form = ("even", "even desc")[x.small("desc", 0, 1)]
    n, m = 4, 2
    coord, offs = make_coord(x, form, n)
    lines = [[datum(x, f"d{j}{i}", False) for i in range(n)] for j in range(m)]
    name, patch = make_patch(x, axis, coord, grid(x, axis, lines), m)
    out = patch.velocity_to_strain_rate_edgeless(step_multiple=k)
    vals = values_list(coord)
    x.check(out.dims == patch.dims and out.data.shape[axis] == n - k, "shape")
    for j, line in enumerate(lines):
        got = line_of(out.data, axis, j)
        for i in range(n - k):
            x.check(close(x, got[i], (line[i + k] - line[i]) / (offs[i + k] - offs[i])), "difference")
    for i, v in enumerate(values_list(out.get_coord("distance"))):
        x.check(close(x, v, (vals[i] + vals[i + k]) / 2), "midpoint")
    x.check(out.attrs.gauge_length == coord.step * k, "gauge length")
    x.check(get_quantity(out.attrs.data_units) == get_quantity("1/s"), "units")


@scenario(SCENARIOS)
def strain(x):
    """radians_to_strain scales every cell by the optical constant over the gauge length."""
    g = x.flt("g", 1, 64, 8)
    d = [datum(x, f"d{i}", False) for i in range(2)]
    from_attr = bool(x.bool("attr"))
    unit, f = (("radians", 1), ("radians/ms", 1000), ("100 radians", 100))[x.small("u", 0, 2)]
    attrs = {"data_units": unit}
    if from_attr:
        attrs["gauge_length"] = g
    patch = dc.Patch(data=x.arr([d]), coords={"time": np.arange(1), "distance": np.arange(2)}, dims=("time", "distance"), attrs=attrs)
    out = patch.radians_to_strain() if from_attr else patch.radians_to_strain(gauge_length=g)
    const = 1550e-9 / (4 * np.pi * 1.445 * 0.79)
    for i in range(2):
        x.check(close(x, out.data[0, i] * g / const, d[i] * f, 1e-6), "scaled")
    want = get_quantity("strain") if f != 1000 else get_quantity("strain/s")
    x.check(get_quantity(out.attrs.data_units).units == want.units, "units")
    for bad in (0, -1):
        try:
            patch.radians_to_strain(gauge_length=bad)
        except ParameterError:
            pass
        else:
            x.check(False, "gauge length must be positive")
