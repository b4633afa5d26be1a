"""C23: decimation and interpolation use the samples the coordinates name."""
from __future__ import annotations

import numpy as np
from scipy.interpolate import interp1d

import dascore as dc
from dascore.core.coords import get_coord
from sx.harness import scenario

from .c21 import close
from .common import KINDS, mono_values, range_coord, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "patches of 2..5 x 2 cells of any values along either axis; decimation of even (both ways), uneven and unsorted coordinates of four kinds by 1..6; linear interpolation from even (both ways), uneven and unsorted "
    "datetime and float coordinates starting anywhere to any position, inside or outside"
)
ASSUMPTIONS = ["floats are exact rationals compared within 1e-9 relative; path witnesses are replayed on real floats", "scipy's linear interp1d is modelled by its documented formula; decimation without anti-aliasing filter"]
COVERS = ["inside", "outside", "on a sample"]

UNIT = 1000  # ns per 1/8 of time coordinate units


def build(x, coord, data, axis, extra=None):
    n = len(coord)
    rows = data if axis == 0 else [[data[i][j] for i in range(n)] for j in range(2)]
    arr = x.arr(rows) if x.symbolic else np.array(rows, dtype=float)
    dims = ("time", "distance") if axis == 0 else ("distance", "time")
    coords = {"time": coord, "distance": get_coord(data=np.array([3.0, 7.0]), units="m"), "side": ("distance", np.array([8, 4])), **(extra or {})}
    return dc.Patch(data=arr, coords=coords, dims=dims, attrs=dict(tag="one", data_units="m/s"))


def at(p, i, j):
    return p.data[i, j] if p.dims[0] == "time" else p.data[j, i]


def others_kept(x, p, out):
    x.check(out.dims == p.dims, "dimensions")
    x.check(out.get_coord("distance") == p.get_coord("distance"), "other dimension")
    x.check("side" in out.coords.coord_map and [int(v) for v in out.get_array("side")] == [8, 4], "coordinates of the other dimension")
    x.check(out.attrs.tag == "one" and out.attrs.data_units == p.attrs.data_units, "attributes")


@scenario(SCENARIOS, split={"kind": 4, "form": 4, "axis": 2})
def decimated(x):
    """decimate keeps every k-th sample from the first one with its coordinate value."""
    kind, form, axis = KINDS[x.small("kind", 0, 3)], x.small("form", 0, 3), x.small("axis", 0, 1)
    n = x.small("n", 2, 5) if form < 2 else 4
    k = x.small("k", 1, 6)
    units = None if kind in ("dt", "td") else "ft"
    if form < 2:
        step = step_of(kind, 1)
        coord = range_coord(x, "a", kind, n, -step if form else step, units=units)
    else:
        vals = mono_values(x, "a", kind, n)
        coord = get_coord(data=x.arr(vals[1:] + vals[:1] if form == 3 else vals), units=units)
    data = [[x.flt(f"c{i}_{j}", -500, 500, 4) for j in range(2)] for i in range(n)]
    p = build(x, coord, data, axis, extra={"near": ("time", np.arange(n)), "both": (("time", "distance"), np.arange(2 * n).reshape(n, 2))})
    copy = bool(x.small("copy", 0, 1))
    out = p.decimate(time=k, filter_type=None, copy=copy)
    keep = list(range(0, n, k))
    others_kept(x, p, out)
    vals = values_list(coord)
    c = out.get_coord("time")
    x.check(len(c) == len(keep), "number of samples")
    x.check(out.shape[axis] == len(keep) and out.shape[1 - axis] == 2, "shape")
    if len(c) == len(keep):
        same_values(x, values_list(c), [vals[i] for i in keep], "samples")
        same_values(x, [at(out, i, j) for i in range(len(keep)) for j in range(2)], [data[i][j] for i in keep for j in range(2)], "cells")
    x.check(c.units == coord.units, "units")
    if form < 2 and len(keep) > 1:
        x.check(c.evenly_sampled and c.step == coord.step * k, "step")
    if "near" in out.coords.coord_map:
        x.check([int(v) for v in out.get_array("near")] == keep, "attached coordinate, if kept")
    if "both" in out.coords.coord_map:
        x.check([[int(v) for v in r] for r in out.get_array("both")] == [[2 * i, 2 * i + 1] for i in keep], "attached 2-D coordinate, if kept")


OFFSETS = {"even": (0, 4, 8, 12), "even desc": (0, -4, -8, -12), "uneven": (0, 4, 6, 14), "unsorted": (6, 0, 14, 4)}


def source(x, form, kind):
    """Coordinate, its first value and the offsets of its samples."""
    offs = OFFSETS[form]
    # recent times are large numbers of ns
    start = val(x, "a", kind, *((15 * 10**17, 16 * 10**17) if kind == "dt" else ()))
    vals = [start + (np.timedelta64(o * UNIT, "ns") if kind == "dt" else o / 8) for o in offs]
    if form.startswith("even"):
        step = vals[1] - vals[0]
        coord = get_coord(start=start, step=np.timedelta64(offs[1] * UNIT, "ns") if kind == "dt" else offs[1] / 8, stop=start + step * 4, units=None if kind == "dt" else "ft")
    else:
        coord = get_coord(data=x.arr(vals), units=None if kind == "dt" else "ft")
    return coord, start, [o / 8 for o in offs]


def line(t, lines, offs):
    """Linear interpolation (or extrapolation from the outermost pair) at offset t; the comparisons decide the pair."""
    order = sorted(range(len(offs)), key=lambda i: offs[i])
    k = 1
    while k < len(order) - 1 and bool(t > offs[order[k]]):
        k += 1
    a, b = order[k - 1], order[k]
    w = (t - offs[a]) / (offs[b] - offs[a])
    return [lines[a][j] + (lines[b][j] - lines[a][j]) * w for j in range(2)]


@scenario(SCENARIOS, split={"form": 4, "kind": 2, "axis": 2, "where": 4})
def interpolated(x):
    """interpolate gives the straight line between the neighbouring samples at each requested value, for any cell values."""
    form, kind, axis = list(OFFSETS)[x.small("form", 0, 3)], ("dt", "flt")[x.small("kind", 0, 1)], x.small("axis", 0, 1)
    at_ = ((0, 2, 3), (1, 5, 9, 13), (-8, 24), (12,))[x.small("where", 0, 3)]
    coord, start, offs = source(x, form, kind)
    data = [[x.flt(f"c{i}_{j}", -500, 500, 4) for j in range(2)] for i in range(4)]
    p = build(x, coord, data, axis)
    base = coord.values[0]
    sign = -1 if form == "even desc" else 1
    new = [start + (np.timedelta64(sign * o * UNIT, "ns") if kind == "dt" else sign * o / 8) for o in at_]
    out = p.interpolate(time=x.arr(new))
    others_kept(x, p, out)
    x.check(out.shape[axis] == len(at_), "number of samples")
    same_values(x, values_list(out.get_coord("time")), new, "requested values")
    x.check(out.get_coord("time").units == coord.units, "units")
    for i, o in enumerate(at_):
        want = line(sign * o / 8, data, offs)
        for j in range(2):
            x.check(close(x, at(out, i, j), want[j]), "value on the line")


@scenario(SCENARIOS, split={"form": 4, "kind": 2, "axis": 2})
def curved(x):
    """The other kinds of interpolation weigh the samples as scipy does for the same spacing."""
    form, kind, axis = list(OFFSETS)[x.small("form", 0, 3)], ("dt", "flt")[x.small("kind", 0, 1)], x.small("axis", 0, 1)
    at_ = ((0, 2, 3, 13), (7, 1, 30))[x.small("where", 0, 1)]
    how = x.choice("how", ("nearest", "quadratic", "cubic", "linear", 1, 2, 3))
    coord, start, offs = source(x, form, kind)
    data = [[x.flt(f"c{i}_{j}", -500, 500, 4) for j in range(2)] for i in range(4)]
    p = build(x, coord, data, axis)
    sign = -1 if form == "even desc" else 1
    new = [start + (np.timedelta64(sign * o * UNIT, "ns") if kind == "dt" else sign * o / 8) for o in at_]
    out = p.interpolate(time=x.arr(new), kind=how)
    others_kept(x, p, out)
    same_values(x, values_list(out.get_coord("time")), new, "requested values")
    w = interp1d([float(o) for o in offs], np.eye(4), axis=0, kind=how, fill_value="extrapolate")([sign * o / 8 for o in at_])
    for i in range(len(at_)):
        for j in range(2):
            x.check(close(x, at(out, i, j), sum(float(w[i, k]) * data[k][j] for k in range(4)), 1e-6), "weighted samples")


@scenario(SCENARIOS, split={"form": 4, "kind": 2})
def anywhere(x):
    """At any position the result lies on the line between its neighbours."""
    form, kind = list(OFFSETS)[x.small("form", 0, 3)], ("dt", "flt")[x.small("kind", 0, 1)]
    coord, start, offs = source(x, form, kind)
    data = [[float(i * i - 3 * i), float(5 * i)] for i in (0, 3, 4, 9)]
    p = build(x, coord, data, x.small("axis", 0, 1))
    d = x.td("t", -32 * UNIT, 32 * UNIT) if kind == "dt" else x.flt("t", -4, 4, 64)
    out = p.interpolate(time=x.arr([start + d]))
    t = d / np.timedelta64(8 * UNIT, "ns") if kind == "dt" else d
    want = line(t, data, offs)
    x.cover("inside", x.And(t > min(offs), t < max(offs)))
    x.cover("outside", x.Or(t < min(offs), t > max(offs)))
    x.cover("on a sample", x.Or(*[t == o for o in offs]))
    x.check(out.get_coord("time").values[0] == start + d, "requested value")
    for j in range(2):
        x.check(close(x, at(out, 0, j), want[j], 1e-6), "value on the line")


@scenario(SCENARIOS, split={"form": 3})
def snapped(x):
    """Without values, the new samples are evenly spaced over the same extent."""
    form = list(OFFSETS)[x.small("form", 0, 2)]
    coord, start, offs = source(x, form, "flt")
    data = [[x.flt(f"c{i}_{j}", -500, 500, 4) for j in range(2)] for i in range(4)]
    p = build(x, coord, data, x.small("axis", 0, 1))
    out = p.interpolate(time=None)
    others_kept(x, p, out)
    c = out.get_coord("time")
    x.check(len(c) == 4 and c.evenly_sampled, "evenly sampled, same length")
    vals = values_list(c)
    for i in range(4):
        o = offs[0] + (offs[3] - offs[0]) * i / 3
        x.check(close(x, vals[i], start + o), "evenly spaced over the extent")
        want = line(o, data, offs)
        for j in range(2):
            x.check(close(x, at(out, i, j), want[j], 1e-6), "value on the line")
