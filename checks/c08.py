"""C08: aggregations reduce exactly the requested dimensions."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.exceptions import ParameterError
from sx.harness import scenario

from .common import free_values, labelled, mono_values, range_coord, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "2-D patches of 3 x 2 with arbitrary float cells (any of them NaN), reduction of either dimension, of both, or of all; all named reducers except "
    "std on arbitrary data; coordinate reduction by every mode on even (both ways), uneven and unsorted datetime/float coordinates of 1..3 samples"
)
ASSUMPTIONS = ["floats are exact rationals (mean and sum compared without rounding); path witnesses are replayed on real floats"]
COVERS = []
NAN = float("nan")


def cells(x, n, m, nan=()):
    """n x m symbolic data; positions in nan hold NaN."""
    return [[NAN if (i, j) in nan else x.flt(f"d{i}{j}", -1000, 1000, 4) for j in range(m)] for i in range(n)]


def grid(x, rows):
    return x.arr(rows) if x.symbolic else np.array([[float(v) for v in r] for r in rows])


def is_nan(v):
    return isinstance(v, float) and v != v


def total(vals):
    acc = 0
    for v in vals:
        acc = acc + v
    return acc


def reduce_ref(x, method, vals):
    """Predicate: out is the reduction of vals (NaN ignored except for first, last)."""
    good = [v for v in vals if not is_nan(v)]
    if method == "first":
        return lambda o: o == vals[0] if not is_nan(vals[0]) else o != o
    if method == "last":
        return lambda o: o == vals[-1] if not is_nan(vals[-1]) else o != o
    if method == "sum":
        return lambda o: o == total(good)
    if not good:
        return lambda o: o != o
    if method == "mean":
        return lambda o: x.And(o * len(good) - total(good) <= 1e-6, o * len(good) - total(good) >= -1e-6)
    if method == "min":
        return lambda o: x.And(x.Or(*[o == v for v in good]), *[o <= v for v in good])
    if method == "max":
        return lambda o: x.And(x.Or(*[o == v for v in good]), *[o >= v for v in good])
    if method == "median":
        k = len(good)

        def med(o):
            lo = x.count([v < o for v in good])
            hi = x.count([v > o for v in good])
            return x.And(lo * 2 <= k, hi * 2 <= k)

        return med
    raise AssertionError(method)


METHODS = ("mean", "median", "min", "max", "sum", "first", "last")


@scenario(SCENARIOS, split={"method": 7, "dim": 2})
def one_dim(x):
    """Each method against its definition; the other dimension keeps its coordinate."""
    method = x.choice("method", METHODS)
    dim = x.choice("dim", ("a", "b"))
    n, m = 3, 2
    nan = [(), ((0, 0),), ((1, 1),), ((0, 1), (1, 1), (2, 1)), ((2, 0), (2, 1))][x.small("nan", 0, 4)]
    rows = cells(x, n, m, nan)
    ca = range_coord(x, "a", "dt", n, step_of("dt", 1))
    cb = get_coord(data=x.arr(free_values(x, "b", "flt", m)))
    patch = dc.Patch(data=grid(x, rows), coords={"a": ca, "b": cb, "q": ("a", np.array([4, 2, 9]))}, dims=("a", "b"))
    reduce = x.choice("reduce", ("empty", "squeeze"))
    out = getattr(patch, method)(dim=dim, dim_reduce=reduce) if x.bool("named") else patch.aggregate(dim=dim, method=method, dim_reduce=reduce)
    lines = [[rows[i][j] for i in range(n)] for j in range(m)] if dim == "a" else rows
    keep, kc = ("b", cb) if dim == "a" else ("a", ca)
    if reduce == "squeeze":
        x.check(out.dims == (keep,), "squeezed dimension is gone")
        x.check(dim not in out.coords.coord_map, "its coordinate too")
        got = [out.data[i] for i in range(len(lines))]
    else:
        x.check(out.dims == ("a", "b"), "dimensions kept")
        x.check(out.data.shape == ((1, m) if dim == "a" else (n, 1)), "reduced dimension has length 1")
        x.check(len(out.get_coord(dim)) == 1, "and its coordinate")
        got = [out.data[0, i] if dim == "a" else out.data[i, 0] for i in range(len(lines))]
    x.check(x.And(*[reduce_ref(x, method, ln)(g) for ln, g in zip(lines, got)]), f"{method} of every line")
    same_values(x, values_list(out.get_coord(keep)), values_list(kc), "the other coordinate is kept")
    if dim == "b":
        x.check([int(v) for v in out.get_array("q")] == [4, 2, 9], "coordinates of the other dimension are kept")
    x.check(patch.data.shape == (n, m), "source untouched")


@scenario(SCENARIOS, split={"method": 6})
def all_dims(x):
    """dim=None reduces every dimension, one after another."""
    method = x.choice("method", ("mean", "min", "max", "sum", "first", "last"))
    rows = cells(x, 2, 2)
    patch = dc.Patch(data=grid(x, rows), coords={"a": np.array([0, 1]), "b": np.array([5.0, 7.0])}, dims=("a", "b"))
    dims = x.choice("dims", (None, ("a", "b"), ("b", "a")))
    out = patch.aggregate(dim=dims, method=method)
    flat = [v for r in rows for v in r]
    x.check(out.data.shape == (1, 1), "one cell left")
    x.check(out.dims == ("a", "b"), "dimensions kept")
    x.check(reduce_ref(x, method, flat)(out.data[0, 0]), f"{method} over everything")
    x.check(x.raises(lambda: patch.aggregate(dim=dims, method=method, dim_reduce="squeeze"), ParameterError), "squeezing all dimensions is refused")


@scenario(SCENARIOS, split={"kind": 3, "form": 5})
def coordinate(x):
    """dim_reduce names how the reduced dimension's coordinate is computed."""
    kind = x.choice("kind", ("dt", "td", "flt"))
    form = x.small("form", 0, 4)
    n = 3
    step = step_of(kind, 0)
    if form < 2:
        ca = range_coord(x, "a", kind, n, -step if form else step)
    else:
        v = mono_values(x, "a", kind, n, desc=form == 3)
        ca = get_coord(data=x.arr([v[1], v[0], v[2]] if form == 4 else v))
    vals = values_list(ca)
    how = x.choice("how", ("min", "max", "first", "last", "mean", "empty"))
    patch = dc.Patch(data=labelled((n, 2)), coords={"a": ca, "b": np.array([5.0, 7.0])}, dims=("a", "b"))
    out = patch.aggregate("a", method="sum", dim_reduce=how)
    got = out.get_coord("a")
    x.check(len(got) == 1, "one coordinate value left")
    x.check([float(v) for v in np.asarray(out.data).ravel()] == [6.0, 9.0], "data reduced")
    x.check(out.get_coord("b") == patch.get_coord("b"), "the other coordinate is kept")
    if how == "empty":
        x.check(got._partial, "no value")
        return
    g = got.values[0]
    if how in ("first", "last"):
        x.check(g == vals[0 if how == "first" else -1], "first or last coordinate value")
    elif how == "mean":
        zero = vals[0]
        off = total([v - zero for v in vals[1:]]) if kind != "flt" else None
        if kind == "flt":
            x.check(x.And(g * 3 - total(vals) < 1e-6, g * 3 - total(vals) > -1e-6), "mean coordinate value")
        else:
            err = (g - zero) * 3 - off
            tol = np.timedelta64(2000, "ns")
            x.check(x.And(err <= tol, err >= -tol), "mean coordinate value")
    else:
        cmp = (lambda a, b: a <= b) if how == "min" else (lambda a, b: a >= b)
        x.check(x.And(x.Or(*[g == v for v in vals]), *[cmp(g, v) for v in vals]), f"{how} coordinate value")
