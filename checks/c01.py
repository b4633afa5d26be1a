"""C01: range selection keeps exactly the samples inside the requested range."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from sx.harness import scenario

from .common import (
    KINDS, STEPS, free_values, in_range, index_list, labelled, mono_values, range_coord, same_values, step_of, val, values_list,
)

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "coordinates of 1..5 samples (thorough 1..7), ascending, descending, unsorted, repeated values; datetime64/timedelta64 ns, "
    "int and float (multiples of 1/8); any start and bounds within +-1e18 ns (2e18 for datetimes), +-1e6, +-4096; steps from a fixed list per kind; "
    "each bound finite, open (None / ...) on either side; one patch dimension or two at once"
)
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats", "lower bound <= upper bound"]
COVERS = ["empty", "full", "partial"]


def bounds(x, kind, allow_open=True):
    """A requested range: both ends, one end or none."""
    mode = x.small("open", 0, 3 if allow_open else 0)
    lo = val(x, "lo", kind) if mode in (0, 1) else (None if mode == 2 else ...)
    hi = val(x, "hi", kind) if mode in (0, 2) else (None if mode == 1 else ...)
    if mode == 0:
        x.assume(lo <= hi)
    return lo, hi


def verify(x, vals, lo, hi, inds, new, what):
    n = len(vals)
    x.check(x.And(*[x.Iff(i in inds, in_range(x, vals[i], lo, hi)) for i in range(n)]), f"{what}: sample kept iff inside the range")
    x.check(inds == sorted(set(inds)), f"{what}: order kept, no repeats")
    x.check(len(new) == len(inds), f"{what}: coordinate length matches indexer")
    same_values(x, values_list(new), [vals[i] for i in inds], f"{what}: selected coordinate values")
    x.cover("empty", len(inds) == 0)
    x.cover("full", len(inds) == n)
    x.cover("partial", 0 < len(inds) < n)


@scenario(SCENARIOS, split={"kind": 4, "desc": 2})
def even(x):
    """Evenly sampled coordinates, either direction."""
    kind = x.choice("kind", KINDS)
    desc = x.bool("desc")
    n = x.small("n", 1, 6 if x.thorough else 4)
    k = x.small("step", 0, 2 if x.thorough else 1)
    step = step_of(kind, k)
    coord = range_coord(x, "start", kind, n, -step if desc else step)
    lo, hi = bounds(x, kind)
    new, ind = coord.select((lo, hi))
    verify(x, values_list(coord), lo, hi, index_list(n, ind), new, "even")


@scenario(SCENARIOS, split={"kind": 4, "desc": 2})
def monotonic(x):
    """Sorted coordinates with arbitrary gaps."""
    kind = x.choice("kind", KINDS)
    desc = x.bool("desc")
    n = x.small("n", 3, 4 if x.thorough else 3)
    coord = get_coord(data=x.arr(mono_values(x, "v", kind, n, desc)))
    lo, hi = bounds(x, kind)
    new, ind = coord.select((lo, hi))
    verify(x, values_list(coord), lo, hi, index_list(n, ind), new, "monotonic")


@scenario(SCENARIOS, split={"kind": 4, "open": 4})
def unsorted(x):
    """Coordinates in any order, repeats allowed."""
    kind = x.choice("kind", KINDS)
    n = 3
    a, b, c = v = free_values(x, "v", kind, n)
    x.assume(x.Not(x.Or(x.And(a < b, b < c), x.And(a > b, b > c))))
    coord = get_coord(data=x.arr(v))
    lo, hi = bounds(x, kind)
    new, ind = coord.select((lo, hi))
    verify(x, values_list(coord), lo, hi, index_list(n, ind), new, "any order")


@scenario(SCENARIOS, split={"kind": 4, "dir": 3})
def patch_rows(x):
    """Patch.select keeps the data rows that belong to the kept samples."""
    kind = x.choice("kind", KINDS)
    form = x.small("dir", 0, 2)
    n = 3
    if form < 2:
        step = step_of(kind, 1)
        coord = range_coord(x, "start", kind, n, -step if form else step)
    else:
        coord = get_coord(data=x.arr(mono_values(x, "v", kind, n)))
    other = get_coord(start=0, stop=4, step=2)
    axis = x.small("axis", 0, 1)
    dims = ("a", "b") if axis == 0 else ("b", "a")
    shape = (n, 2) if axis == 0 else (2, n)
    data = labelled(shape)
    patch = dc.Patch(data=data, coords={"a": coord, "b": other}, dims=dims)
    lo, hi = bounds(x, kind)
    out = patch.select(a=(lo, hi))
    vals = values_list(coord)
    keep = [in_range(x, v, lo, hi) for v in vals]
    got = np.moveaxis(out.data, axis, 0)
    src = np.moveaxis(data, axis, 0)
    new = values_list(out.get_coord("a"))
    x.check(len(new) == got.shape[0], "patch: data length equals coordinate length")
    x.check(x.count(keep) == len(new), "patch: number of kept samples")
    for j in range(len(new)):
        for i in range(n):
            same = got.shape[1] == src.shape[1] and bool(np.all(got[j] == src[i]))
            if same:
                x.check(x.And(keep[i], new[j] == vals[i]), "patch: kept row belongs to an in-range sample and its coordinate")
                break
        else:
            x.fail("patch: data row not in the source")
    x.check(out.dims == dims, "patch: dims kept")
    same_values(x, values_list(out.get_coord("b")), [0, 2], "patch: other coordinate kept")
    x.check(not patch.data.shape != shape, "patch: source unchanged")
