"""C03: a coordinate built from values reports those values, their order and their extent."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.units import get_quantity
from sx.harness import scenario

from .common import F_DEN, KINDS, delta, free_values, mono_values, same_values, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "1..5 values (thorough 1..6): exactly even with any step, uneven by more than 1/64, two-valued, unordered and repeated; "
    "datetime64/timedelta64 ns, int, float (multiples of 1/8)"
)
ASSUMPTIONS = [
    "floats are exact rationals; path witnesses are replayed on real floats",
    "spacings either equal or different by more than 1/64 (dascore snaps spacings within 0.1% of each other)",
]
COVERS = ["even", "mono", "rev", "unsorted"]

UNITS = {"dt": "s", "td": "s", "int": "m", "flt": "ft"}


def build(x, kind, vals):
    """Make the coordinate through one of the public spellings."""
    how = x.small("how", 0, 2)
    arr = x.arr(vals)
    if how == 0:
        return get_coord(data=arr, units=UNITS[kind])
    if how == 1:
        return get_coord(values=arr, units=UNITS[kind])
    coord = get_coord(data=arr, units=UNITS[kind])
    return get_coord(data=coord)


def verify(x, kind, coord, vals):
    n = len(vals)
    same_values(x, values_list(coord), vals, "coordinate values are the values it was built from")
    x.check(len(coord) == n and tuple(coord.shape) == (n,), "length")
    lo, hi = coord.min(), coord.max()
    x.check(x.And(*[lo <= v for v in vals], x.Or(*[lo == v for v in vals])), "min is the smallest value")
    x.check(x.And(*[hi >= v for v in vals], x.Or(*[hi == v for v in vals])), "max is the largest value")
    a, b = coord.limits
    x.check(x.And(a == lo, b == hi), "limits are min and max")
    up = x.And(*[vals[i] < vals[i + 1] for i in range(n - 1)])
    down = x.And(*[vals[i] > vals[i + 1] for i in range(n - 1)])
    even = x.And(*[vals[i + 1] - vals[i] == vals[1] - vals[0] for i in range(1, n - 1)])
    if n > 1:
        x.check(x.Implies(up, coord.sorted), "ascending values are reported sorted")
        x.check(x.Implies(down, coord.reverse_sorted), "descending values are reported reverse sorted")
        x.check(x.Implies(coord.sorted, x.And(*[vals[i] <= vals[i + 1] for i in range(n - 1)])), "sorted only when ascending")
        x.check(x.Implies(coord.reverse_sorted, x.And(*[vals[i] >= vals[i + 1] for i in range(n - 1)])), "reverse sorted only when descending")
        x.check(x.Iff(coord.evenly_sampled, x.And(even, x.Or(up, down))), "evenly sampled iff equal non-zero spacing")
        if coord.evenly_sampled:
            x.check(coord.step == vals[1] - vals[0], "step is the spacing")
    x.check(coord.units == get_quantity(UNITS[kind]), "units kept")
    x.check(np.dtype(coord.dtype).kind == {"dt": "M", "td": "m", "int": "i", "flt": "f"}[kind], "dtype kind kept")


@scenario(SCENARIOS, split={"kind": 4, "desc": 2})
def even(x):
    kind = x.choice("kind", KINDS)
    desc = x.bool("desc")
    n = x.small("n", 2, 6 if x.thorough else 5)
    v0 = val(x, "v0", kind)
    big = 10**13 if kind in ("dt", "td") else 800
    step = delta(x, "step", kind, 1, big)
    vals = [(v0 - step * i) if desc else (v0 + step * i) for i in range(n)]
    coord = build(x, kind, vals)
    x.cover("even", coord.evenly_sampled)
    verify(x, kind, coord, vals)


@scenario(SCENARIOS, split={"kind": 4, "desc": 2})
def uneven(x):
    kind = x.choice("kind", KINDS)
    desc = x.bool("desc")
    n = x.small("n", 3, 4 if x.thorough else 3)
    vals = mono_values(x, "v", kind, n, desc)
    coord = build(x, kind, vals)
    x.cover("mono", coord.sorted)
    x.cover("rev", coord.reverse_sorted)
    verify(x, kind, coord, vals)


@scenario(SCENARIOS, split={"kind": 4})
def any_order(x):
    kind = x.choice("kind", KINDS)
    n = x.small("n", 1, 3)
    vals = free_values(x, "v", kind, n)
    if n == 3:
        a, b, c = vals
        x.assume(x.Not(x.Or(x.And(a < b, b < c), x.And(a > b, b > c))))
    coord = build(x, kind, vals)
    x.cover("unsorted", not coord.sorted)
    verify(x, kind, coord, vals)


@scenario(SCENARIOS, split={"kind": 4})
def sort_any(x):
    """sort() returns the same samples in order plus the permutation that does it."""
    kind = x.choice("kind", KINDS)
    rev = x.bool("rev")
    form = x.small("form", 0, 2)
    n = 3
    if form == 2:
        a, b, c = mono_values(x, "v", kind, 3)
        vals = [[b, a, c], [c, a, b], [a, c, b], [b, c, a]][x.small("perm", 0, 3)]
    else:
        vals = mono_values(x, "v", kind, n, desc=bool(form))
    coord = get_coord(data=x.arr(vals))
    new, ind = coord.sort(reverse=rev)
    got = values_list(new)
    x.check(len(got) == n, "sort keeps every sample")
    pos = [int(i) for i in np.arange(n)[ind]]
    x.check(sorted(pos) == list(range(n)), "sort indexer is a permutation")
    same_values(x, got, [vals[i] for i in pos], "sorted values match the permutation")
    for i in range(n - 1):
        x.check(got[i] >= got[i + 1] if rev else got[i] <= got[i + 1], "sorted order")
