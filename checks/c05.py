"""C05: editing a coordinate's limits, step, length or values changes only what was asked."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.units import get_quantity
from sx.harness import scenario

from .common import KINDS, delta, free_values, mono_values, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "coordinates of 1..4 samples (evenly sampled with any step in both directions, uneven, unsorted); any new limit in range; any positive new step; "
    "new length 0..7"
)
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats"]
COVERS = ["longer", "shorter", "zero"]
UNITS = {"dt": "s", "td": "s", "int": "m", "flt": "m"}


def make_even(x, kind, desc, n):
    big = 10**13 if kind in ("dt", "td") else 800
    start = val(x, "start", kind)
    step = delta(x, "step", kind, 1, big)
    step = -step if desc else step
    return get_coord(start=start, stop=start + step * n, step=step, units=UNITS[kind]), step


@scenario(SCENARIOS, split={"kind": 4, "desc": 2})
def shift_even(x):
    """update_limits(min=) / (max=) translate the samples."""
    kind = x.choice("kind", KINDS)
    desc = x.bool("desc")
    n = x.small("n", 1, 4)
    coord, step = make_even(x, kind, desc, n)
    new = val(x, "new", kind)
    vals = values_list(coord)
    which = x.small("which", 0, 3)
    if which == 0:
        out = coord.update_limits(min=new)
        # min names the start of the coordinate for evenly sampled coordinates
        x.assume(not desc)
        shift = new - coord.min()
    elif which == 1:
        out = coord.update_limits(max=new)
        x.assume(not desc)
        shift = new - coord.max()
    elif which == 2:
        out = coord.update(min=new)
        x.assume(not desc)
        shift = new - coord.min()
    else:
        out = coord.update(max=new)
        x.assume(not desc)
        shift = new - coord.max()
    same_values(x, values_list(out), [v + shift for v in vals], "every sample moved by the same amount")
    x.check(out.step == step, "step kept")
    x.check(out.units == coord.units, "units kept")
    x.check(x.And(coord.min() == vals[0], coord.max() == vals[-1]), "original untouched")


@scenario(SCENARIOS, split={"kind": 4, "form": 3})
def shift_array(x):
    """update_limits on unevenly sampled coordinates translates the samples."""
    kind = x.choice("kind", KINDS)
    form = x.small("form", 0, 2)
    if form == 2:
        a, b, c = mono_values(x, "v", kind, 3)
        vals = [b, a, c]
    else:
        vals = mono_values(x, "v", kind, 3, desc=form == 1)
    coord = get_coord(data=x.arr(vals), units=UNITS[kind])
    new = val(x, "new", kind)
    if x.bool("use_max"):
        out = coord.update_limits(max=new)
        shift = new - coord.max()
        x.check(out.max() == new, "new max")
    else:
        out = coord.update_limits(min=new)
        shift = new - coord.min()
        x.check(out.min() == new, "new min")
    same_values(x, values_list(out), [v + shift for v in vals], "every sample moved by the same amount")
    x.check(out.units == coord.units, "units kept")


@scenario(SCENARIOS, split={"kind": 4, "desc": 2})
def new_step(x):
    """update_limits(step=) keeps the first sample and the length."""
    kind = x.choice("kind", KINDS)
    desc = x.bool("desc")
    n = x.small("n", 1, 4)
    coord, step = make_even(x, kind, desc, n)
    big = 10**13 if kind in ("dt", "td") else 800
    ns = delta(x, "ns", kind, 1, big)
    ns = -ns if x.bool("neg") else ns
    out = coord.update_limits(step=ns) if x.bool("how") else coord.update(step=ns)
    start = values_list(coord)[0]
    same_values(x, values_list(out), [start + ns * i for i in range(n)], "new spacing from the same first sample")
    x.check(out.units == coord.units, "units kept")


@scenario(SCENARIOS, split={"kind": 4, "which": 5})
def limit_and_step(x):
    """A new limit together with a new step: length kept, both requests honoured."""
    kind = x.choice("kind", KINDS)
    n = x.small("n", 1, 4)
    coord, step = make_even(x, kind, False, n)
    big = 10**13 if kind in ("dt", "td") else 800
    ns = delta(x, "ns", kind, 1, big)
    new = val(x, "new", kind)
    which = x.small("which", 0, 4)
    if which in (0, 3):
        out = coord.update_limits(min=new, step=ns) if which == 0 else coord.update(min=new, step=ns)
        want = [new + ns * i for i in range(n)]
    elif which == 1:
        out = coord.update_limits(max=new, step=ns)
        want = [new - ns * (n - 1 - i) for i in range(n)]
    elif which == 2:
        # on uneven coordinates only one request at a time is allowed
        bad = get_coord(data=x.arr(mono_values(x, "v", kind, 3)))
        x.check(x.raises(lambda: bad.update_limits(min=new, step=ns), ValueError), "uneven: one change at a time")
        return
    else:
        x.check(x.raises(lambda: coord.update_limits(min=new, max=new + step, step=ns), ValueError), "at most two of min, max, step")
        return
    same_values(x, values_list(out), want, "new limit and new spacing, same length")
    x.check(out.units == coord.units, "units kept")


@scenario(SCENARIOS, split={"kind": 4, "desc": 2})
def length(x):
    """change_length keeps start and step and yields the requested length."""
    kind = x.choice("kind", KINDS)
    desc = x.bool("desc")
    n = x.small("n", 1, 4)
    coord, step = make_even(x, kind, desc, n)
    k = x.small("k", 0, 7)
    out = coord.change_length(k)
    x.check(len(out) == k, "requested length")
    start = values_list(coord)[0]
    x.cover("longer", k > n)
    x.cover("shorter", k < n)
    x.cover("zero", k == 0)
    same_values(x, values_list(out), [start + step * i for i in range(k)], "start and step kept")
    if k:
        x.check(out.units == coord.units, "units kept")


@scenario(SCENARIOS, split={"kind": 4, "form": 3})
def new_data(x):
    """update(values=...) replaces the values; units are kept by new()."""
    kind = x.choice("kind", KINDS)
    form = x.small("form", 0, 2)
    if form == 0:
        coord, _ = make_even(x, kind, False, 3)
    else:
        coord = get_coord(data=x.arr(mono_values(x, "v", kind, 3, desc=form == 2)), units=UNITS[kind])
    vals = mono_values(x, "w", kind, 3)
    out = coord.new(values=x.arr(vals))
    x.check(out.units == coord.units, "units kept")
    same_values(x, values_list(out), vals, "values replaced")
    out2 = coord.update_data(x.arr(vals))
    same_values(x, values_list(out2), vals, "values replaced by update_data")


@scenario(SCENARIOS, split={"kind": 4, "form": 3})
def snap(x):
    """snap() gives an even coordinate with the same ends, length and direction."""
    kind = x.choice("kind", ("dt", "td", "flt", "int"))
    form = x.small("form", 0, 2)
    n = 3
    if form == 2:
        a, b, c = mono_values(x, "v", kind, 3)
        vals = [b, a, c]
    else:
        vals = mono_values(x, "v", kind, n, desc=form == 1)
    coord = get_coord(data=x.arr(vals), units=UNITS[kind])
    lo, hi = coord.min(), coord.max()
    out = coord.snap()
    x.check(out.evenly_sampled, "even")
    x.check(len(out) == n, "length kept")
    x.check(out.units == coord.units, "units kept")
    got = values_list(out)
    # time steps are whole nanoseconds: the far end may be off by rounding
    tol = np.timedelta64(n, "ns") if kind in ("dt", "td") else 0
    first, last = (hi, lo) if form == 1 else (lo, hi)
    x.check(got[0] == first, "first sample is the first end")
    d = got[-1] - last
    x.check(x.And(d <= tol, -d <= tol), "last sample is the other end")
    x.check(out.reverse_sorted == (form == 1), "direction kept")


@scenario(SCENARIOS, split={"kind": 2})
def units_only(x):
    """set_units changes the label, never the values."""
    kind = x.choice("kind", ("int", "flt"))
    form = x.small("form", 0, 1)
    if form == 0:
        coord, _ = make_even(x, kind, x.bool("desc"), 3)
    else:
        coord = get_coord(data=x.arr(mono_values(x, "v", kind, 3)), units=UNITS[kind])
    vals = values_list(coord)
    out = coord.set_units("ft")
    x.check(out.units == get_quantity("ft"), "units set")
    same_values(x, values_list(out), vals, "values kept")
    none = coord.set_units(None)
    x.check(none.units is None, "units removed")
    same_values(x, values_list(none), vals, "values kept")
