"""C06: locating a value gives the first sample at or after it; durations convert to sample counts by ceiling."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.exceptions import CoordError, ParameterError
from sx.harness import scenario

from .common import KINDS, delta, mono_values, range_coord, step_of, val, values_list, zero_of

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "ascending coordinates of 1..4 samples, evenly sampled (steps from a fixed list per kind) or uneven; any queried value; scalars and arrays of 2; "
    "relative offsets; durations 0..20 steps"
)
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats"]
COVERS = ["exact", "between", "oob"]


def make(x, kind, form, n, k=1):
    if form == 0:
        return range_coord(x, "start", kind, n, step_of(kind, k))
    return get_coord(data=x.arr(mono_values(x, "v", kind, n)))


def is_next(x, vals, q, i):
    """i is the first position whose value is >= q."""
    return x.And(vals[i] >= q, *[vals[j] < q for j in range(i)])


@scenario(SCENARIOS, split={"kind": 4, "form": 2})
def next_index(x):
    kind = x.choice("kind", KINDS)
    form = x.small("form", 0, 1)
    n = x.small("n", 1, 4) if form == 0 else 3
    coord = make(x, kind, form, n)
    vals = values_list(coord)
    q = x.flt("q", -4096, 4096, 2**16) if kind == "flt" else val(x, "q", kind)
    try:
        i = coord.get_next_index(q)
    except ValueError:
        x.cover("oob")
        x.check(x.Or(q < vals[0], q > vals[-1]), "refused only when outside the coordinate")
        return
    x.check(x.And(q >= vals[0], q <= vals[-1]), "values outside the coordinate are refused")
    i = int(i)
    x.check(0 <= i < n, "index in bounds")
    x.check(is_next(x, vals, q, i), "first sample at or after the value")
    x.cover("exact", vals[i] == q)
    x.cover("between", vals[i] > q)


@scenario(SCENARIOS, split={"kind": 4, "form": 2})
def next_index_array(x):
    kind = x.choice("kind", KINDS)
    form = x.small("form", 0, 1)
    coord = make(x, kind, form, 3)
    vals = values_list(coord)
    q = [val(x, "q0", kind), val(x, "q1", kind)]
    x.assume(x.And(*[x.And(v >= vals[0], v <= vals[-1]) for v in q]))
    out = coord.get_next_index(x.arr(q))
    x.check(len(out) == 2, "one index per value")
    for k in range(2):
        i = int(out[k])
        x.check(0 <= i < 3, "index in bounds")
        x.check(is_next(x, vals, q[k], i), "first sample at or after each value")


@scenario(SCENARIOS, split={"kind": 4, "form": 2})
def next_index_anywhere(x):
    """Values outside may be allowed; the others keep their index and the values given stay as they are."""
    kind = x.choice("kind", KINDS)
    form = x.small("form", 0, 1)
    coord = make(x, kind, form, 3)
    vals = values_list(coord)
    q = [val(x, "q0", kind), val(x, "q1", kind)]
    x.assume(x.And(q[0] >= vals[0], q[0] <= vals[-1]))
    given = x.arr(q)
    out = coord.get_next_index(given, allow_out_of_bounds=True)
    x.check(len(out) == 2, "one index per value")
    x.check(x.And(given[0] == q[0], given[1] == q[1]), "the values given stay as they are")
    i = int(out[0])
    x.check(0 <= i < 3, "index in bounds")
    x.check(is_next(x, vals, q[0], i), "first sample at or after the value inside")
    if q[1] < vals[0]:
        x.check(out[1] <= 0, "values before the start")
    elif q[1] > vals[-1]:
        x.check(out[1] >= 2, "values after the end")
    else:
        x.check(is_next(x, vals, q[1], int(out[1])), "first sample at or after the other value")


@scenario(SCENARIOS, split={"kind": 4, "form": 2})
def next_index_relative(x):
    kind = x.choice("kind", KINDS)
    form = x.small("form", 0, 1)
    coord = make(x, kind, form, 3)
    vals = values_list(coord)
    span = 10**10 if kind in ("dt", "td") else 200
    o = delta(x, "o", kind, -span, span)
    zero = zero_of(kind)
    q = (vals[0] + o) if bool(o >= zero) else (vals[-1] + o)
    x.assume(x.And(q >= vals[0], q <= vals[-1]))
    i = int(coord.get_next_index(o, relative=True))
    x.check(is_next(x, vals, q, i), "relative values count from the start, negative ones from the end")


@scenario(SCENARIOS)
def next_index_samples(x):
    n = x.small("n", 1, 4)
    coord = range_coord(x, "start", "dt", n, step_of("dt", 1))
    i = x.int("i", -6, 6)
    try:
        out = coord.get_next_index(i, samples=True)
    except ValueError:
        x.check(x.Or(i < -n, i >= n), "refused only when outside")
        return
    x.check(x.And(i >= -n, i < n), "outside samples are refused")
    x.check(out == x.ite(i < 0, i + n, i), "samples map to themselves, negative ones from the end")


@scenario(SCENARIOS, split={"kind": 4, "step": 3})
def sample_count(x):
    """The number of steps covering a duration, whichever way the coordinate runs."""
    kind = x.choice("kind", KINDS)
    k = x.small("step", 0, 2)
    n = x.small("n", 1, 4)
    step = step_of(kind, k)
    coord = range_coord(x, "start", kind, n, -step if x.bool("desc") else step)
    if kind in ("dt", "td"):
        dur = x.td("dur", 0, 20 * int(step / np.timedelta64(1, "ns")))
    else:
        dur = x.flt("dur", 0, 12, 2**16) if kind == "flt" else delta(x, "dur", kind, 0, 100)
    c = coord.get_sample_count(dur)
    x.check(x.And(step * c >= dur, step * (c - 1) < dur), "smallest count of steps covering the duration")
    x.check(isinstance(c, int), "count is an int")
    too_big = x.raises(lambda: coord.get_sample_count(dur, enforce_lt_coord=True), ParameterError)
    x.check(x.Iff(too_big, c > n), "windows longer than the coordinate are refused on request")
    x.check(coord.get_sample_count(3, samples=True) == 3, "sample counts pass through")


@scenario(SCENARIOS, split={"kind": 2})
def refusals(x):
    """Uneven coordinates have no sample count; unsorted ones no next index."""
    kind = x.choice("kind", ("dt", "flt"))
    vals = mono_values(x, "v", kind, 3)
    coord = get_coord(data=x.arr(vals))
    x.check(x.raises(lambda: coord.get_sample_count(3, samples=True), CoordError), "uneven: no sample count")
    bad = get_coord(data=x.arr([vals[1], vals[0], vals[2]]))
    x.check(x.raises(lambda: bad.get_next_index(vals[0]), CoordError), "unsorted: no next index")
    down = get_coord(data=x.arr(vals[::-1]))
    x.check(x.raises(lambda: down.get_next_index(vals[0]), CoordError), "descending: no next index")
