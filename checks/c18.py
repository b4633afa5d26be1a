"""C18: numbers given for times are seconds, and conversions keep the instant."""
from __future__ import annotations

import numpy as np
import pandas as pd

import dascore as dc
from dascore.core.coords import get_coord
from dascore.utils.time import get_max_min_times, to_int
from sx.harness import scenario

from .common import index_list, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "seconds within 2**22 of the epoch on a 2**-10 s grid as floats, or any whole seconds; datetimes and timedeltas within 2**52 ns; scalars and arrays, lists and tuples of three with nulls anywhere; "
    "coordinates of 3 to 5 samples and any step from a list"
)
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats", "units other than ns, strings and python datetimes are not covered"]
COVERS = ["before the epoch", "null", "nothing selected"]

N52 = 2**52
NS = 10**9


def secs(x, name):
    """Float seconds for which seconds * 1e9 is a whole number of ns."""
    return x.flt(name, -(2**22), 2**22, 512)


def moment(x, name, kind):
    return x.dt(name, -N52, N52) if kind == "dt" else x.td(name, -N52, N52)


@scenario(SCENARIOS, split={"k": 2, "form": 3})
def number_to_time(x):
    """Seconds become the instant (or duration) that many seconds from the epoch (or zero)."""
    dt = x.small("k", 0, 1) == 0
    form = x.small("form", 0, 2)
    conv = dc.to_datetime64 if dt else dc.to_timedelta64
    base = np.datetime64(0, "ns") if dt else np.timedelta64(0, "ns")
    # whole seconds and ns in separate symbols give the exact expected value
    q = x.npint("q", -(2**30), 2**30)
    f = secs(x, "f")
    x.cover("before the epoch", f < 0)
    if form == 0:
        got_i, got_f = conv(q), conv(f)
        x.check(got_i - base == q * np.timedelta64(NS, "ns"), "whole seconds")
        x.check((got_f - base) / np.timedelta64(1, "ns") == f * NS, "float seconds")
        return
    nul = x.small("nul", 0, 4)
    arr = [secs(x, f"v{i}") for i in range(3)]
    vals = list(arr)
    if nul < 3:
        vals[nul] = (np.nan, np.inf, -np.inf)[nul]
        x.cover("null", True)
    obj = np.array(vals, dtype=np.float64) if form == 1 else tuple(vals)
    got = conv(obj)
    x.check(len(got) == 3, "length")
    for i in range(3):
        if i == nul:
            x.check(bool(pd.isnull(got[i])), "null stays null")
        else:
            x.check((got[i] - base) / np.timedelta64(1, "ns") == arr[i] * NS, "each value")


@scenario(SCENARIOS, split={"k": 2, "form": 2})
def time_to_number(x):
    """Times become seconds (to_float) and nanoseconds (to_int) and come back unchanged."""
    kind = ("dt", "td")[x.small("k", 0, 1)]
    conv = dc.to_datetime64 if kind == "dt" else dc.to_timedelta64
    base = np.datetime64(0, "ns") if kind == "dt" else np.timedelta64(0, "ns")
    ts = [moment(x, f"t{i}", kind) for i in range(3)]
    x.cover("before the epoch", ts[0] < base)
    if x.small("form", 0, 1):
        arr = np.array(ts)
        f, i = dc.to_float(arr), to_int(arr)
        back, again = conv(f), conv(arr)
        x.check(len(f) == len(i) == len(back) == 3, "length")
    else:
        f, i = [dc.to_float(t) for t in ts], [to_int(t) for t in ts]
        back, again = [conv(v) for v in f], [conv(t) for t in ts]
    for k, t in enumerate(ts):
        x.check(f[k] * NS == (t - base) / np.timedelta64(1, "ns"), "seconds")
        x.check(i[k] * np.timedelta64(1, "ns") == t - base, "nanoseconds")
        x.check(back[k] == t, "round trip through seconds")
        x.check(again[k] == t, "a time stays itself")
    x.check(x.Or(ts[0] < ts[1], f[0] >= f[1]), "order is kept")


ABS, REL = 0, 1


@scenario(SCENARIOS, split={"k": 2, "how": 2, "num": 2, "open": 3})
def select_by_numbers(x):
    """Bounds given in seconds select what the same instants (or offsets) select."""
    kind = ("dt", "td")[x.small("k", 0, 1)]
    how, whole, open_ = x.small("how", 0, 1), x.small("num", 0, 1), x.small("open", 0, 2)
    step = np.timedelta64(10**9 + 7, "ns")
    start = moment(x, "t", kind)
    n = 5 if x.thorough else 4
    coord = get_coord(start=start, step=step, stop=start + step * n)
    make = (lambda name: x.npint(name, -(2**22), 2**22)) if whole else (lambda name: secs(x, name))
    lo, hi = make("lo"), make("hi")
    if how == REL:
        x.assume(x.And(lo >= 0, lo <= 2**10, x.Or(hi < 0, hi >= lo)))
    vals = values_list(coord)

    def instant(v):
        if how == ABS:
            return dc.to_datetime64(v) if kind == "dt" else dc.to_timedelta64(v)
        d = dc.to_timedelta64(v)
        return vals[0] + d if bool(v >= 0) else vals[-1] + d

    a, b = instant(lo), instant(hi)
    x.assume(a <= b)
    bounds = [lo, hi]
    if open_:
        bounds[open_ - 1] = (None, ...)[open_ - 1]
    out, ind = coord.select(tuple(bounds), relative=how == REL)
    got = index_list(n, ind)
    for i in range(n):
        inside = x.And(True if open_ == 1 else vals[i] >= a, True if open_ == 2 else vals[i] <= b)
        x.check(inside == (i in got), "samples inside the range of seconds")
    x.check(len(out) == len(got), "length")
    x.cover("nothing selected", not got)


@scenario(SCENARIOS, split={"k": 2, "what": 4})
def other_numbers(x):
    """Seconds given as limits, lookups, durations and spool bounds mean the same as times."""
    kind = ("dt", "td")[x.small("k", 0, 1)]
    what = x.small("what", 0, 3)
    step = np.timedelta64(10**9, "ns")
    start = moment(x, "t", kind)
    coord = get_coord(start=start, step=step, stop=start + step * 4)
    conv = dc.to_datetime64 if kind == "dt" else dc.to_timedelta64
    f = secs(x, "f")
    if what == 0:
        t = conv(f)
        a, b = coord.update_limits(min=f), coord.update_limits(max=f)
        x.check(a.min() == t, "minimum given in seconds")
        x.check(b.max() == t, "maximum given in seconds")
        x.check(len(a) == len(b) == 4, "length")
    elif what == 1:
        t = conv(f)
        x.assume(x.And(t >= coord.min(), t <= coord.max()))
        x.check(coord.get_next_index(f) == coord.get_next_index(t), "lookup in seconds")
    elif what == 2:
        x.assume(x.And(f >= 0, f <= 4))
        x.check(coord.get_sample_count(f) == coord.get_sample_count(dc.to_timedelta64(f)), "duration in seconds")
        x.check(coord.get_sample_count(2) == 2, "whole seconds")
    else:
        patch = dc.Patch(data=np.arange(8).reshape(4, 2), coords={"time": coord, "distance": np.arange(2)}, dims=("time", "distance"))
        t = conv(f)
        if kind == "dt":
            p1, p2 = list(dc.spool([patch]).select(time=(f, None))), list(dc.spool([patch]).select(time=(t, None)))
            x.check(len(p1) == len(p2), "spool selection")
            for u, v in zip(p1, p2):
                x.check(u.shape == v.shape and bool((u.data == v.data).all()), "spool selection")
        q1, q2 = patch.select(time=(f, None)), patch.select(time=(t, None))
        x.check(q1.shape == q2.shape and bool(np.all(q1.data == q2.data)), "patch selection")
        kept = [i for i in range(4) if bool(coord.values[i] >= t)]
        x.check(len(kept) == q1.shape[0], "samples from that second on")


@scenario(SCENARIOS, split={"lo": 4, "hi": 4})
def query_limits(x):
    """Index queries use the given limits, or the whole time axis where they are open."""
    a, b = x.small("lo", 0, 3), x.small("hi", 0, 3)
    s = [x.npint("s0", -(2**30), 2**30), x.npint("s1", -(2**30), 2**30)]

    def make(k, v):
        return (None, np.datetime64("NaT", "ns"), dc.to_datetime64(v), v)[k]

    args = (make(a, s[0]), make(b, s[1]))
    bad = a > 1 and b > 1 and bool(s[0] > s[1])
    try:
        t1, t2 = get_max_min_times(args)
    except ValueError:
        x.check(bad, "only reversed limits are refused")
        return
    x.check(not bad, "reversed limits are refused")
    x.check(t1 == dc.to_datetime64(s[0]) if a > 1 else t1 < np.datetime64("1700-01-01", "ns"), "lower limit")
    x.check(t2 == dc.to_datetime64(s[1]) if b > 1 else t2 > np.datetime64("2200-01-01", "ns"), "upper limit")
