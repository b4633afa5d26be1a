"""C14: muting and tapering act only inside their range."""
from __future__ import annotations

import numpy as np
from scipy.signal.windows import hann, triang

import dascore as dc
from dascore.core.coords import get_coord
from dascore.exceptions import ParameterError
from sx.harness import scenario

from .c11 import close
from .common import in_range, mono_values, range_coord, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = "patches of 3..7 x 2 cells with arbitrary values; evenly sampled, descending and uneven coordinates; any bounds and taper lengths"
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats up to rounding"]
COVERS = ["muted", "kept", "tapered", "refused"]


def build(x, kind, n, form, axis):
    a = [[x.flt(f"c{i}", -500, 500, 4), x.flt(f"d{i}", -500, 500, 4)] for i in range(n)]
    rows = a if axis == 0 else [[a[i][j] for i in range(n)] for j in range(2)]
    data = x.arr(rows) if x.symbolic else np.array(rows, dtype=float)
    step = step_of(kind, 1)
    if form < 2:
        ca = range_coord(x, "a", kind, n, -step if form else step)
    else:
        ca = get_coord(data=x.arr(mono_values(x, "a", kind, n)))
    p = dc.Patch(data=data, coords={"a": ca, "b": [5, 6]}, dims=("a", "b") if axis == 0 else ("b", "a"))
    return p, a, ca


def at(p, axis, i, j):
    return p.data[i, j] if axis == 0 else p.data[j, i]


@scenario(SCENARIOS, split={"form": 3, "kind": 2, "rel": 2})
def muted(x):
    """A one-dimensional mute zeroes exactly the cells inside the closed range (or outside it, inverted)."""
    form, kind, rel = x.small("form", 0, 2), ("dt", "flt")[x.small("kind", 0, 1)], x.bool("rel")
    n, axis = 3, x.small("axis", 0, 1)
    p, a, ca = build(x, kind, n, form, axis)
    v = values_list(ca)
    first = v[0] if form != 1 else v[-1]
    if rel:
        lo = x.td("lo", 0, 3 * 10**9) if kind == "dt" else x.flt("lo", 0, 3, 8)
        hi = x.td("hi", 0, 3 * 10**9) if kind == "dt" else x.flt("hi", 0, 3, 8)
        alo, ahi = first + lo, first + hi
    else:
        lo, hi = val(x, "lo", kind), val(x, "hi", kind)
        alo, ahi = lo, hi
    x.assume(lo <= hi)
    inv = x.bool("inv")
    out = p.line_mute(a=(lo, hi), relative=rel, invert=inv)
    conds = []
    for i in range(n):
        inside = in_range(x, v[i], alo, ahi)
        hit = x.Not(inside) if inv else inside
        for j in range(2):
            conds.append(at(out, axis, i, j) == x.ite(hit, a[i][j] * 0, a[i][j]))
        x.cover("muted", hit)
        x.cover("kept", x.Not(hit))
    x.check(x.And(*conds), "exactly the cells inside the range are zeroed")
    same_values(x, values_list(out.get_coord("a")), v, "coordinates kept")


@scenario(SCENARIOS, split={"form": 2, "mode": 3, "axis": 2})
def tapered(x):
    """taper scales the samples within the given distance of either end by the window's flank."""
    form, mode, axis = 2 * x.small("form", 0, 1), x.small("mode", 0, 2), x.small("axis", 0, 1)
    n = 5 if x.thorough else 4
    name, func = (("hann", hann), ("triang", triang))[axis]
    p, a, ca = build(x, "dt", n, form, axis)
    v = values_list(ca)
    lo = x.td("lo", 1, 6 * 10**9) if mode != 1 else None
    hi = x.td("hi", 1, 6 * 10**9) if mode != 0 else None
    first = [bool(t - v[0] <= lo) for t in v] if lo is not None else [False] * n
    last = [bool(v[-1] - t <= hi) for t in v] if hi is not None else [False] * n
    try:
        out = p.taper(window_type=name, a=(lo, hi))
    except ParameterError:
        x.check(sum(first) + sum(last) > n or sum(first) == n or sum(last) == n, "refused only when the tapers overlap or fill the dimension")
        x.cover("refused")
        return
    k, m = sum(first), sum(last)
    w0, w1 = func(2 * k)[:k] if k else [], func(2 * m)[m:] if m else []
    conds = []
    for i in range(n):
        f = (float(w0[i]) if i < k else 1.0) * (float(w1[i - (n - m)]) if i >= n - m else 1.0)
        for j in range(2):
            conds.append(close(x, at(out, axis, i, j), a[i][j] * f))
    x.check(x.And(*conds), "flanks scaled, the rest unchanged")
    same_values(x, values_list(out.get_coord("a")), v, "coordinates kept")
    x.cover("tapered", k + m > 0)


@scenario(SCENARIOS, split={"count": 3, "i1": 3})
def tapered_range(x):
    """taper_range keeps the cells between the inner bounds, scales those between outer and inner and zeroes the rest."""
    count = x.small("count", 0, 2)
    n = 7
    inv = x.bool("inv")
    axis = int(inv)
    p, a, ca = build(x, "dt", n, 0, axis)
    i1 = x.small("i1", 0, 2)
    i2 = x.small("i2", i1, 3)
    i3 = x.small("i3", i2, i2 + 2)
    i4 = x.small("i4", i3, 6)
    v = values_list(ca)
    step = step_of("dt", 1)
    off = x.td("off", 0, 10**9 + 6)

    def bound(i):
        # any value up to the sample: it is the next one
        return v[i] - off

    if count == 0:
        out = p.taper_range(a=(i1, i2, i3, i4), samples=True, invert=inv)
    elif count == 1:
        x.assume(x.Or(off == np.timedelta64(0, "ns"), i1 > 0))
        out = p.taper_range(a=(bound(i1), bound(i2), bound(i3), bound(i4)), invert=inv)
    else:
        x.assume(x.Or(off == np.timedelta64(0, "ns"), i1 > 0))
        out = p.taper_range(a=tuple(step * i - off for i in (i1, i2, i3, i4)), relative=True, invert=inv)
    env = np.zeros(n)
    up = hann(2 * (i2 - i1) + 1)[: i2 - i1]
    down = hann(2 * (i4 - i3) + 1)[: i4 - i3][::-1]
    env[i1:i2] += up
    env[i3:i4] += down
    env[i2:i3] += 1
    if inv:
        env = np.max(env) - env
    x.check(x.And(*[close(x, at(out, axis, i, j), a[i][j] * float(env[i])) for i in range(n) for j in range(2)]), "cells scaled by the envelope of the range")


@scenario(SCENARIOS, split={"inv": 2, "mode": 2})
def tapered_ranges(x):
    """Several ranges which do not overlap act together; two values give plain cut-offs."""
    inv, mode = x.small("inv", 0, 1), x.small("mode", 0, 1)
    n = 7
    p, a, ca = build(x, "dt", n, 0, inv)
    v = values_list(ca)
    if x.bool("pair"):
        i1 = x.small("i1", 0, 3)
        i2 = x.small("i2", i1 + 1, 6)
        sets = [(0, i1, i2, n)]
        given = (i1, i2) if mode == 0 else (v[i1], v[i2])
        # the flanks fill the rest of the dimension
    else:
        i2 = x.small("i2", 0, 1)
        i4 = x.small("i4", i2, 3)
        i5 = x.small("i5", i4, 4)
        sets = [(0, i2, i2, i4), (i5, 5, 5, 6)]
        given = tuple(sets) if mode == 0 else tuple(tuple(v[i] for i in s) for s in sets)
    out = p.taper_range(a=given, samples=mode == 0, invert=bool(inv))
    env = np.zeros(n)
    for i1, i2, i3, i4 in sets:
        env[i1:i2] += hann(2 * (i2 - i1) + 1)[: i2 - i1]
        env[i3:i4] += hann(2 * (i4 - i3) + 1)[: i4 - i3][::-1]
        env[i2:i3] += 1
    if inv:
        env = np.max(env) - env
    x.check(x.And(*[close(x, at(out, inv, i, j), a[i][j] * float(env[i])) for i in range(n) for j in range(2)]), "cells scaled by the envelope of the ranges")
