"""C12: padding, rolling and aligning move cells exactly where the coordinates say."""
from __future__ import annotations

import itertools

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.exceptions import ParameterError
from sx.harness import scenario

from .common import free_values, labelled, mono_values, range_coord, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "patches of 2..5 x 2 (x 2) cells, evenly sampled coordinates with any start (both directions for padding), pads of 0..4 samples or any duration, "
    "any shifts that are multiples of the step within -3..3 samples, all three alignment modes, rolls of -7..7 samples"
)
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats"]
COVERS = ["refused", "durations", "moved"]

KIND = ("dt", "int", "flt")


@scenario(SCENARIOS, split={"kind": 3, "desc": 2})
def padded(x):
    """Padding by sample numbers extends data and coordinate on both ends."""
    kind, desc = KIND[x.small("kind", 0, 2)], x.bool("desc")
    step = step_of(kind, 1)
    step = -step if desc else step
    n = x.small("n", 1, 3)
    lo, hi = x.small("lo", 0, 3), x.small("hi", 0, 2)
    ca = range_coord(x, "a", kind, n, step, units=None if kind == "dt" else "ft")
    q = [7, -2, 5][:n]
    data = labelled((n, 2)) + 1
    fill = x.flt("fill", -100, 0, 4)
    p = dc.Patch(data=data, coords={"a": ca, "b": [5, 6], "q": ("a", np.array(q)), "u": ("b", [1, 3])}, dims=("a", "b"))
    if x.bool("tr"):
        p = p.transpose("b", "a")
    out = p.pad(a=(lo, hi), samples=True, constant_values=fill)
    if lo == hi and x.bool("short"):
        out = p.pad(a=lo, samples=True, constant_values=fill)
    out = out.transpose("a", "b")
    va = values_list(ca)
    same_values(x, values_list(out.get_coord("a")), [va[0] + step * (i - lo) for i in range(lo + n + hi)], "coordinate extended evenly")
    x.check(out.data.shape == (lo + n + hi, 2), "data extended")
    x.check(x.And(*[out.data[i, j] == (data[i - lo, j] if lo <= i < lo + n else fill) for i in range(lo + n + hi) for j in range(2)]), "cells kept at their coordinate, the rest filled")
    x.check([int(v) for v in out.get_array("b")] == [5, 6] and [int(v) for v in out.get_array("u")] == [1, 3], "other coordinates kept")
    x.check(out.get_coord("a").units == ca.units, "units kept")
    if lo + hi and "q" in out.coords.coord_map:
        x.fail("coordinates that no longer fit are dropped")


@scenario(SCENARIOS, split={"kind": 3})
def padded_durations(x):
    """Padding by durations adds the smallest number of samples covering each duration; two dimensions at once."""
    kind = KIND[x.small("kind", 0, 2)]
    step = step_of(kind, 1)
    ca = range_coord(x, "a", kind, 2, step)
    cb = range_coord(x, "b", "int", 2, 3)
    if kind == "dt":
        d1, d2 = x.td("d1", 0, 3 * 10**9), x.td("d2", 0, 3 * 10**9)
    elif kind == "int":
        d1, d2 = x.npint("d1", 0, 10), x.npint("d2", 0, 10)
    else:
        d1, d2 = x.flt("d1", 0, 0.75, 8), x.flt("d2", 0, 0.75, 8)
    data = labelled((2, 2)) + 1
    p = dc.Patch(data=data, coords={"a": ca, "b": cb}, dims=("a", "b"))
    both = x.bool("both")
    out = p.pad(a=(d1, d2), b=(3, 6)) if both else p.pad(a=(d1, d2))
    va = values_list(ca)
    got = values_list(out.get_coord("a"))
    total = len(got)
    lo = [k for k in range(total) if bool(got[k] == va[0])]
    x.check(len(lo) == 1, "first sample is kept")
    lo = lo[0]
    hi = total - lo - 2
    x.check(x.And(step * lo >= d1, step * (lo - 1) < d1, step * hi >= d2, step * (hi - 1) < d2), "durations covered by the smallest number of samples")
    same_values(x, got, [va[0] + step * (i - lo) for i in range(total)], "coordinate extended evenly")
    ob = 1 if both else 0
    arr = np.asarray(out.data)
    x.check(arr.shape == (total, 5 if both else 2), "data extended")
    x.check(np.array_equal(arr[lo : lo + 2, ob : ob + 2], data) and arr.sum() == data.sum(), "cells kept at their coordinate, the rest zero")
    if both:
        vb = values_list(cb)
        same_values(x, values_list(out.get_coord("b")), [vb[0] + 3 * (i - 1) for i in range(5)], "second dimension extended")
    x.cover("durations", d1 != step * lo)


@scenario(SCENARIOS, split={"form": 3})
def padded_unknown(x):
    """Without expanding coordinates (or on uneven ones) the added samples have no coordinate value."""
    form = x.small("form", 0, 2)
    kind = ("dt", "flt", "dt")[form]
    ca = range_coord(x, "a", kind, 3, step_of(kind, 1)) if form < 2 else get_coord(data=x.arr(mono_values(x, "a", kind, 3)))
    lo, hi = x.small("lo", 0, 2), x.small("hi", 0, 2)
    data = labelled((3, 2)) + 1
    p = dc.Patch(data=data, coords={"a": ca, "b": [5, 6]}, dims=("a", "b"))
    out = p.pad(a=(lo, hi), samples=True, expand_coords=False)
    got = values_list(out.get_coord("a"))
    x.check(len(got) == lo + 3 + hi, "length")
    same_values(x, got[lo : lo + 3], values_list(ca), "values kept")
    null = np.isnat if kind == "dt" else np.isnan
    x.check(all(bool(null(v)) for v in got[:lo] + got[lo + 3 :]), "added samples are null")
    x.check(np.array_equal(np.asarray(out.data)[lo : lo + 3], data), "cells kept")


@scenario(SCENARIOS, split={"n": 5})
def rolled(x):
    """roll moves every cell by the given number of samples, wrapping around; on request the coordinate moves along."""
    n = 1 + x.small("n", 0, 4)
    k = x.small("k", -7, 7)
    upd = x.bool("upd")
    ca = range_coord(x, "a", "dt", n, step_of("dt", 1))
    data = labelled((n, 2))
    p = dc.Patch(data=data, coords={"a": ca, "b": [5, 6]}, dims=("a", "b"))
    out = p.roll(a=k, samples=True, update_coord=upd)
    va = values_list(ca)
    arr = np.asarray(out.data)
    x.check(all(np.array_equal(arr[(i + k) % n], data[i]) for i in range(n)), "cells moved")
    same_values(x, values_list(out.get_coord("a")), [va[(i - k) % n] for i in range(n)] if upd else va, "coordinate moved only on request")
    x.cover("moved", k % n != 0)


@scenario(SCENARIOS, split={"mode": 3, "s0": 5, "form": 3})
def aligned(x):
    """align_to_coord moves every line by its shift: cells keep the coordinate value original + shift."""
    mode = ("full", "same", "valid")[x.small("mode", 0, 2)]
    s = [x.small("s0", 0, 4) - 2, x.small("s1", -3, 3)]
    form = x.small("form", 0, 2)  # samples, time offsets, float seconds
    n = 4
    rev = x.bool("rev")
    step = step_of("dt", 0)
    ca = range_coord(x, "a", "dt", n, step)
    if form == 0:
        q = np.array(s)
    elif form == 1:
        q = np.array([step * k for k in s])
    else:
        q = np.array(s) * float(step / np.timedelta64(1, "s"))
    data = labelled((n, 2)) + 1
    axis = x.small("axis", 0, 1)
    dims = ("a", "b") if axis == 0 else ("b", "a")
    p = dc.Patch(data=data if axis == 0 else data.T, coords={"a": ca, "b": [5, 6], "q": ("b", q)}, dims=dims)
    sh = [-v for v in s] if rev else s
    keep = [max(0, n - abs(v)) for v in s]
    lo = {"full": min(sh), "same": 0, "valid": max(0, *sh)}[mode]
    hi = {"full": n + max(sh), "same": n, "valid": n + min(0, *sh)}[mode]
    try:
        out = p.align_to_coord(a="q", mode=mode, samples=form == 0, reverse=rev)
    except ValueError:
        x.check((mode != "full" and min(keep) == 0) or hi < lo, "refused only when a line would vanish")
        x.cover("refused")
        return
    out = out.transpose("a", "b")
    va = values_list(ca)
    same_values(x, values_list(out.get_coord("a")), [va[0] + step * i for i in range(lo, hi)], "coordinate of the result")
    arr = np.asarray(out.data)
    want = np.full((hi - lo, 2), np.nan)
    for j in range(2):
        for i in range(n):
            if lo <= i + sh[j] < hi:
                want[i + sh[j] - lo, j] = data[i, j]
    x.check(arr.shape == want.shape and np.array_equal(arr, want, equal_nan=True), "lines moved by their shift")
    x.check(np.array_equal(out.get_array("q"), q), "shift coordinate kept")


@scenario(SCENARIOS, split={"mode": 3, "order": 6})
def aligned_by_two(x):
    """Shifts may depend on two dimensions, in any order of the patch's and of the shift's dimensions."""
    mode = ("full", "same", "valid")[x.small("mode", 0, 2)]
    dims = list(itertools.permutations("abc"))[x.small("order", 0, 5)]
    n = 4
    step = step_of("dt", 0)
    ca = range_coord(x, "a", "dt", n, step)
    s = np.array([[0, 1], [x.small("s2", -1, 2), 0], [-1, x.small("s5", 0, 1)]])  # b x c
    data = labelled((n, 6)).reshape(n, 3, 2) + 1
    p = dc.Patch(data=data, coords={"a": ca, "b": [5, 6, 7], "c": [1, 2]}, dims=("a", "b", "c"))
    if x.bool("cb"):
        p = p.update_coords(q=(("c", "b"), s.T))
    else:
        p = p.update_coords(q=(("b", "c"), s))
    out = p.transpose(*dims).align_to_coord(a="q", mode=mode, samples=True)
    x.check(out.dims == dims, "dimensions kept")
    out = out.transpose("a", "b", "c")
    lo = {"full": int(s.min()), "same": 0, "valid": max(0, int(s.max()))}[mode]
    hi = {"full": n + int(s.max()), "same": n, "valid": n + min(0, int(s.min()))}[mode]
    va = values_list(ca)
    same_values(x, values_list(out.get_coord("a")), [va[0] + step * i for i in range(lo, hi)], "coordinate of the result")
    want = np.full((hi - lo, 3, 2), np.nan)
    for j in range(3):
        for k in range(2):
            for i in range(n):
                if lo <= i + s[j, k] < hi:
                    want[i + s[j, k] - lo, j, k] = data[i, j, k]
    arr = np.asarray(out.data)
    x.check(arr.shape == want.shape and np.array_equal(arr, want, equal_nan=True), "lines moved by their shift")
