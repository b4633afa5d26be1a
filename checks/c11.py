"""C11: moving windows see exactly the samples they should."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.exceptions import ParameterError
from dascore.units import get_quantity
from dascore.utils.patch import get_patch_window_size, get_window_axis_step
from sx.harness import scenario

from .common import range_coord, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "patches of 3..6 samples x 2 with arbitrary cell values, windows of 1..n samples, steps 1..4, given in samples, coordinate units (any duration), overlap or percent; "
    "centred windows with step 1; the array-based rolling engine (the pandas engine runs compiled code)"
)
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats up to rounding"]
COVERS = ["partial", "refused", "between"]

STATS = ("mean", "median", "min", "max", "sum")


def close(x, a, b):
    if x.symbolic:
        return a == b
    return bool(np.isclose(a, b, rtol=1e-9, atol=1e-9))


def isnan(x, v):
    return bool(np.isnan(v))


def stat_of(x, name, vals):
    if name == "sum" or name == "mean":
        acc = vals[0]
        for v in vals[1:]:
            acc = acc + v
        return acc if name == "sum" else acc / len(vals)
    if name in ("min", "max"):
        best = vals[0]
        for v in vals[1:]:
            best = x.ite(v < best if name == "min" else v > best, v, best)
        return best
    # the median by its definition: checked by is_median instead
    return None


def is_median(x, got, vals):
    """got lies halfway between the lower and the upper middle value."""
    n = len(vals)
    lo, hi = (n - 1) // 2, n // 2

    def rank(v, k):
        below = x.count([w < v for w in vals])
        upto = x.count([w <= v for w in vals])
        return x.And(below <= k, upto > k)

    conds = []
    for v in vals:
        for w in vals:
            conds.append(x.Implies(x.And(rank(v, lo), rank(w, hi)), close(x, got * 2, v + w)))
    return x.And(*conds)


def build(x, n, axis, desc=False, twin=False):
    a = [[x.flt(f"c{i}", -500, 500, 4)] for i in range(n)]
    for i in range(n):
        a[i].append(a[i][0] + 3 if twin else x.flt(f"d{i}", -500, 500, 4))
    step = step_of("dt", 1)
    ca = range_coord(x, "a", "dt", n, -step if desc else step)
    rows = a if axis == 0 else [[a[i][j] for i in range(n)] for j in range(2)]
    data = x.arr(rows) if x.symbolic else np.array(rows, dtype=float)
    p = dc.Patch(data=data, coords={"a": ca, "b": [5, 6], "q": ("a", np.arange(n) ** 2)}, dims=("a", "b") if axis == 0 else ("b", "a"))
    return p, a, ca, step


@scenario(SCENARIOS, split={"stat": 5, "step": 4})
def windows(x):
    """Value i of the result is the statistic of the window ending at sample i*step."""
    name = STATS[x.small("stat", 0, 4)]
    step = 1 + x.small("step", 0, 3)
    n = 5 if name not in ("median",) else 4
    if x.thorough and name != "median":
        n = 6
    w = x.small("win", 1, n - 1 if name != "median" else 3)
    axis = x.small("axis", 0, 1)
    desc = x.bool("desc")
    p, a, ca, _ = build(x, n, axis, desc, twin=name == "median")
    roller = p.rolling(a=w, step=step, samples=True, engine="numpy")
    if name in ("sum", "max") and x.bool("call"):
        out = roller.apply(getattr(np, name))
    else:
        out = getattr(roller, name)()
    count = -(-n // step)
    x.check(len(out.get_coord("a")) == count, "one value per step")
    x.check(out.data.shape == ((count, 2) if axis == 0 else (2, count)), "data shape")
    va = values_list(ca)
    same_values(x, values_list(out.get_coord("a")), [va[i * step] for i in range(count)], "coordinates of the window ends")
    if step == 1:
        x.check([int(v) for v in out.get_array("q")] == [i * i for i in range(n)], "attached coordinates kept")
    for k in range(count):
        end = k * step
        for j in range(2):
            got = out.data[k, j] if axis == 0 else out.data[j, k]
            if end < w - 1:
                x.check(isnan(x, got), "incomplete windows are NaN")
                continue
            vals = [a[i][j] for i in range(end - w + 1, end + 1)]
            x.check(is_median(x, got, vals) if name == "median" else close(x, got, stat_of(x, name, vals)), "statistic of exactly the window's samples")
    x.cover("partial", w > 1)


@scenario(SCENARIOS, split={"win": 5})
def centred(x):
    """With centre, value i is the statistic of the window around sample i."""
    n = 5
    w = 1 + x.small("win", 0, 4)
    p, a, ca, _ = build(x, n, 0)
    out = p.rolling(a=w, samples=True, center=True, engine="numpy").sum()
    same_values(x, values_list(out.get_coord("a")), values_list(ca), "coordinates kept")
    for i in range(n):
        hi = i + (w - 1) // 2
        lo = hi - w + 1
        for j in range(2):
            got = out.data[i, j]
            if lo < 0 or hi >= n:
                x.check(isnan(x, got), "incomplete windows are NaN")
            else:
                x.check(close(x, got, stat_of(x, "sum", [a[k][j] for k in range(lo, hi + 1)])), "window centred on the sample")


@scenario(SCENARIOS, split={"kind": 3})
def sizes(x):
    """Durations convert to the smallest sample count covering them; overlap and step agree."""
    kind = ("dt", "int", "flt")[x.small("kind", 0, 2)]
    step = step_of(kind, 1)
    n = 6
    ca = range_coord(x, "a", kind, n, step)
    p = dc.Patch(data=np.zeros((n, 2)), coords={"a": ca, "b": [5, 6]}, dims=("a", "b"))
    if kind == "dt":
        dur = x.td("dur", 1, 9 * (10**9 + 7))
        stp = x.td("stp", 1, 9 * (10**9 + 7))
    elif kind == "int":
        dur, stp = x.npint("dur", 1, 30), x.npint("stp", 1, 30)
    else:
        dur, stp = x.flt("dur", 0.125, 3, 8), x.flt("stp", 0.125, 3, 8)
    use_overlap = x.bool("use")
    try:
        win, axis, got = get_window_axis_step(p, a=dur, **{"overlap" if use_overlap else "step": stp})
    except ParameterError:
        x.check(x.Or(dur > step * n, stp > step * n, x.And(use_overlap, x.Not(step * 6 < dur - stp), stp > dur - step)), "refused only when too long or without progress")
        x.cover("refused")
        return
    x.check(axis == 0, "axis of the dimension")
    x.check(x.And(step * win >= dur, step * (win - 1) < dur), "window is the smallest count that covers the duration")
    size = win - got if use_overlap else got
    x.check(x.And(step * size >= stp, step * (size - 1) < stp), "step and overlap cover their durations")
    x.check(got > 0, "progress")
    x.cover("between", dur != step * win)


@scenario(SCENARIOS, split={"n": 4})
def percent(x):
    """Percentages are relative to the window, sample counts are taken literally."""
    win = 1 + x.small("n", 0, 3)
    per = x.choice("per", (0, 10, 25, 40, 50, 75, 90, 100))
    n = 6
    ca = range_coord(x, "a", "dt", n, step_of("dt", 1))
    p = dc.Patch(data=np.zeros((n, 2)), coords={"a": ca, "b": [5, 6]}, dims=("a", "b"))
    want = int(np.round(per / 100 * win))
    q = per * get_quantity("percent")
    if want < win:
        got = get_window_axis_step(p, a=win, samples=True, overlap=q)
        x.check(tuple(got) == (win, 0, win - want), "percent overlap")
    else:
        x.check(x.raises(lambda: get_window_axis_step(p, a=win, samples=True, overlap=q), ParameterError), "full overlap is refused")
    if want:
        x.check(tuple(get_window_axis_step(p, a=win, samples=True, step=q)) == (win, 0, want), "percent step")
    x.check(get_window_axis_step(p, a=win, samples=True)[2] is None, "no step given")
    x.check(tuple(get_patch_window_size(p, {"a": win}, samples=True)) == (win, 1), "window size per dimension")
    x.check(x.raises(lambda: get_patch_window_size(p, {"a": win}, samples=True, require_odd=True), ParameterError) == (win % 2 == 0), "even windows are refused when odd ones are needed")
    x.check(x.raises(lambda: get_patch_window_size(p, {"a": win}, samples=True, min_samples=3), ParameterError) == (win < 3), "short windows are refused")
