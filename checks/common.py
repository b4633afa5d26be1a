"""Shared input makers and reference predicates for the check modules."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord

# symbolic ranges: nanoseconds for times (1938..2033), plain values otherwise
T_LO, T_HI = -(10**18), 2 * 10**18
D_LO, D_HI = -(10**15), 10**15
I_LO, I_HI = -(10**6), 10**6
F_LO, F_HI = -4096, 4096
F_DEN = 8  # floats are multiples of 1/8: exactly representable

KINDS = ("dt", "td", "int", "flt")

STEPS = {
    "dt": (10**6, 10**9 + 7, 3),
    "td": (10**6, 10**9 + 7, 3),
    "int": (1, 3, 10),
    "flt": (0.5, 0.25, 1.5),
}


def val(x, name, kind, lo=None, hi=None):
    """One symbolic coordinate value."""
    if kind == "dt":
        return x.dt(name, T_LO if lo is None else lo, T_HI if hi is None else hi)
    if kind == "td":
        return x.td(name, D_LO if lo is None else lo, D_HI if hi is None else hi)
    if kind == "int":
        return x.npint(name, I_LO if lo is None else lo, I_HI if hi is None else hi)
    return x.flt(name, F_LO if lo is None else lo, F_HI if hi is None else hi, F_DEN)


def delta(x, name, kind, lo, hi):
    """A symbolic difference; lo, hi count smallest increments (1 ns, 1, 1/8)."""
    if kind in ("dt", "td"):
        return x.td(name, lo, hi)
    if kind == "int":
        return x.npint(name, lo, hi)
    return x.flt(name, lo / F_DEN, hi / F_DEN, F_DEN)


def step_of(kind, k=0):
    s = STEPS[kind][k]
    return np.timedelta64(s, "ns") if kind in ("dt", "td") else s


def zero_of(kind):
    return np.timedelta64(0, "ns") if kind in ("dt", "td") else 0


def range_coord(x, tag, kind, n, step, start=None, units=None):
    """Evenly sampled coordinate of n samples starting at a symbolic value."""
    start = val(x, tag, kind) if start is None else start
    return get_coord(start=start, step=step, stop=start + step * n, units=units)


def mono_values(x, tag, kind, n, desc=False, gap=(1, 10**7), uneven=True):
    """n strictly monotonic symbolic values; neighbouring gaps differ by 1/64 or more."""
    if kind in ("int", "flt"):
        gap = (1, 64)
    v = val(x, tag, kind)
    out = [v]
    last = None
    for i in range(1, n):
        d = delta(x, f"{tag}_g{i}", kind, gap[0], gap[1])
        if uneven and last is not None:
            x.assume(x.Or(d * 64 >= last * 65, d * 65 <= last * 64))
        last = d
        v = v - d if desc else v + d
        out.append(v)
    return out


def free_values(x, tag, kind, n):
    """n unrelated symbolic values."""
    return [val(x, f"{tag}_{i}", kind) for i in range(n)]


def values_list(coord):
    """The coordinate's values, one by one."""
    vals = coord.values
    return [vals[i] for i in range(len(coord))]


def index_list(n, indexer):
    """Which of n positions a slice, integer array or boolean mask keeps."""
    return [int(i) for i in np.arange(n)[indexer]]


def same_values(x, got, want, msg):
    """Two equally long lists of values are pairwise equal."""
    x.check(len(got) == len(want), msg + " (length)")
    if len(got) == len(want):
        x.check(x.And(*[g == w for g, w in zip(got, want)]), msg)


def in_range(x, v, lo, hi):
    conds = []
    if lo is not None and lo is not ...:
        conds.append(v >= lo)
    if hi is not None and hi is not ...:
        conds.append(v <= hi)
    return x.And(*conds) if conds else True


def cell(i, j=0, k=0):
    """Data value identifying the cell it was stored in."""
    return 100 * i + 10 * j + k


def labelled(shape):
    """Data in which every cell holds a distinct value."""
    return np.arange(int(np.prod(shape)), dtype=np.float64).reshape(shape)
