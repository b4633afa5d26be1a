"""C13: cell-wise and line-wise amplitude operations compute what they say, cell by cell."""
from __future__ import annotations

import itertools

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from sx.harness import scenario

from .c11 import close, is_median, stat_of
from .common import mono_values, range_coord, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = "3 x 2 patches with arbitrary cell values and NaN or infinity placed anywhere; either axis"
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats up to rounding"]
COVERS = ["nan", "zero line", "equal", "different"]

N = 3


def build(x, axis, nan=0, inf=False, lo=-500, hi=500):
    """Patch whose lines along a are the columns of the returned table (None marks a missing cell)."""
    a = [[x.flt(f"c{i}{j}", lo, hi, 4) for j in range(2)] for i in range(N)]
    miss = float("inf") if inf else float("nan")
    t = [[None if nan >> (2 * i + j) & 1 else a[i][j] for j in range(2)] for i in range(N)]
    full = [[miss if t[i][j] is None else t[i][j] for j in range(2)] for i in range(N)]
    rows = full if axis == 0 else [[full[i][j] for i in range(N)] for j in range(2)]
    data = x.arr(rows) if x.symbolic else np.array(rows, dtype=float)
    ca = range_coord(x, "a", "dt", N, step_of("dt", 1))
    p = dc.Patch(data=data, coords={"a": ca, "b": [5, 6]}, dims=("a", "b") if axis == 0 else ("b", "a"), attrs={"station": "X", "data_units": "m"})
    return p, t, ca


def at(p, axis, i, j):
    return p.data[i, j] if axis == 0 else p.data[j, i]


def unchanged_frame(x, out, p, ca):
    x.check(out.dims == p.dims and out.data.shape == p.data.shape, "shape kept")
    same_values(x, values_list(out.get_coord("a")), values_list(ca), "coordinates kept")
    x.check(out.attrs.station == "X", "attributes kept")


def absolute(x, v):
    return x.ite(v < 0, -v, v)


NANS = (0, 1, 0b000101, 0b101010, 0b010101, 0b110000)


@scenario(SCENARIOS, split={"op": 2, "axis": 2, "nan": 6})
def centred(x):
    """demean and demedian subtract each line's mean or median of its non-NaN cells."""
    axis, op = x.small("axis", 0, 1), x.choice("op", ("demean", "demedian"))
    p, t, ca = build(x, axis, NANS[x.small("nan", 0, 5)])
    out = getattr(p, op)("a")
    unchanged_frame(x, out, p, ca)
    for j in range(2):
        col = [t[i][j] for i in range(N) if t[i][j] is not None]
        for i in range(N):
            got = at(out, axis, i, j)
            if t[i][j] is None:
                x.check(bool(np.isnan(got)), "NaN stays NaN")
            elif op == "demean":
                x.check(close(x, got, t[i][j] - stat_of(x, "mean", col)), "line mean removed")
            else:
                x.check(is_median(x, t[i][j] - got, col), "line median removed")
    x.cover("nan", any(v is None for r in t for v in r))


@scenario(SCENARIOS, split={"norm": 3, "axis": 2, "nan": 4})
def normalized(x):
    """normalize divides each line by its norm; lines that are all zero stay zero."""
    axis, norm = x.small("axis", 0, 1), x.choice("norm", ("max", "l1", "bit"))
    zero = x.bool("zero")
    p, t, ca = build(x, axis, NANS[x.small("nan", 0, 3)], lo=0 if zero else -500, hi=0 if zero else 500)
    out = p.normalize("a", norm=norm)
    unchanged_frame(x, out, p, ca)
    for j in range(2):
        col = [absolute(x, t[i][j]) for i in range(N) if t[i][j] is not None]
        if norm == "max":
            div = stat_of(x, "max", col) if col else 0
        else:
            div = stat_of(x, "sum", col) if col else 0
        for i in range(N):
            got = at(out, axis, i, j)
            if t[i][j] is None:
                x.check(bool(np.isnan(got)), "NaN stays NaN")
                continue
            v = t[i][j]
            if norm == "bit":
                x.check(x.Or(x.And(v > 0, got == 1), x.And(v < 0, got == -1), x.And(v == 0, got == 0)), "sign of the cell")
            elif x.symbolic:
                x.check(x.And(x.Implies(div == 0, got == 0), got * div == v), "line divided by its norm")
            else:
                x.check(np.isclose(got * div, v, rtol=1e-9, atol=1e-9) and (div != 0 or got == 0), "line divided by its norm")
    if zero:
        x.cover("zero line")


@scenario(SCENARIOS, split={"inf": 2, "mask": 8})
def filled(x):
    """fillna replaces exactly the missing cells."""
    axis, inf = x.small("axis", 0, 1), x.bool("inf")
    mask = x.small("mask", 0, 7) * 9 % 64 or 1
    p, t, ca = build(x, axis, mask, inf=inf)
    v = x.flt("v", -500, 500, 4)
    incl = x.bool("incl")
    out = p.fillna(v, include_inf=incl)
    unchanged_frame(x, out, p, ca)
    conds = []
    for i, j in itertools.product(range(N), range(2)):
        got = at(out, axis, i, j)
        if t[i][j] is not None:
            conds.append(got == t[i][j])
        elif inf and not incl:
            conds.append(bool(np.isinf(got)))
        else:
            conds.append(got == v)
    x.check(x.And(*conds), "exactly the missing cells are replaced")
    x.check(all((t[i][j] is None) == (not bool(np.isfinite(at(p, axis, i, j)))) for i in range(N) for j in range(2)), "input unchanged")


@scenario(SCENARIOS, split={"which": 3})
def cells(x):
    """abs, full and real act on every cell."""
    which = x.small("which", 0, 2)
    p, t, ca = build(x, 0)
    if which == 0:
        out = p.abs()
        want = [[absolute(x, v) for v in r] for r in t]
    elif which == 1:
        v = x.flt("v", -500, 500, 4)
        out = p.full(v)
        want = [[v] * 2] * N
    else:
        out = p.real()
        want = t
    unchanged_frame(x, out, p, ca)
    x.check(x.And(*[out.data[i, j] == want[i][j] for i in range(N) for j in range(2)]), "every cell")


@scenario(SCENARIOS, split={"what": 4, "close": 2})
def equality(x):
    """Patches are equal exactly when dimensions, coordinates, attributes and all cells are."""
    what, near = x.small("what", 0, 3), x.bool("close")
    p, t, ca = build(x, 0)
    rows = [list(r) for r in t]
    start = values_list(ca)[0]
    d = x.flt("d", -1, 1, 4)
    shift = x.td("shift", -2, 2)
    pos = x.small("pos", 0, 5)
    st = "X"
    same = True
    if what == 0:
        rows[pos // 2][pos % 2] = rows[pos // 2][pos % 2] + d
        same = d == 0
        if near:
            x.assume(x.Or(d == 0, x.And(rows[pos // 2][pos % 2] < 100, rows[pos // 2][pos % 2] > -100)))
    elif what == 1:
        start = start + shift
        same = shift == np.timedelta64(0, "ns")
    elif what == 2:
        st = "XY"[pos % 2]
        same = st == "X"
    q = dc.Patch(
        data=x.arr(rows) if x.symbolic else np.array(rows, dtype=float), coords={"a": range_coord(x, "", "dt", N, step_of("dt", 1), start=start), "b": [5, 6]},
        dims=("a", "b"), attrs={"station": st, "data_units": "m", "history": ["other"]},
    )
    if what == 3:
        q = q.rename_coords(b="c") if pos % 2 else q.update_coords(b=[5, 6])
        same = not pos % 2
    x.check(x.Iff(p.equals(q, close=near), same), "equal exactly when everything is")
    x.check(not p.equals(None) and p.equals(p, close=near), "only patches are equal to patches")
    x.cover("equal", same)
    x.cover("different", x.Not(same))
