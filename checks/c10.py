"""C10: joining patches keeps every cell with its coordinates (merge managers, concatenate, stack)."""
from __future__ import annotations

import itertools
import warnings

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.exceptions import CoordMergeError, IncompatiblePatchError, PatchCoordinateError
from dascore.utils.coordmanager import merge_coord_managers
from dascore.utils.patch import concatenate_patches, stack_patches
from sx.harness import scenario

from .common import labelled, mono_values, range_coord, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "two or three patches of up to 3 x 2 cells, in any order, with even, uneven or unsorted coordinates at arbitrary distance along the joined dimension, "
    "an attached 1-D and a 2-D coordinate on it and one on the other dimension; snap tolerances 0.5..2 steps at every gap"
)
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats", "the patches' first values differ (their order is defined)"]
COVERS = ["snapped", "refused", "gap", "skipped"]

NB = 2


def piece(x, tag, form, n, start, qstart, units="ft"):
    """Coordinates for one piece: even, uneven or unsorted values along a."""
    step = step_of("dt", 1)
    if form == 0:
        ca = get_coord(start=start, step=step, stop=start + step * n, units=units)
        va = [start + step * i for i in range(n)]
    else:
        g1, g2 = np.timedelta64(70, "ns"), np.timedelta64(11, "ns")
        va = [start, start + g1, start + g1 + g2][:n]
        if form == 2 and n > 1:
            va = [va[1], va[0], *va[2:]]
        ca = get_coord(data=x.arr(va), units=units)
    q = [qstart + (-2) ** i for i in range(n)]
    w = [[qstart + 100 * i + (50 if i == 0 else 0) + j for j in range(NB)] for i in range(n)]
    return ca, va, q, w


def clear_joints(x, firsts, lasts):
    """Joints are exactly one step or clearly different (near-even values are snapped by design)."""
    step = step_of("dt", 1)
    for i, j in itertools.permutations(range(len(firsts)), 2):
        g = firsts[j] - lasts[i]
        x.assume(x.Or(g == step, g * 64 > step * 65, g * 64 < step * 63))


def manager_dict(x, p, b, u, tr):
    ca, _, q, w = p
    wt = [[w[i][j] for i in range(len(w))] for j in range(NB)]
    return {
        "a": ca, "b": b, "q": ("a", x.arr(q)), "u": ("b", u),
        "w": (("b", "a"), x.arr(wt)) if tr else (("a", "b"), x.arr(w)),
    }


@scenario(SCENARIOS, split={"form": 3, "count": 2, "tr": 2})
def managers(x):
    """Merged managers list the pieces' values in order of their first values, attached coordinates included."""
    form, count, tr = x.small("form", 0, 2), 2 + x.small("count", 0, 1), x.bool("tr")
    sizes = [2, 3, 1][:count]
    starts = [val(x, f"s{i}", "dt") for i in range(count)]
    for i, j in itertools.combinations(range(count), 2):
        x.assume(starts[i] != starts[j])
    qs = [val(x, f"q{i}", "int") for i in range(count)]
    pieces = [piece(x, f"p{i}", form if i else 0, sizes[i], starts[i], qs[i]) for i in range(count)]
    if form == 0:
        clear_joints(x, starts, [p[1][-1] for p in pieces])
    b, u = np.array([3.0, 3.5]), np.array([8, 1])
    dims = ("b", "a") if tr else ("a", "b")
    cms = [dc.get_coord_manager(manager_dict(x, p, b, u, tr), dims=dims) for p in pieces]
    out = merge_coord_managers(cms, dim="a")
    order = sorted(range(count), key=lambda i: starts[i])
    x.check(tuple(out.dims) == dims, "dimension order kept")
    x.check(set(out.coord_map) == {"a", "b", "q", "u", "w"}, "coordinates kept")
    same_values(x, values_list(out.get_coord("a")), [v for i in order for v in pieces[i][1]], "values joined in order")
    same_values(x, values_list(out.get_coord("q")), [v for i in order for v in pieces[i][2]], "attached coordinate joined from its own values")
    w = out.get_array("w")
    rows = [r for i in order for r in pieces[i][3]]
    x.check(w.shape == ((NB, len(rows)) if tr else (len(rows), NB)), "attached 2-D coordinate shape")
    x.check(x.And(*[(w[j, i] if tr else w[i, j]) == rows[i][j] for i in range(len(rows)) for j in range(NB)]), "attached 2-D coordinate joined from its own values")
    x.check([float(v) for v in out.get_array("b")] == [3.0, 3.5] and [int(v) for v in out.get_array("u")] == [8, 1], "other coordinates kept")
    x.check(str(out.get_coord("a").units) == str(cms[0].get_coord("a").units), "units kept")
    x.cover("gap", starts[1] > pieces[0][1][-1])


@scenario(SCENARIOS, split={"tol": 4})
def snapped(x):
    """Within the tolerance the pieces are moved next to each other; beyond it merging is refused."""
    tol = (0.5, 1.0, 1.25, 2.0)[x.small("tol", 0, 3)]
    ms = 1000
    step = np.timedelta64(ms, "ns")
    s0, q0, q1 = val(x, "s0", "dt"), val(x, "q0", "int"), val(x, "q1", "int")
    gap = x.td("gap", -5 * ms, 5 * ms)
    n, m = 3, x.small("m", 1, 2)
    s1 = s0 + step * n + gap
    x.assume(s1 > s0)
    mk = lambda s, k, q: dc.get_coord_manager(
        {"a": get_coord(start=s, step=step, stop=s + step * k), "q": ("a", x.arr([q + 3 * i * i for i in range(k)])), "b": [1, 2]}, dims=("a", "b")
    )
    first, second = mk(s0, n, q0), mk(s1, m, q1)
    cms = [second, first] if x.bool("swap") else [first, second]
    lim = np.timedelta64(int(tol * ms), "ns")
    ok = x.And(gap <= lim, -gap <= lim)
    try:
        out = merge_coord_managers(cms, dim="a", snap_tolerance=tol)
    except CoordMergeError:
        x.check(x.Not(ok), "refused only beyond the tolerance")
        x.cover("refused")
        return
    x.check(ok, "merged only within the tolerance")
    same_values(x, values_list(out.get_coord("a")), [s0 + step * i for i in range(n + m)], "pieces moved next to each other")
    same_values(x, values_list(out.get_coord("q")), [q0 + 3 * i * i for i in range(n)] + [q1 + 3 * i * i for i in range(m)], "attached coordinate not moved")
    x.cover("snapped", gap != np.timedelta64(0, "ns"))


@scenario(SCENARIOS, split={"which": 4})
def conflicts(x):
    """Coordinates that are not merged have to be equal (or are dropped on request)."""
    which = x.small("which", 0, 3)
    s0, s1 = val(x, "s0", "dt"), val(x, "s1", "dt")
    x.assume(s0 != s1)
    b0, u0 = val(x, "b0", "int"), val(x, "u0", "int")
    db, du = x.npint("db", -2, 2), x.npint("du", -2, 2)
    step = step_of("dt", 1)

    def mk(s, b, u, **kw):
        return dc.get_coord_manager(
            {"a": range_coord(x, "", "dt", 2, step, start=s), "b": x.arr([b, b + 3]), "u": ("b", x.arr([u, u + 9])), **kw}, dims=("a", "b")
        )

    if which == 2:
        cms = [mk(s0, b0, u0, r=("a", np.array([1, 2]))), mk(s1, b0, u0)]
        out = merge_coord_managers(cms, dim="a")
        x.check("r" not in out.coord_map, "coordinates missing in one piece are dropped")
        x.check("u" in out.coord_map and "b" in out.coord_map, "shared ones stay")
        return
    if which == 3:
        cms = [mk(s0, b0, u0), dc.get_coord_manager({"a": range_coord(x, "", "dt", 2, step, start=s1), "b": x.arr([b0, b0 + 3]), "u": ("b", x.arr([u0, u0 + 9]))}, dims=("b", "a"))]
        x.check(x.raises(lambda: merge_coord_managers(cms, dim="a"), CoordMergeError), "different dimensions are refused")
        cms = [mk(s0, b0, u0).set_units(b="ft"), mk(s1, b0 + 6, u0).set_units(b="m")]
        x.check(x.raises(lambda: merge_coord_managers(cms, dim="b"), CoordMergeError), "different units are refused")
        return
    cms = [mk(s0, b0, u0), mk(s1, b0 + db, u0 + du)]
    drop = which == 1
    try:
        out = merge_coord_managers(cms, dim="a", drop_conflicting=drop)
    except CoordMergeError:
        x.check(db != 0 if drop else x.Or(db != 0, du != 0), "refused only when coordinates differ")
        return
    x.check(db == 0, "differing dimensions are never merged")
    x.check(x.Implies(x.Not(drop), du == 0), "differing coordinates are never merged")
    x.check(x.Iff("u" in out.coord_map, du == 0), "differing coordinates are dropped")
    if "u" in out.coord_map:
        same_values(x, values_list(out.get_coord("u")), [u0, u0 + 9], "equal coordinates kept")


@scenario(SCENARIOS, split={"form": 3, "val": 4})
def concatenated(x):
    """concatenate joins data and coordinate values in the given order, in groups of the given size."""
    form, k = x.small("form", 0, 2), x.small("val", 0, 3)
    sizes = [2, 3, 1]
    starts = [val(x, f"s{i}", "dt") for i in range(3)]
    b0, db = val(x, "b0", "flt"), x.flt("db", -2, 2, 8)
    patches, vals, odd = [], [], 1
    for i in range(3):
        ca, va, _, _ = piece(x, "", form, sizes[i], starts[i], 0)
        b = [b0, b0 + 2] if i != odd else [b0 + db, b0 + db + 2]
        patches.append(dc.Patch(data=labelled((sizes[i], 2)) + 100 * i, coords={"a": ca, "b": x.arr(b)}, dims=("a", "b")))
        vals.append(va)
    if form == 0:
        clear_joints(x, starts, [v[-1] for v in vals])
    same = bool(db == 0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = concatenate_patches(patches, a=k or None)
    used = [0, 1, 2] if same else [0, 2]
    if not same:
        x.check(x.raises(lambda: concatenate_patches(patches, check_behavior="raise", a=None), IncompatiblePatchError), "incompatible patches raise on request")
        x.cover("skipped")
    size = k or len(used)
    groups = [used[i : i + size] for i in range(0, len(used), size)]
    x.check(len(out) == len(groups), "number of groups")
    for p, g in zip(out, groups):
        x.check(np.array_equal(np.asarray(p.data), np.concatenate([labelled((sizes[i], 2)) + 100 * i for i in g])), "data joined in order")
        same_values(x, values_list(p.get_coord("a")), [v for i in g for v in vals[i]], "values joined in order")
        same_values(x, values_list(p.get_coord("b")), [b0, b0 + 2], "other dimension kept")
        x.check(p.get_coord("a").units == patches[0].get_coord("a").units, "units kept")


@scenario(SCENARIOS, split={"n": 3})
def new_dimension(x):
    """Concatenating along a new dimension stacks the patches with equal coordinates."""
    n = 1 + x.small("n", 0, 2)
    s0 = val(x, "s0", "dt")
    ds = [x.td(f"d{i}", -3, 3) for i in range(n)]
    step = step_of("dt", 1)
    patches = [dc.Patch(data=labelled((2, 2)) + 100 * i, coords={"a": range_coord(x, "", "dt", 2, step, start=s0 + (ds[i] if i else ds[i] * 0)), "b": [1, 2]}, dims=("a", "b")) for i in range(n)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        (out,) = concatenate_patches(patches, z=None)
    used = [i for i in range(n) if i == 0 or bool(ds[i] == np.timedelta64(0, "ns"))]
    x.check(out.dims == ("a", "b", "z"), "new dimension last")
    x.check(np.array_equal(np.asarray(out.data), np.stack([labelled((2, 2)) + 100 * i for i in used], axis=-1)), "data stacked in order")
    same_values(x, values_list(out.get_coord("a")), [s0, s0 + step], "coordinates kept")


@scenario(SCENARIOS, split={"vary": 2, "tr": 2})
def stacked(x):
    """stack adds the cells of the patches compatible with the first one, and no other."""
    vary, tr = x.bool("vary"), x.bool("tr")
    s0 = val(x, "s0", "dt")
    d1, d2 = x.td("d1", -3, 3), x.td("d2", 0, 10**12)
    b0, db = val(x, "b0", "int"), x.npint("db", -2, 2)
    step = step_of("dt", 1)
    cells = [[[x.flt(f"c{k}{i}{j}", -500, 500, 4) for j in range(2)] for i in range(2)] for k in range(3)]

    def mk(k, s, b):
        data = x.arr(cells[k]) if x.symbolic else np.array(cells[k], dtype=float)
        return dc.Patch(data=data, coords={"a": range_coord(x, "", "dt", 2, step, start=s), "b": x.arr([b, b + 3])}, dims=("a", "b"))

    ps = [mk(0, s0, b0), mk(1, s0 + d1, b0 + db), mk(2, s0 + d2, b0)]
    if tr:
        ps[2] = ps[2].transpose("b", "a")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = stack_patches(ps, dim_vary="a" if vary else None, check_behavior="warn")
    zero = np.timedelta64(0, "ns")
    ok1 = db == 0 if vary else x.And(db == 0, d1 == zero)
    ok2 = False if tr else (True if vary else d2 == zero)
    conds = []
    for i in range(2):
        for j in range(2):
            want = cells[0][i][j] + x.ite(ok1, cells[1][i][j], cells[1][i][j] * 0) + x.ite(ok2, cells[2][i][j], cells[2][i][j] * 0)
            conds.append(out.data[i, j] == want)
    x.check(x.And(*conds), "cells of the compatible patches are added")
    same_values(x, values_list(out.get_coord("b")), [b0, b0 + 3], "coordinates of the first patch")
    if not vary:
        same_values(x, values_list(out.get_coord("a")), [s0, s0 + step], "coordinates of the first patch")
    x.check(x.raises(lambda: stack_patches(ps, dim_vary="z"), PatchCoordinateError), "unknown dimension is refused")
    bad = x.Or(x.Not(ok1), x.Not(ok2))
    err = x.raises(lambda: stack_patches(ps, dim_vary="a" if vary else None, check_behavior="raise"), IncompatiblePatchError)
    x.check(x.Iff(err, bad), "incompatible patches raise on request")
