"""C07: reordering and reshaping operations keep every data cell with its coordinates."""
from __future__ import annotations

import itertools

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from sx.harness import scenario

from .common import labelled, mono_values, range_coord, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "patches of 3 x 2 (x 1) with symbolic coordinates (even both ways, uneven, unsorted), a second coordinate on the first dimension and a 2-D coordinate; "
    "single operations and all ordered pairs of operations (thorough: triples over a subset)"
)
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats"]
COVERS = []

NA, NB = 3, 2


def arrange(vals, k):
    a, b, c = vals
    return [[a, b, c], [c, b, a], [b, a, c], [c, a, b]][k]


def make(x, form, qform):
    """Patch with dims (a, b), coordinate q on a and w on (a, b); plus its cell table."""
    if form < 2:
        step = step_of("dt", 1)
        ca = range_coord(x, "a", "dt", NA, -step if form else step)
    else:
        ca = get_coord(data=x.arr(arrange(mono_values(x, "a", "dt", 3), 0 if form == 2 else form - 1)))
    cb = range_coord(x, "b", "flt", NB, 0.5)
    q = arrange(mono_values(x, "q", "int", 3), qform)
    w0 = val(x, "w", "flt")
    w = [[w0 + 10 * i + j for j in range(NB)] for i in range(NA)]
    data = labelled((NA, NB))
    patch = dc.Patch(
        data=data, dims=("a", "b"),
        coords={"a": ca, "b": cb, "q": ("a", x.arr(q)), "w": (("a", "b"), x.arr(w))},
    )
    va, vb = values_list(ca), values_list(cb)
    table = {i * NB + j: {"a": va[i], "b": vb[j], "q": q[i], "w": w[i][j]} for i in range(NA) for j in range(NB)}
    return patch, table


def verify(x, patch, table, names=None, complete=True, what=""):
    """Every data cell carries the coordinate values of its label."""
    names = names or {"a": "a", "b": "b", "q": "q", "w": "w"}
    data = np.asarray(patch.data)
    dims = patch.dims
    x.check(data.shape == tuple(len(patch.get_coord(d)) for d in dims), what + ": data shape matches the coordinates")
    labels = []
    coords = {}
    for new, old in names.items():
        x.check(new in patch.coords.coord_map, what + f": coordinate {old} kept")
        coords[new] = (patch.coords.dim_map[new], patch.get_coord(new).values)
    conds = []
    for pos in itertools.product(*[range(n) for n in data.shape]):
        lab = int(data[pos])
        labels.append(lab)
        where = dict(zip(dims, pos))
        for new, old in names.items():
            cdims, vals = coords[new]
            got = vals[tuple(where[d] for d in cdims)]
            conds.append(got == table[lab][old])
    x.check(x.And(*conds), what + ": each cell keeps its coordinate values")
    if complete:
        x.check(sorted(set(labels)) == sorted(table), what + ": no cell lost or duplicated")
    return labels


def op_transpose(x, p, tag):
    return p.transpose(*x.choice(tag + "tr", [p.dims[::-1], (..., p.dims[0]), (p.dims[1], ...)]))


def op_flip(x, p, tag):
    d = [("a",), ("b",), ("a", "b")][x.small(tag + "fl", 0, 2)]
    return p.flip(*[n for n in d if n in p.dims])


def op_sort(x, p, tag):
    names = x.choice(tag + "so", [("a",), ("b",), ("q",), ("a", "b"), ("q", "b")])
    return p.sort_coords(*names, reverse=x.bool(tag + "rev"))


def op_order(x, p, tag):
    perm = x.choice(tag + "pe", [(1, 0, 2), (2, 0, 1), (2, 1, 0)])
    return p.order(a=np.array(perm), samples=True)


def op_append(x, p, tag):
    if p.ndim > 2:
        return p
    return p.append_dims("z").transpose("z", ...)


def op_squeeze(x, p, tag):
    return p.squeeze()


OPS = [op_transpose, op_flip, op_sort, op_order, op_append, op_squeeze]


@scenario(SCENARIOS, split={"op": len(OPS), "form": 5})
def single(x):
    op = x.choice("op", OPS)
    patch, table = make(x, x.small("form", 0, 4), x.small("qform", 0, 3))
    out = op(x, patch, "1")
    verify(x, out, table, what=op.__name__)
    verify(x, patch, table, what="source patch untouched")


@scenario(SCENARIOS, split={"op1": len(OPS), "op2": len(OPS)})
def pairs(x):
    op1 = x.choice("op1", OPS)
    op2 = x.choice("op2", OPS)
    form = x.choice("form", (1, 4) if not x.thorough else (0, 1, 2, 3, 4))
    patch, table = make(x, form, 2)
    mid = op1(x, patch, "1")
    out = op2(x, mid, "2")
    verify(x, out, table, what=f"{op1.__name__} then {op2.__name__}")


@scenario(SCENARIOS, split={"op1": len(OPS), "op2": len(OPS)}, thorough_only=True)
def triples(x):
    op1 = x.choice("op1", OPS)
    op2 = x.choice("op2", OPS)
    op3 = x.choice("op3", OPS)
    patch, table = make(x, 4, 2)
    out = op3(x, op2(x, op1(x, patch, "1"), "2"), "3")
    verify(x, out, table, what=f"{op1.__name__}, {op2.__name__}, {op3.__name__}")


@scenario(SCENARIOS, split={"form": 5})
def rename(x):
    """rename_coords and set_dims relabel without moving anything."""
    patch, table = make(x, x.small("form", 0, 4), 2)
    which = x.small("which", 0, 5)
    if which == 4:
        out = patch.rename_coords(a="b", b="a")
        verify(x, out, table, {"b": "a", "a": "b", "q": "q", "w": "w"}, what="two dimensions trade names")
        x.check(out.dims == ("b", "a"), "renamed dims")
    elif which == 5:
        out = patch.rename_coords(a="q", q="z", b="b")
        verify(x, out, table, {"q": "a", "b": "b", "z": "q", "w": "w"}, what="a dimension takes a coordinate's old name")
        x.check(out.dims == ("q", "b"), "renamed dims")
    elif which == 0:
        out = patch.rename_coords(a="t")
        verify(x, out, table, {"t": "a", "b": "b", "q": "q", "w": "w"}, what="rename dimension")
        x.check(out.dims == ("t", "b"), "renamed dims")
    elif which == 1:
        out = patch.rename_coords(q="r", b="c")
        verify(x, out, table, {"a": "a", "c": "b", "r": "q", "w": "w"}, what="rename coordinate")
        x.check(out.dims == ("a", "c"), "renamed dims")
    elif which == 2:
        out = patch.set_dims(a="q")
        verify(x, out, table, what="swap dimension coordinate")
        x.check(out.dims == ("q", "b"), "new dims")
    else:
        out = patch.drop_coords("q")
        verify(x, out, table, {"a": "a", "b": "b", "w": "w"}, what="drop coordinate")
        x.check("q" not in out.coords.coord_map, "dropped")


@scenario(SCENARIOS, split={"form": 5, "which": 3})
def select_related(x):
    """Selecting on a non-dimensional coordinate, or on two dimensions at once, keeps whole matching cells."""
    form = x.small("form", 0, 4)
    which = x.small("which", 0, 2)
    patch, table = make(x, form, x.small("qform", 0, 3) if which == 0 or x.thorough else 2)
    if which == 0:
        lo, hi = val(x, "lo", "int"), val(x, "hi", "int")
        x.assume(lo <= hi)
        out = patch.select(q=(lo, hi))
        keep = {k: x.And(v["q"] >= lo, v["q"] <= hi) for k, v in table.items()}
    elif which == 1:
        m = [x.bool(f"m{i}") for i in range(NA)]
        n = [x.bool(f"n{i}") for i in range(NB)]
        out = patch.select(a=np.array(m), b=np.array(n))
        keep = {k: m[k // NB] and n[k % NB] for k in table}
    elif which == 2:
        lo, blo = val(x, "lo", "dt"), val(x, "blo", "flt")
        out = patch.select(a=(lo, ...), b=(..., blo))
        keep = {k: x.And(v["a"] >= lo, v["b"] <= blo) for k, v in table.items()}
    if out.data.size == 0:
        x.check(x.Not(x.Or(*keep.values())), "empty only when nothing matches")
        return
    labels = verify(x, out, table, complete=False, what="select")
    x.check(len(set(labels)) == len(labels), "no cell duplicated")
    x.check(x.And(*[x.Iff(k in labels, keep[k]) for k in table]), "exactly the matching cells are kept")


@scenario(SCENARIOS, split={"desc": 2})
def select_same_dim(x):
    """Selecting on two coordinates of one dimension keeps the samples that satisfy both."""
    step = step_of("dt", 1)
    ca = range_coord(x, "a", "dt", NA, -step if x.bool("desc") else step)
    q0 = val(x, "q", "int")
    q = arrange([q0, q0 + 3, q0 + 10], x.small("qform", 0, 3))
    data = labelled((NA, NB))
    patch = dc.Patch(data=data, dims=("a", "b"), coords={"a": ca, "b": np.array([0.0, 1.0]), "q": ("a", x.arr(q))})
    va = values_list(ca)
    lo, qhi = val(x, "lo", "dt"), val(x, "qhi", "int")
    # a selection that leaves nothing has no values for the second one to act on
    x.assume(x.Or(*[v >= lo for v in va]))
    out = patch.select(a=(lo, None), q=(None, qhi))
    keep = [x.And(va[i] >= lo, q[i] <= qhi) for i in range(NA)]
    labels = sorted(int(v) for v in np.asarray(out.data).ravel())
    x.check(x.And(*[x.Iff(i * NB in labels, keep[i]) for i in range(NA)]), "exactly the samples matching both are kept")
    x.check(all((i * NB in labels) == (i * NB + 1 in labels) for i in range(NA)), "whole samples are kept")
    if labels:
        rows = [int(v) // NB for v in np.asarray(out.data)[:, 0]]
        same_values(x, values_list(out.get_coord("a")), [va[i] for i in rows], "a keeps its samples")
        same_values(x, values_list(out.get_coord("q")), [q[i] for i in rows], "q keeps its samples")


@scenario(SCENARIOS, split={"form": 3})
def roll_dropna(x):
    """roll(update_coord=True) moves coordinate and data together; dropna removes whole samples."""
    form = x.small("form", 0, 2)
    step = step_of("dt", 1)
    if form < 2:
        ca = range_coord(x, "a", "dt", NA, -step if form else step)
    else:
        ca = get_coord(data=x.arr(mono_values(x, "a", "dt", 3)))
    cb = range_coord(x, "b", "flt", NB, 0.5)
    data = labelled((NA, NB))
    va, vb = values_list(ca), values_list(cb)
    table = {i * NB + j: {"a": va[i], "b": vb[j]} for i in range(NA) for j in range(NB)}
    names = {"a": "a", "b": "b"}
    if x.bool("drop"):
        bad = [[x.bool(f"n{i}{j}") for j in range(NB)] for i in range(NA)]
        how = x.choice("how", ("any", "all"))
        arr = np.where(np.array(bad), np.nan, data)
        patch = dc.Patch(data=arr, coords={"a": ca, "b": cb}, dims=("a", "b"))
        out = patch.dropna("a", how=how)
        f = any if how == "any" else all
        kept = [i for i in range(NA) if not f(bad[i])]
        same_values(x, values_list(out.get_coord("a")), [va[i] for i in kept], "dropna keeps the complete samples")
        got = np.asarray(out.data)
        want = arr[kept]
        x.check(got.shape == want.shape and bool(np.all((got == want) | (np.isnan(got) & np.isnan(want)))), "dropna keeps their data")
        return
    x.assume(form < 2)
    patch = dc.Patch(data=data, coords={"a": ca, "b": cb}, dims=("a", "b"))
    k = x.small("k", -4, 4)
    out = patch.roll(a=k, samples=True, update_coord=True)
    verify(x, out, table, names, what="roll with coordinates")
    plain = patch.roll(a=k, samples=True)
    same_values(x, values_list(plain.get_coord("a")), va, "roll leaves the coordinate alone by default")
    x.check(bool(np.all(np.asarray(plain.data) == np.roll(data, k, axis=0))), "roll moves the data")
