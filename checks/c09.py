"""C09: binary operations between patches combine the cells with equal coordinates."""
from __future__ import annotations

import itertools

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.exceptions import IncompatiblePatchError, PatchBroadcastError, PatchCoordinateError
from sx.harness import scenario

from .common import labelled, mono_values, range_coord, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "2-D patches of up to 3 x 2 cells; coordinates of the shared dimensions even (both ways) at every offset of -3..3 steps or any other offset, uneven and "
    "unsorted with arbitrary values; either operand order; arbitrary cell values for the arithmetic itself"
)
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats"]
COVERS = ["overlap", "disjoint", "partial"]

OPS = {
    "add": (lambda a, b: a + b, np.add),
    "sub": (lambda a, b: a - b, np.subtract),
    "mul": (lambda a, b: a * b, np.multiply),
    "gt": (lambda a, b: a > b, np.greater),
    "le": (lambda a, b: a <= b, np.less_equal),
}


def grid(x, rows):
    return x.arr(rows) if x.symbolic else np.array(rows, dtype=float)


def sym_cells(x, tag, n, m):
    return [[x.flt(f"{tag}{i}{j}", -500, 500, 4) for j in range(m)] for i in range(n)]


@scenario(SCENARIOS, split={"op": 5, "form": 4})
def arithmetic(x):
    """Same coordinates: the operator is applied cell by cell, for patches, arrays and scalars on either side."""
    f, uf = x.choice("op", list(OPS.values()))
    a = sym_cells(x, "p", 2, 2)
    form = x.small("form", 0, 3)
    coords = {"a": np.array([1, 4]), "b": np.array([0.5, 0.25]), "q": ("a", np.array([7, 3]))}
    p = dc.Patch(data=grid(x, a), coords=coords, dims=("a", "b"))
    rev = x.bool("rev")
    if form == 0:
        b = sym_cells(x, "r", 2, 2)
        o = dc.Patch(data=grid(x, b), coords=coords, dims=("a", "b"))
        if x.bool("tr"):
            o = o.transpose()
        out = uf(p, o) if x.bool("uf") else f(p, o)
        if rev:
            out = f(o, p)
    elif form == 1:
        s = x.flt("s", -500, 500, 4)
        b = [[s, s], [s, s]]
        out = f(s, p) if rev else f(p, s)
    elif form == 2:
        b = sym_cells(x, "r", 2, 2)
        arr = grid(x, b)
        out = uf(arr, p) if rev else f(p, arr)
    else:
        r = [x.flt("r0", -500, 500, 4), x.flt("r1", -500, 500, 4)]
        b = [r, r]
        arr = grid(x, [r])
        out = uf(arr, p) if rev else f(p, arr)
    names = out.dims
    x.check(set(names) == {"a", "b"}, "dimensions kept")
    data = out.data if names == ("a", "b") else out.transpose("a", "b").data
    conds = []
    for i, j in itertools.product(range(2), range(2)):
        want = f(b[i][j], a[i][j]) if rev else f(a[i][j], b[i][j])
        got = data[i, j]
        conds.append(x.Iff(got, want) if f in (OPS["gt"][0], OPS["le"][0]) else got == want)
    x.check(x.And(*conds), "operator applied cell by cell")
    x.check([int(v) for v in out.get_array("a")] == [1, 4] and [int(v) for v in out.get_array("q")] == [7, 3], "coordinates kept")
    x.check(bool((-p).data[0, 0] == -a[0][0]), "negation")


@scenario(SCENARIOS)
def reflected(x):
    """Scalars on the left of every operator."""
    v = x.small("v", -4, 4)
    k = x.small("k", 1, 5)
    data = np.array([[3.0, 5.0], [7.0, 2.0]])
    p = dc.Patch(data=data, coords={"a": [1, 2], "b": [1, 2]}, dims=("a", "b"))
    pairs = [
        (k - p, k - data), (k / p, k / data), (k // p, k // data), (k**p, k**data), (k % p, k % data), (k + p, k + data), (k * p, k * data),
        (p - v, data - v), (p**k, data**k), (p % k, data % k), (p // k, data // k), (p / k, data / k), (k > p, k > data), (k <= p, k <= data),
        (p >= v, data >= v), (p < v, data < v),
    ]
    x.check(all(np.array_equal(np.asarray(o.data), w) for o, w in pairs), "operators match array arithmetic")


def shared(x, form):
    """Two coordinates for dimension a with possibly shared values; returns both with their values."""
    step = step_of("dt", 1)
    if form < 2:
        k = x.small("k", -3, 3)
        n, m = 3, x.small("m", 1, 3)
        c1 = range_coord(x, "a", "dt", n, -step if form else step)
        off = np.timedelta64(0, "ns") if x.bool("aligned") else x.td("off", 1, 10**9)
        start = values_list(c1)[0] + step * k + off
        c2 = range_coord(x, "b", "dt", m, step, start=start)
    else:
        v = mono_values(x, "a", "dt", 3)
        w = mono_values(x, "b", "dt", 2, uneven=False) if form == 2 else mono_values(x, "b", "dt", 3)
        if form == 3:
            w = [w[1], w[0], w[2]]
        c1 = get_coord(data=x.arr(v))
        c2 = get_coord(data=x.arr(w))
    return c1, c2


@scenario(SCENARIOS, split={"form": 4, "dims": 3})
def aligned(x):
    """Different coordinates: the result holds exactly the common samples, paired by coordinate value."""
    form = x.small("form", 0, 3)
    c1, c2 = shared(x, form)
    va, vb = values_list(c1), values_list(c2)
    n, m = len(va), len(vb)
    b = np.array([10, 20])
    d1 = labelled((n, 2)) + 1
    d2 = (labelled((m, 2)) + 1) * 100
    layout = x.small("dims", 0, 2)
    p1 = dc.Patch(data=d1, coords={"a": c1, "b": b}, dims=("a", "b"))
    p2 = dc.Patch(data=d2, coords={"a": c2, "b": b}, dims=("a", "b"))
    if layout == 1:
        p2 = p2.transpose("b", "a")
    if layout == 2:
        p2 = dc.Patch(data=d2[:, 0], coords={"a": c2}, dims=("a",))
    swap = x.bool("swap")
    out = (p2 + p1) if swap else (p1 + p2)
    out = out.transpose("a", "b")
    x.check(out.data.shape == (len(out.get_coord("a")), 2), "data matches the coordinates")
    common = {(i, j): va[i] == vb[j] for i in range(n) for j in range(m)}
    got = np.asarray(out.data)
    pairs = []
    for r in range(got.shape[0]):
        lo, hi = int(got[r, 0]) % 100, int(got[r, 0]) // 100
        i, j = (lo - 1) // 2, (hi - 1) // 2
        pairs.append((i, j))
        ok = int(got[r, 1]) == d1[i, 1] + (d2[j, 0] if layout == 2 else d2[j, 1])
        x.check(ok, "rows combined whole")
    x.check(len(set(pairs)) == len(pairs), "no row twice")
    x.check(x.And(*[x.Iff((i, j) in pairs, c) for (i, j), c in common.items()]), "exactly the rows with equal coordinates are combined")
    if pairs:
        same_values(x, values_list(out.get_coord("a")), [va[i] for i, _ in pairs], "rows keep their coordinate")
    x.cover("overlap", len(pairs) > 0)
    x.cover("disjoint", len(pairs) == 0)


@scenario(SCENARIOS, split={"dim": 2})
def reduced(x):
    """A dimension reduced to one sample broadcasts against the full one."""
    dim = x.choice("dim", ("a", "b"))
    a = sym_cells(x, "p", 3, 2)
    ca = range_coord(x, "a", "dt", 3, step_of("dt", 1))
    p = dc.Patch(data=grid(x, a), coords={"a": ca, "b": np.array([10, 20])}, dims=("a", "b"))
    mean = p.max(dim)
    rev = x.bool("rev")
    out = (mean - p) if rev else (p - mean)
    x.check(out.data.shape == (3, 2), "full shape")
    same_values(x, values_list(out.get_coord("a")), values_list(ca), "coordinate of the full patch")
    x.check([int(v) for v in out.get_array("b")] == [10, 20], "other coordinate of the full patch")
    top = [max_of(x, [a[i][j] for i in range(3)]) for j in range(2)] if dim == "a" else [max_of(x, a[i]) for i in range(3)]
    conds = []
    for i, j in itertools.product(range(3), range(2)):
        t = top[j] if dim == "a" else top[i]
        conds.append(out.data[i, j] == (t - a[i][j] if rev else a[i][j] - t))
    x.check(x.And(*conds), "every line combined with its reduced value")
    x.cover("partial")


def max_of(x, vals):
    best = vals[0]
    for v in vals[1:]:
        best = x.ite(v > best, v, best)
    return best


@scenario(SCENARIOS, split={"form": 3})
def two_dims(x):
    """Both dimensions offset: the common block."""
    step = step_of("dt", 1)
    form = x.small("form", 0, 2)
    k, m = x.small("k", -2, 2), x.small("m", -2, 2)
    ca = range_coord(x, "a", "dt", 3, step)
    cb = range_coord(x, "b", "int", 2, -3 if form == 1 else 3)
    sa, sb = values_list(ca)[0], values_list(cb)[0]
    ca2 = range_coord(x, "a2", "dt", 2, step, start=sa + step * k)
    cb2 = range_coord(x, "b2", "int", 2, 3, start=sb + 3 * m)
    d1, d2 = labelled((3, 2)) + 1, (labelled((2, 2)) + 1) * 100
    p1 = dc.Patch(data=d1, coords={"a": ca, "b": cb}, dims=("a", "b"))
    p2 = dc.Patch(data=d2, coords={"a": ca2, "b": cb2}, dims=("a", "b"))
    if form == 2:
        p2 = p2.transpose()
    out = (p1 + p2).transpose("a", "b")
    va, vb, va2, vb2 = (values_list(c) for c in (ca, cb, ca2, cb2))
    rows = [(i, j) for i in range(3) for j in range(2) if bool(va[i] == va2[j])]
    cols = [(i, j) for i in range(2) for j in range(2) if bool(vb[i] == vb2[j])]
    got = np.asarray(out.data)
    x.check(got.shape == (len(rows), len(cols)), "common block only")
    if got.size:
        oa, ob = values_list(out.get_coord("a")), values_list(out.get_coord("b"))
        for r in range(got.shape[0]):
            for c in range(got.shape[1]):
                lab = int(got[r, c])
                i1, j1 = divmod(lab % 100 - 1, 2)
                i2, j2 = divmod(lab // 100 - 1, 2)
                x.check(x.And(va[i1] == oa[r], va2[i2] == oa[r], vb[j1] == ob[c], vb2[j2] == ob[c]), "cells combined by coordinate")


@scenario(SCENARIOS, split={"form": 4})
def where(x):
    """where keeps the cells whose condition holds and replaces the others."""
    form = x.small("form", 0, 3)
    a = sym_cells(x, "p", 2, 2)
    b = sym_cells(x, "r", 2, 2)
    t = x.flt("t", -500, 500, 4)
    ca = range_coord(x, "a", "dt", 2, step_of("dt", 1))
    coords = {"a": ca, "b": np.array([3, 4])}
    p = dc.Patch(data=grid(x, a), coords=coords, dims=("a", "b"))
    other = dc.Patch(data=grid(x, b), coords=coords, dims=("a", "b"))
    cond = p > t
    if form == 0:
        out, alt = p.where(cond, other), b
    elif form == 1:
        out, alt = p.where(cond, t), [[t, t], [t, t]]
    elif form == 2:
        out, alt = p.where(cond.transpose(), other.transpose()), b
    else:
        out, alt = p.where((p.data > t), other), b
    out = out.transpose("a", "b")
    x.check(x.And(*[out.data[i, j] == x.ite(a[i][j] > t, a[i][j], alt[i][j]) for i in range(2) for j in range(2)]), "kept where the condition holds")
    same_values(x, values_list(out.get_coord("a")), values_list(ca), "coordinates kept")


@scenario(SCENARIOS, split={"which": 4})
def refused(x):
    """Operands that cannot be combined are refused instead of combined wrongly."""
    which = x.small("which", 0, 3)
    start = val(x, "start", "dt")
    p = dc.Patch(data=labelled((3, 2)), coords={"a": range_coord(x, "a", "dt", 3, step_of("dt", 1), start=start), "b": [1, 2]}, dims=("a", "b"))
    if which == 0:
        o = dc.Patch(data=labelled((3,)), coords={"z": [1, 2, 3]}, dims=("z",))
        x.check(x.raises(lambda: p + o, PatchCoordinateError), "no shared dimension")
    elif which == 1:
        x.check(x.raises(lambda: p + np.ones((2, 3, 2)), PatchBroadcastError), "array with more dimensions")
    elif which == 2:
        o = p.update_attrs(data_type="velocity")
        q = p.update_attrs(data_type="strain")
        x.check(x.raises(lambda: o + q, IncompatiblePatchError), "conflicting attributes")
    else:
        o = p.update_attrs(station="A", tag="x")
        q = p.update_attrs(station="B", tag="x")
        x.check(x.raises(lambda: o * q, IncompatiblePatchError), "conflicting attributes")
        out = o * o.update_attrs(history=["something"])
        x.check(out.attrs.station == "A" and out.attrs.tag == "x", "equal attributes are kept")


@scenario(SCENARIOS, split={"same": 2})
def attached(x):
    """Coordinates attached to an aligned dimension stay with their samples (or are dropped), never shifted."""
    v = mono_values(x, "v", "dt", 3)
    q0 = val(x, "q", "int")
    q = [q0, q0 + 10, q0 + 40]
    perm = x.choice("perm", list(itertools.permutations(range(3))))
    d1, d2 = labelled((3, 2)) + 1, (labelled((3, 2)) + 1) * 100
    w = [[q[i] * 2 + j for j in range(2)] for i in range(3)]
    extra = {"q": ("a", x.arr(q)), "w": (("a", "b"), x.arr(w))}
    p1 = dc.Patch(data=d1, coords={"a": x.arr(v), "b": [3, 4], **extra}, dims=("a", "b"))
    if x.bool("same"):
        p1 = p1.order(a=np.array(perm), samples=True)
        p2 = dc.Patch(data=d2, coords={"a": x.arr(v), "b": [3, 4]}, dims=("a", "b"))
    else:
        p2 = dc.Patch(data=d2[:2], coords={"a": x.arr([v[perm[0]], v[perm[1]]]), "b": [3, 4]}, dims=("a", "b"))
    out = (p1 + p2) if x.bool("order") else (p2 + p1)
    got = np.asarray(out.data)
    oa = values_list(out.get_coord("a"))
    for r in range(got.shape[0]):
        i = (int(got[r, 0]) % 100 - 1) // 2
        x.check(oa[r] == v[i], "rows keep their coordinate")
        if "q" in out.coords.coord_map:
            x.check(out.get_array("q")[r] == q[i], "attached coordinate stays with its sample")
        if "w" in out.coords.coord_map:
            x.check(x.And(*[out.get_array("w")[r, j] == w[i][j] for j in range(2)]), "attached 2-D coordinate stays with its sample")
