"""C02: relative, sample-based, mask and value-array selection; ordering by values."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from sx.harness import scenario

from .common import (
    KINDS, delta, free_values, in_range, index_list, labelled, mono_values, range_coord, same_values, step_of, val, values_list, zero_of,
)

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "coordinates of 1..4 samples (evenly sampled either direction, uneven, unsorted); sample bounds -6..6 or open; relative offsets any value in "
    "range; sample arrays of up to 3 entries in -5..5; value arrays of 2 arbitrary values; every boolean mask"
)
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats"]
COVERS = ["neg", "pos", "hit", "miss"]


def make(x, kind, form, n):
    """A coordinate of one of the forms: 0 ascending, 1 descending, 2 uneven, 3 uneven descending, 4 unsorted."""
    if form < 2:
        step = step_of(kind, 1)
        return range_coord(x, "start", kind, n, -step if form else step)
    if form < 4:
        return get_coord(data=x.arr(mono_values(x, "v", kind, n, desc=form == 3)))
    a, b, c = mono_values(x, "v", kind, 3)
    if form > 4:  # repeated values
        return get_coord(data=x.arr([[b, a, b], [a, a, b], [c, c, a, a]][form - 5]))
    return get_coord(data=x.arr([b, a, c]))


def rows(x, coord, how, n):
    """Apply how(patch) and coordinate-level indexer; return kept positions."""
    data = labelled((n, 2))
    patch = dc.Patch(data=data, coords={"a": coord, "b": get_coord(start=0, stop=2, step=1)}, dims=("a", "b"))
    out = how(patch)
    got = np.asarray(out.data)
    x.check(got.shape[0] == len(out.get_coord("a")), "data length equals coordinate length")
    x.check(got.shape[1:] == (2,), "other dimension kept")
    inds = [int(got[j, 0]) // 2 for j in range(got.shape[0])]
    x.check([int(got[j, 1]) for j in range(got.shape[0])] == [2 * i + 1 for i in inds], "rows kept whole")
    vals = values_list(coord)
    same_values(x, values_list(out.get_coord("a")), [vals[i] for i in inds], "coordinate values follow their rows")
    return inds


@scenario(SCENARIOS, split={"form": 5, "mode": 4})
def samples_range(x):
    """select(samples=True) keeps what slicing the samples keeps."""
    kind = "dt"
    form = x.small("form", 0, 4)
    n = 3 if form > 1 else x.small("n", 1, 4)
    coord = make(x, kind, form, n)
    mode = x.small("mode", 0, 3)
    i = x.int("i", -6, 6) if mode in (0, 1) else ...
    j = x.int("j", -6, 6) if mode in (0, 2) else None
    as_slice = x.bool("as_slice")
    arg = slice(None if i is ... else i, j) if as_slice else (i, j)
    inds = rows(x, coord, lambda p: p.select(a=arg, samples=True), n)
    lo = 0 if i is ... else x.ite(i < 0, i + n, i)
    hi = n if j is None else x.ite(j < 0, j + n, j)
    for k in range(n):
        x.check(x.Iff(k in inds, x.And(k >= lo, k < hi)), "sample range keeps positions i..j-1")
    x.check(inds == sorted(inds), "sample order kept")
    x.cover("neg", lo != i)


@scenario(SCENARIOS)
def one_sample(x):
    """A single integer selects that one sample."""
    n = x.small("n", 1, 4)
    coord = make(x, "flt", 0, n)
    i = x.int("i", -n, n - 1)
    inds = rows(x, coord, lambda p: p.select(a=i, samples=True), n)
    x.check(len(inds) == 1, "one sample")
    x.check(x.ite(i < 0, i + n, i) == inds[0], "the requested sample")


@scenario(SCENARIOS, split={"kind": 4, "form": 5})
def relative(x):
    """Offsets count from the start when >= 0 and from the end when negative."""
    kind = x.choice("kind", KINDS)
    form = x.small("form", 0, 4)
    n = 3
    coord = make(x, kind, form, n)
    vals = values_list(coord)
    zero = zero_of(kind)
    mode = x.small("mode", 0, 2)
    lo = hi = None
    span = 10**10 if kind in ("dt", "td") else 1000
    if mode != 2:
        o1 = delta(x, "o1", kind, -span, span)
        lo = (coord.min() + o1) if bool(o1 >= zero) else (coord.max() + o1)
    if mode != 1:
        o2 = delta(x, "o2", kind, -span, span)
        hi = (coord.min() + o2) if bool(o2 >= zero) else (coord.max() + o2)
    if mode == 0:
        x.assume(lo <= hi)
    arg = (o1 if mode != 2 else None, o2 if mode != 1 else ...)
    inds = rows(x, coord, lambda p: p.select(a=arg, relative=True), n)
    x.check(x.And(*[x.Iff(i in inds, in_range(x, vals[i], lo, hi)) for i in range(n)]), "relative range keeps in-range samples")
    x.check(inds == sorted(inds), "order kept")
    x.cover("pos", len(inds) > 0)


@scenario(SCENARIOS)
def mask(x):
    """A boolean array keeps exactly the marked samples."""
    form = x.small("form", 0, 4)
    n = 3
    coord = make(x, "dt", form, n)
    m = [x.bool(f"m{i}") for i in range(n)]
    inds = rows(x, coord, lambda p: p.select(a=np.array(m)), n)
    x.check(inds == [i for i in range(n) if m[i]], "mask keeps the marked samples")


@scenario(SCENARIOS, split={"kind": 4, "form": 8})
def value_array(x):
    """select(array of values) keeps the samples equal to one of them, in place."""
    kind = x.choice("kind", KINDS)
    form = x.small("form", 0, 7)
    n = 3
    coord = make(x, kind, form, n)
    vals = values_list(coord)
    n = len(vals)
    a, b = val(x, "a", kind), val(x, "b", kind)
    inds = rows(x, coord, lambda p: p.select(a=x.arr([a, b])), n)
    x.check(x.And(*[x.Iff(i in inds, x.Or(vals[i] == a, vals[i] == b)) for i in range(n)]), "value array keeps the equal samples")
    x.check(inds == sorted(inds), "order kept")
    x.cover("hit", len(inds) == 1)
    x.cover("miss", len(inds) == 0)


@scenario(SCENARIOS, split={"kind": 4, "form": 8})
def order_values(x):
    """order(array of values) lists the samples in the requested order."""
    kind = x.choice("kind", KINDS)
    form = x.small("form", 0, 7)
    n = 3
    coord = make(x, kind, form, n)
    vals = values_list(coord)
    a, b = val(x, "a", kind), val(x, "b", kind)
    n = len(vals)
    want = []
    for q in (a, b):
        want.append([i for i in range(n) if bool(vals[i] == q)])
    inds = rows(x, coord, lambda p: p.order(a=x.arr([a, b])), n)
    k = len(want[0])
    x.check([sorted(inds[:k]), sorted(inds[k:])] == want, "order lists the requested values in order, dropping absent ones")


@scenario(SCENARIOS, split={"form": 5})
def sample_arrays(x):
    """Integer arrays with samples=True: select keeps those positions, order lists them."""
    form = x.small("form", 0, 4)
    n = 3
    coord = make(x, "dt", form, n)
    k = x.small("k", 1, 3)
    use_order = x.bool("order")
    req = [x.small(f"r{i}", -n if use_order else 0, n - 1) for i in range(k)]
    arr = np.array(req)
    if use_order:
        inds = rows(x, coord, lambda p: p.order(a=arr, samples=True), n)
        x.check(inds == [r % n for r in req], "order by samples lists those samples")
    else:
        inds = rows(x, coord, lambda p: p.select(a=arr, samples=True), n)
        x.check(inds == [i for i in range(n) if i in req], "select by samples keeps those samples")
