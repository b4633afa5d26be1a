"""C16: merging a spool joins contiguous patches into blocks that cover every sample once."""
from __future__ import annotations

import itertools
import warnings

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.exceptions import CoordMergeError
from sx.harness import scenario

from .common import same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "two or three patches of up to 4 x 2 cells in any order along time or distance, at any distance from one another (apart, touching, overlapping, covering), on or off a common grid; "
    "tolerances 1.5 (default) and 3.5 steps"
)
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats", "off-grid joints differ from one step by 1/64 or more (nearly even values are snapped by design)"]
COVERS = ["apart", "touching", "overlapping", "covered", "off grid", "tolerated gap", "kept values"]


def make(x, dim, start, n, label, kind, other=None, extra=None, step=None, **attrs):
    step = step_of(kind, 1) if step is None else step
    t = get_coord(start=start, step=step, stop=start + step * n)
    lab = np.array([[100 * label + 10 * r + c for c in range(2)] for r in range(n)])
    od = "distance" if dim == "time" else "time"
    coords = {dim: t, od: np.arange(2) if other is None else other}
    if extra is not None:
        coords["q"] = (dim, np.array([1000 * label + r for r in range(n)]))
    return dc.Patch(data=lab, coords=coords, dims=(dim, od), attrs=attrs)


def rows_of(p, dim, tr=False):
    """Rows as (patch, sample) labels; other cells of a row have to belong to it."""
    od = [d for d in p.dims if d != dim][0]
    q = p.transpose(dim, od)
    out = []
    for r in q.data:
        vals = [int(v) for v in r]
        out.append((vals[0] // 100, vals[0] % 100 // 10) if vals[1] == vals[0] + 1 and vals[0] % 10 == 0 else None)
    return out


@scenario(SCENARIOS, split={"dim": 2, "perm": 3})
def on_grid(x):
    """Patches on one grid merge exactly when they touch or overlap; every covered sample appears once, in order, from a patch that has it."""
    dim = ("time", "distance")[x.small("dim", 0, 1)]
    kind = "dt" if dim == "time" else "flt"
    perm = x.small("perm", 0, 2)
    step = step_of(kind, 1)
    base = val(x, "base", kind)
    sizes = (3, 2, 4) if perm == 0 else (1, 4, 2) if perm == 1 else (2, 2, 3)
    lim = 1000
    ks = [0, x.int("k1", -lim, lim), x.int("k2", -lim, lim)]
    firsts = [base + step * k for k in ks]
    patches = [make(x, dim, f, n, i, kind) for i, (f, n) in enumerate(zip(firsts, sizes))]
    out = list(dc.spool(patches).chunk(**{dim: None}))
    # blocks of the union, by comparing starts and ends
    order = []
    for i in range(3):
        j = 0
        while j < len(order) and bool(ks[order[j]] <= ks[i]):
            j += 1
        order.insert(j, i)
    blocks = []
    for i in order:
        first, last = ks[i], ks[i] + sizes[i] - 1
        if blocks and bool(first <= blocks[-1][1] + 1):
            if bool(last > blocks[-1][1]):
                blocks[-1][1] = last
            blocks[-1][2].append(i)
        else:
            blocks.append([first, last, [i]])
    x.check(len(out) == len(blocks), "number of blocks")
    for p in out:
        rows = rows_of(p, dim)
        x.check(None not in rows and len(rows) > 0, "rows stay together")
        if None in rows or not rows:
            continue
        first, last, members = [b for b in blocks if rows[0][0] in b[2]][0]
        at = [ks[i] + r for i, r in rows]
        x.check(x.And(at[0] == first, at[-1] == last, *[v == u + 1 for u, v in zip(at, at[1:])]), "every covered sample once and in order")
        same_values(x, values_list(p.get_coord(dim)), [base + step * (first + r) for r in range(len(rows))], "each at its own value")
        # samples of one patch are not interrupted by those of another one
        seq = [i for i, _ in rows]
        x.check(all(a == b_ or b_ not in seq[: n + 1] for n, (a, b_) in enumerate(zip(seq, seq[1:]))), "patches follow one another")
        x.cover("covered", len(set(seq)) < len(members))
        x.cover("overlapping", len(seq) < sum(sizes[i] for i in members))
        x.cover("touching", len(members) > 1 and len(seq) == sum(sizes[i] for i in members))
    x.cover("apart", len(blocks) > 1)


@scenario(SCENARIOS, split={"dim": 2, "snap": 2, "tol": 2, "order": 2})
def off_grid(x):
    """A patch anywhere relative to another one merges within the tolerance; its samples past the first patch's end are kept, the others dropped."""
    dim = ("time", "distance")[x.small("dim", 0, 1)]
    kind = "dt" if dim == "time" else "flt"
    snap, tol, order = bool(x.small("snap", 0, 1)), (1.5, 3.5)[x.small("tol", 0, 1)], x.small("order", 0, 1)
    step = step_of(kind, 1)
    n, m = 3, 4
    a = val(x, "a", kind)
    if kind == "dt":
        d = x.td("d", 0, 10 * 10**9)
    else:
        d = x.flt("d", 0, 4, 128)
    x.assume(d > step * 0)
    b = a + d
    end = a + step * (n - 1)
    for i in range(m):
        g = b + step * i - end
        x.assume(x.Or(g == step, g * 64 > step * 65, g * 64 < step * 63))
    x.assume(x.Or(d + d > step * 9, d + d < step * 9))
    p, q = make(x, dim, a, n, 0, kind, extra=1), make(x, dim, b, m, 1, kind, extra=1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = list(dc.spool([q, p] if order else [p, q]).chunk(**{dim: None}, snap_coords=snap, tolerance=tol, conflict="drop"))
    gap = b - end
    apart = bool(gap * 2 > step * int(2 * tol))
    if apart:
        x.check(len(out) == 2, "a gap beyond the tolerance separates")
        x.cover("apart")
        for r in out:
            x.check(r.shape == (3, 2) or r.shape == (4, 2), "blocks untouched")
        return
    x.check(len(out) == 1, "within the tolerance patches merge")
    if len(out) != 1:
        return
    r = out[0]
    rows = rows_of(r, dim)
    x.check(None not in rows, "rows stay together")
    x.check(rows[:n] == [(0, i) for i in range(n)], "the first patch is kept as it is")
    tail = rows[n:]
    x.check(tail == [(1, i) for i in range(m - len(tail), m)], "the end of the second follows")
    times = [b + step * i for i in range(m)]
    for i in range(m):
        kept = (1, i) in tail
        x.check(x.Implies(times[i] <= end, not kept), "no sample before the end of the first patch")
        x.check(x.Implies(times[i] >= end + step, kept), "no sample past the first patch is lost")
    truth = [a + step * i for i in range(n)] + [times[i] for _, i in tail]
    got = values_list(r.get_coord(dim))
    x.check(len(got) == len(truth), "one value per sample")
    if snap and len(truth) == len(got):
        x.check(x.And(got[0] == a, *[g2 > g1 for g1, g2 in zip(got, got[1:])]), "starts with the first sample and increases")
        x.check(x.And(*[x.And(g - t < step * 3, t - g < step * 3) for g, t in zip(got, truth)]), "stays close to the original values")
    else:
        same_values(x, got, truth, "original values")
        x.cover("kept values", gap != step)
    x.cover("off grid", x.And(d * 4 > step, d * 2 < step))
    x.cover("tolerated gap", gap > step)


@scenario(SCENARIOS, split={"why": 4})
def not_merged(x):
    """Touching patches which differ in tag, sampling, dimension order or the other coordinate are not merged into one."""
    why = x.small("why", 0, 3)
    step = step_of("dt", 1)
    a = val(x, "a", "dt")
    n = 3
    b = a + step * n
    p = make(x, "time", a, n, 0, "dt")
    if why == 0:
        q = make(x, "time", b, n, 1, "dt", tag="other")
    elif why == 1:
        q = make(x, "time", b, n, 1, "dt", step=step * 2)
    elif why == 2:
        q = make(x, "time", b, n, 1, "dt").transpose("distance", "time")
    else:
        q = make(x, "time", b, n, 1, "dt", other=np.array([x.npint("o", 2, 50), 60]) if not x.symbolic else x.arr([x.npint("o", 2, 50), 60]))
    try:
        out = list(dc.spool([p, q]).chunk(time=None))
    except CoordMergeError:
        x.check(why == 3, "refused")
        return
    x.check(len(out) == 2, "kept apart")
    for r, s, st in zip(out, (a, b), (step, step * 2 if why == 1 else step)):
        same_values(x, values_list(r.get_coord("time")), [s + st * i for i in range(n)], "unchanged")


@scenario(SCENARIOS, split={"perm": 12})
def samplings(x):
    """Among touching patches of several samplings, in any order, exactly those of one sampling merge."""
    perm = x.small("perm", 0, 11)
    orders = [o for o in itertools.permutations((0, 1, 2, 3)) if o.index(0) < o.index(1)]
    dim = ("time", "distance")[perm % 2]
    kind = "dt" if dim == "time" else "flt"
    unit = step_of(kind, 1)
    base = val(x, "base", kind)
    n = 2
    factor = (2, 2, 1, 3)
    # 0 and 1 touch, 2 and 3 start where they please relative to them
    starts = [base, base + unit * 2 * n, base + unit * x.int("k2", -8, 8), base + unit * x.int("k3", -8, 8)]
    made = [make(x, dim, s, n, i, kind, step=unit * f) for i, (s, f) in enumerate(zip(starts, factor))]
    out = list(dc.spool([made[i] for i in orders[perm]]).chunk(**{dim: None}))
    rows = sorted(rows_of(p, dim) for p in out)
    x.check(rows == [[(0, 0), (0, 1), (1, 0), (1, 1)], [(2, 0), (2, 1)], [(3, 0), (3, 1)]], "merged by sampling")
    for p in out:
        i = rows_of(p, dim)[0][0]
        same_values(x, values_list(p.get_coord(dim)), [starts[i] + unit * factor[i] * r for r in range(len(rows_of(p, dim)))], "each at its own value")


@scenario(SCENARIOS, split={"why": 4, "at": 3})
def bystander(x):
    """Whether two patches merge does not depend on patches of another kind between, before or over them."""
    why, at = x.small("why", 0, 3), x.small("at", 0, 2)
    unit = step_of("dt", 1)
    base = val(x, "base", "dt")
    n, m = 3, 6
    k1, k2 = x.int("k1", 3, 9), x.int("k2", -6, 10)
    p = make(x, "time", base, n, 0, "dt", tag="one")
    q = make(x, "time", base + unit * k1, n, 1, "dt", tag="one")
    s = base + unit * k2
    if why == 0:
        r = make(x, "time", s, m, 2, "dt", tag="two")
    elif why == 1:
        r = make(x, "time", s, m, 2, "dt", tag="one", step=unit * 2)
    elif why == 2:
        r = make(x, "time", s, m, 2, "dt", tag="one").transpose("distance", "time")
    else:
        r = make(x, "time", s, m, 2, "dt", tag="one", network="UU")
    three = [p, q]
    three.insert(at, r)
    length = x.bool("length")
    out = list(dc.spool(three).chunk(time=unit * 6 if length else None, **({"keep_partial": True} if length else {})))
    got = sorted(rows_of(o, "time") for o in out)
    mine = [g for g in got if g[0][0] < 2]
    theirs = [g for g in got if g[0][0] == 2]
    joined = [[(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2)]] if bool(k1 == n) else [[(0, 0), (0, 1), (0, 2)], [(1, 0), (1, 1), (1, 2)]]
    if length:
        # six steps: all of the two, and of the other one unless its step is twice as long
        x.check(mine == joined, "pieces of the two")
        x.check(theirs == ([[(2, i) for i in range(3)], [(2, i) for i in range(3, 6)]] if why == 1 else [[(2, i) for i in range(6)]]), "pieces of the other one")
    else:
        x.check(mine == joined, "merged exactly when they touch")
        x.check(theirs == [[(2, i) for i in range(m)]], "the other one is as it was")
    for o in out:
        rows = rows_of(o, "time")
        start, st = ((base, unit), (base + unit * k1, unit), (s, unit * 2 if why == 1 else unit))[rows[0][0]]
        if rows[0][0] == 0 and bool(k1 == n):
            same_values(x, values_list(o.get_coord("time")), [base + unit * (i * n + j) for i, j in rows], "each at its own value")
        else:
            same_values(x, values_list(o.get_coord("time")), [start + st * j for _, j in rows], "each at its own value")


@scenario(SCENARIOS, split={"dim": 2, "form": 2})
def reversed_pieces(x):
    """Reverse sorted patches are never mixed with others, wherever they lie; every cell stays at its value."""
    dim, form = ("time", "distance")[x.small("dim", 0, 1)], x.small("form", 0, 1)
    kind = "dt" if dim == "time" else "flt"
    unit = step_of(kind, 1)
    base = val(x, "base", kind)
    k = x.int("k", -8, 8)
    firsts = [base, base + unit * k]
    steps = [-unit, (-unit, -unit * 2, unit)[x.small("other", 0, 2)]]
    made = [make(x, dim, f, n, i, kind, step=s) for i, (f, n, s) in enumerate(zip(firsts, (4, 3), steps))]
    out = list(dc.spool(made[::-1] if form else made).chunk(**{dim: None}))
    rows = sorted(rows_of(p, dim) for p in out)
    # joined or not: all samples are there, in the order of their values, at their own values
    x.check(len(out) == 2 and rows == [[(0, i) for i in range(4)], [(1, i) for i in range(3)]], "kept as they are")
    for p in out:
        i = rows_of(p, dim)[0][0]
        same_values(x, values_list(p.get_coord(dim)), [firsts[i] + steps[i] * r for r in range((4, 3)[i])], "each at its own value")
