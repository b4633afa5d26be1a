"""C15: chunking a spool cuts every contiguous block into the requested segments."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.exceptions import ChunkError, ParameterError
from dascore.utils.chunk import get_intervals
from sx.harness import scenario

from .common import KINDS, range_coord, same_values, step_of, val, values_list, zero_of

SCENARIOS = {}
OPTIONS = {}
BOUNDS = "blocks of up to 8 samples (plan) and one or two patches of 3 x 2 cells in either order (data); segment lengths of two samples or more, any overlap and remainder"
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats", "patches of one block are exactly one step apart; other blocks are at least two steps away"]
COVERS = ["several", "partial", "too long", "one block", "two blocks"]


@scenario(SCENARIOS, split={"kind": 4, "keep": 2})
def plan(x):
    """Segments start every length - overlap, last length - step, stay inside the block and none that fits is missing."""
    kind, keep = KINDS[x.small("kind", 0, 3)], bool(x.small("keep", 0, 1))
    n = 1 + x.small("n", 0, 9 if x.thorough else 7)
    step = step_of(kind, 1)
    start = val(x, "a", kind)
    stop = start + step * (n - 1)
    zero = zero_of(kind)
    if kind in ("dt", "td"):
        length, over = x.td("len", 2 * 10**9 + 14, 10**10 * 2), x.td("over", 0, 10**10 * 2)
    elif kind == "int":
        length, over = x.npint("len", 6, 40), x.npint("over", 0, 40)
    else:
        length, over = x.flt("len", 0.5, 4, 8), x.flt("over", 0, 4, 8)
    x.assume(over * 3 <= length * 2 if kind != "dt" and kind != "td" else over + over + over <= length + length)
    try:
        out = get_intervals(start, stop, length, overlap=over, step=step, keep_partials=keep)
    except ChunkError:
        x.check(x.And(not keep, stop - start + step < length), "refused only when the block is shorter than the segment")
        x.cover("too long")
        return
    x.check(x.Or(keep, stop - start + step >= length), "segment longer than the block is refused")
    m = len(out)
    starts, ends = [out[i, 0] for i in range(m)], [out[i, 1] for i in range(m)]
    stride = length - over
    conds = []
    for i in range(m):
        conds.append(starts[i] == start + stride * i)
        full = ends[i] == starts[i] + length - step
        conds.append(x.And(full, ends[i] <= stop) if not keep else x.Or(x.And(full, ends[i] <= stop), x.And(ends[i] == stop, starts[i] + length - step > stop)))
        conds.append(starts[i] < ends[i])
    x.check(x.And(*conds), "segments are where they should be")
    nxt = start + stride * m
    x.check(nxt + step > stop if keep else nxt + length - step > stop, "no segment is missing")
    x.cover("several", m > 1)
    x.cover("partial", x.And(keep, m > 1, ends[m - 1] - starts[m - 1] < length - step) if m else False)


@scenario(SCENARIOS)
def bad_requests(x):
    """Overlaps longer than the segment and lengths that are not positive are refused."""
    start = val(x, "a", "dt")
    step = step_of("dt", 1)
    length, over = x.td("len", 3 * 10**10, 4 * 10**11), x.td("over", 1, 8 * 10**11)
    x.assume(x.Or(over > length, over + over <= length))
    try:
        get_intervals(start, start + step * 100, length, overlap=over, step=step)
    except ParameterError:
        x.check(over > length, "refused only when the overlap exceeds the segment")
    except ChunkError:
        x.check(length > step * 101, "nothing else is refused")
    else:
        x.check(over <= length, "a longer overlap is refused")


def block(x, order, gap, nd=2):
    """One or two patches along time with labelled cells; all samples as (value, row labels) by block."""
    step = step_of("dt", 1)
    sizes = (3, 3) if gap is not None else (4,)
    start = val(x, "a", "dt")
    patches, samples = [], []
    for i, n in enumerate(sizes):
        t = get_coord(start=start, step=step, stop=start + step * n)
        lab = np.array([[100 * i + 10 * r + c for c in range(nd)] for r in range(n)])
        patches.append(dc.Patch(data=lab, coords={"time": t, "distance": np.arange(nd)}, dims=("time", "distance")))
        samples.append([(start + step * r, [100 * i + 10 * r + c for c in range(nd)]) for r in range(n)])
        start = start + step * (n - 1) + (gap if gap is not None else step)
    if gap is None:
        blocks = samples
    elif bool(gap == step):
        blocks = [samples[0] + samples[1]]
    else:
        blocks = samples
    if order:
        patches = patches[::-1]
    return patches, blocks


def check_patch(x, p, want, msg):
    """The patch holds exactly the wanted samples."""
    tr = p.transpose("time", "distance")
    rows = [[int(v) for v in r] for r in tr.data]
    x.check(rows == [w[1] for w in want], msg + ": cells")
    same_values(x, values_list(tr.get_coord("time")), [w[0] for w in want], msg + ": times")


@scenario(SCENARIOS, split={"two": 2, "order": 2, "over": 2, "keep": 2})
def segments(x):
    """Every chunk holds the block's samples inside its interval, at their own times."""
    two, order, over, keep = x.small("two", 0, 1), x.small("order", 0, 1), x.small("over", 0, 1), bool(x.small("keep", 0, 1))
    step = step_of("dt", 1)
    gap = None
    if two:
        gap = x.td("gap", 10**9 + 7, 10**14)
        x.assume(x.Or(gap == step, gap >= step * 2))
    elif order:
        return
    patches, blocks = block(x, order, gap)
    length = x.td("len", 2 * 10**9 + 14, 5 * 10**9)
    overlap = step if over else None
    o = step if over else step * 0
    want = []
    for b in blocks:
        first, last = b[0][0], b[-1][0]
        s = first
        while True:
            e = s + length - step
            if not bool(e <= last):
                if not keep or not bool(s + step <= last):
                    break
                e = last
            want.append([w for w in b if bool(w[0] >= s) and bool(w[0] <= e)])
            s = s + length - o
    try:
        out = dc.spool(patches).chunk(time=length, overlap=overlap, keep_partial=keep)
    except ChunkError:
        x.check(not want, "refused only when no segment fits")
        return
    got = list(out)
    x.check(len(got) == len(want), "number of segments")
    x.check(len(out) == len(got), "length of the spool")
    # separate blocks come in no particular order
    got = sorted(got, key=lambda p: int(p.transpose("time", "distance").data[0][0]))
    for i, (p, w) in enumerate(zip(got, want)):
        check_patch(x, p, w, f"segment {i}")
    x.cover("one block", two and len(blocks) == 1)
    x.cover("two blocks", len(blocks) == 2)


@scenario(SCENARIOS, split={"over": 2, "keep": 2})
def reversed_segments(x):
    """A reverse sorted patch is cut into the same intervals of values, each in the patch's order."""
    over, keep = x.small("over", 0, 1), bool(x.small("keep", 0, 1))
    step = step_of("dt", 1)
    n = 5
    start = val(x, "a", "dt")
    t = get_coord(start=start, step=-step, stop=start - step * n)
    lab = np.array([[10 * r + c for c in range(2)] for r in range(n)])
    p = dc.Patch(data=lab, coords={"time": t, "distance": np.arange(2)}, dims=("time", "distance"))
    length = x.td("len", 2 * 10**9 + 14, 6 * 10**9)
    stride = length - step if over else length
    samples = [(start - step * i, [10 * i, 10 * i + 1]) for i in range(n)]
    s, want = samples[-1][0], []
    while True:
        e = s + length - step
        if not bool(e <= start):
            if not keep or not bool(s + step <= start):
                break
            e = start
        want.append([w for w in samples if bool(w[0] >= s) and bool(w[0] <= e)])
        s = s + stride
    try:
        out = list(dc.spool([p]).chunk(time=length, overlap=step if over else None, keep_partial=keep))
    except ChunkError:
        x.check(not want, "refused only when no segment fits")
        return
    x.check(len(out) == len(want), "number of segments")
    for i, (q, w) in enumerate(zip(out, want)):
        check_patch(x, q, w, f"segment {i}")
