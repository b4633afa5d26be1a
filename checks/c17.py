"""C17: spool operations act on the list of patches and keep every sample they should."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from sx.harness import scenario

from .common import range_coord, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "memory spools of three patches (up to 3 x 2 cells; two touch, the third anywhere later) in every order; select by any range, slice, integer array, mask, sort, merge and chunk: single operations and pairs; "
    "splitting by size or count"
)
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats", "the distance between the second and third patch is one step or at least two"]
COVERS = ["trimmed", "dropped", "no patch", "between samples"]

PERMS = ((0, 1, 2), (1, 2, 0), (2, 1, 0), (1, 0, 2), (0, 2, 1), (2, 0, 1))
SIZES = (3, 2, 3)
NONE, SELECT, OPEN, SLICE, INDEX, MASK, SORT, MERGE, CUT = range(9)
SLICES = ((None, 2, None), (1, None, None), (-2, None, None), (0, 1, None), (None, None, 2), (None, None, -1), (2, 9, None))
INDICES = ((0, 1, 2), (1, 0), (2,), (0, 2), (2, 0))


class Piece:
    """Part of a source patch: limits and samples."""

    def __init__(self, lo, hi, samples):
        self.lo, self.hi, self.samples = lo, hi, samples

    def clip(self, lo, hi):
        if lo is not None and bool(self.hi < lo) or hi is not None and bool(self.lo > hi):
            return None
        l = lo if lo is not None and bool(lo > self.lo) else self.lo
        h = hi if hi is not None and bool(hi < self.hi) else self.hi
        if bool(l > h):
            return None
        return Piece(l, h, [s for s in self.samples if bool(s[0] >= l) and bool(s[0] <= h)])


class Item:
    """One patch of the spool: pieces joined in order, with its own limits."""

    def __init__(self, pieces, lo=None, hi=None):
        self.pieces = pieces
        self.lo = pieces[0].lo if lo is None else lo
        self.hi = pieces[-1].hi if hi is None else hi

    @property
    def samples(self):
        return [s for p in self.pieces for s in p.samples]

    def clip(self, lo, hi):
        ps = [q for q in (p.clip(lo, hi) for p in self.pieces) if q is not None]
        if not ps:
            return None
        whole = Piece(self.lo, self.hi, []).clip(lo, hi)
        return Item(ps, whole.lo, whole.hi) if whole is not None else None


def build(x, perm):
    step = step_of("dt", 1)
    gap = x.td("gap", 10**9 + 7, 10**13)
    x.assume(x.Or(gap == step, gap >= step * 2))
    start = val(x, "a", "dt")
    patches, items = [], []
    for i, n in enumerate(SIZES):
        t = get_coord(start=start, step=step, stop=start + step * n)
        lab = np.array([[100 * i + 10 * r + c for c in range(2)] for r in range(n)])
        patches.append(dc.Patch(data=lab, coords={"time": t, "distance": np.arange(2)}, dims=("time", "distance")))
        s = [(start + step * r, 10 * i + r) for r in range(n)]
        items.append(Item([Piece(s[0][0], s[-1][0], s)]))
        start = s[-1][0] + (step if i == 0 else gap)
    return dc.spool([patches[i] for i in perm]), [items[i] for i in perm]


def joined(items, step, length=None):
    """Blocks of touching patches, whole or cut into segments of length."""
    todo = list(items)
    todo.sort(key=lambda it: it.samples[0][1] if it.samples else -1)  # label order is time order
    blocks = []
    for it in todo:
        if blocks and not bool((it.lo - blocks[-1][-1].hi) * 2 > step * 3):
            blocks[-1].extend(it.pieces)
        else:
            blocks.append(list(it.pieces))
    if length is None:
        return [Item(b) for b in blocks]
    out = []
    for b in blocks:
        s, last = b[0].lo, b[-1].hi
        while bool(s + length - step <= last):
            e = s + length - step
            ps = [q for q in (p.clip(s, e) for p in b) if q is not None]
            out.append(Item(ps, s, e))
            s = s + length
    return out


def rows_of(p):
    q = p.transpose("time", "distance")
    out = []
    for r in q.data:
        vals = [int(v) for v in r]
        out.append(vals[0] // 10 if len(vals) == 2 and vals[1] == vals[0] + 1 and vals[0] % 10 == 0 else None)
    return out


def apply(x, op, tag, sp, items):
    """Apply one operation to the spool and to the list of items."""
    step = step_of("dt", 1)
    n = len(items)
    if op in (SELECT, OPEN):
        lo, hi = val(x, f"lo{tag}", "dt"), None
        if op == SELECT:
            hi = val(x, f"hi{tag}", "dt")
            x.assume(lo <= hi)
            sp = sp.select(time=(lo, hi))
        elif tag == 0:
            sp = sp.select(time=(lo, ...))
        else:
            lo, hi = None, lo
            sp = sp.select(time=(None, hi))
        out = [q for q in (it.clip(lo, hi) for it in items) if q is not None]
        x.cover("dropped", len(out) < n)
        x.cover("no patch", n > 0 and not out)
        x.cover("trimmed", any(len(a.samples) < 3 for a in out))
        x.cover("between samples", any(not a.samples for a in out))
        return sp, out
    if op == SLICE:
        a, b, c = SLICES[x.small(f"s{tag}", 0, len(SLICES) - 1)]
        return sp[a:b:c], items[a:b:c]
    if op == INDEX:
        idx = [i for i in INDICES[x.small(f"i{tag}", 0, len(INDICES) - 1)] if i < n]
        return sp[np.array(idx, dtype=int)], [items[i] for i in idx]
    if op == MASK:
        bits = x.small(f"m{tag}", 0, 2**n - 1) if n else 0
        m = [bool(bits >> i & 1) for i in range(n)]
        return sp[np.array(m, dtype=bool)], [it for it, k in zip(items, m) if k]
    if op == SORT:
        if not n:
            return sp, items
        return sp.sort("time"), sorted(items, key=lambda it: it.samples[0][1] if it.samples else -1)
    if op in (MERGE, CUT):
        x.assume(n > 0)
        x.assume(all(it.samples for it in items))
        length = None if op == MERGE else step * 2
        want = joined(items, step, length)
        sp = sp.chunk(time=length)
        # blocks come in no particular order: take the one found
        first = [rows_of(p)[0] for p in sp]
        x.check(sorted(first) == sorted(w.samples[0][1] for w in want), "chunks start where they should")
        want.sort(key=lambda w: first.index(w.samples[0][1]) if w.samples[0][1] in first else -1)
        return sp, want
    return sp, items


def compare(x, sp, items, msg):
    got = list(sp)
    x.check(len(sp) == len(items), msg + ": length")
    x.check(len(got) == len(items), msg + ": patches")
    for p, it in zip(got, items):
        rows = rows_of(p)
        x.check(rows == [s[1] for s in it.samples], msg + ": samples")
        if len(rows) == len(it.samples):
            same_values(x, values_list(p.get_coord("time")) if rows else [], [s[0] for s in it.samples], msg + ": times")
    if got:
        x.check(rows_of(sp[len(got) - 1]) == rows_of(got[-1]) and rows_of(sp[-1]) == rows_of(got[-1]), msg + ": indexing")
    return got


@scenario(SCENARIOS, split={"op": 8, "perm": 3})
def single(x):
    """Each operation keeps the listed patches, in order, with exactly the samples it should."""
    op, perm = 1 + x.small("op", 0, 7), PERMS[x.small("perm", 0, 2)]
    sp, items = build(x, perm)
    before = list(sp)
    new, want = apply(x, op, 0, sp, items)
    compare(x, new, want, "after the operation")
    compare(x, sp, items, "the original spool")
    x.check(all(a is b for a, b in zip(before, sp)), "original patches are untouched")


@scenario(SCENARIOS, split={"op1": 8, "op2": 8})
def pairs(x):
    """Two operations in a row act like the same operations on the list of patches."""
    op1, op2 = 1 + x.small("op1", 0, 7), 1 + x.small("op2", 0, 7)
    if op1 in (MERGE, CUT) and op2 in (MERGE, CUT):
        return  # chunking starts again from the sources
    if op1 in (SELECT, OPEN) and op2 == CUT:
        return  # the plan starts at the selected bound
    if op1 == op2 == SELECT and not x.thorough:
        return  # covered with open ranges
    perm = PERMS[x.small("perm", 0, 2)] if x.thorough else PERMS[1]
    sp, items = build(x, perm)
    sp, items = apply(x, op1, 0, sp, items)
    sp, items = apply(x, op2, 1, sp, items)
    compare(x, sp, items, "after both")


@scenario(SCENARIOS, split={"op": 9, "how": 2})
def split(x):
    """Splitting yields consecutive parts which together are the spool."""
    op = x.small("op", 0, 8)
    sp, items = build(x, PERMS[1])
    sp, items = apply(x, op, 0, sp, items)
    k = 1 + x.small("k", 0, 3)
    parts = list(sp.split(size=k)) if x.small("how", 0, 1) else list(sp.split(count=k))
    size = k if x.small("how", 0, 1) else -(-len(items) // k)
    x.check(len(parts) == (-(-len(items) // size) if size else 0), "number of parts")
    at = 0
    for part in parts:
        compare(x, part, items[at:at + size], "part")
        at += size


@scenario(SCENARIOS, split={"perm": 3})
def several_dimensions(x):
    """Ranges on both dimensions and a tag pattern apply together."""
    perm = PERMS[x.small("perm", 0, 2)]
    step = step_of("dt", 1)
    first = val(x, "a", "dt")
    tags = ("one", "two", "only")
    patches, infos = [], []
    for i, n in enumerate(SIZES):
        start = val(x, f"a{i}", "dt") if x.thorough else first + step * (2 * i)
        t = get_coord(start=start, step=step, stop=start + step * n)
        d = range_coord(x, f"d{i}", "flt", 2, 0.5)
        lab = np.array([[100 * i + 10 * r + c for c in range(2)] for r in range(n)])
        patches.append(dc.Patch(data=lab, coords={"time": t, "distance": d}, dims=("time", "distance"), attrs={"tag": tags[i]}))
        infos.append((i, values_list(t), values_list(d)))
    sp = dc.spool([patches[i] for i in perm])
    lo, dlo = val(x, "lo", "dt"), val(x, "dlo", "flt")
    out = sp.select(time=(lo, ...), distance=(None, dlo), tag="o*")
    want = []
    for i in perm:
        _, t, d = infos[i]
        if i == 1 or not bool(t[-1] >= lo) or not bool(d[0] <= dlo):
            continue
        ti = [r for r in range(len(t)) if bool(t[r] >= lo)]
        di = [c for c in range(2) if bool(d[c] <= dlo)]
        want.append([[100 * i + 10 * r + c for c in di] for r in ti])
    got = [[[int(v) for v in r] for r in p.data] for p in out]
    x.check(got == want, "exactly the cells inside both ranges")
    x.check(len(out) == len(want), "length")


@scenario(SCENARIOS, split={"op": 6})
def merge_options(x):
    """How a merge treats joints and conflicting attributes stays with the spool through later operations."""
    op = 1 + x.small("op", 0, 5)
    step = step_of("dt", 1)
    snap = bool(x.bool("snap"))
    gap = x.td("gap", 2 * 10**8, 3 * 10**9 // 2)
    x.assume(x.Or(gap * 64 >= step * 65, gap * 65 <= step * 64))
    start = val(x, "a", "dt")
    patches, samples = [], []
    for i, n in enumerate((3, 2, 2)):
        t = get_coord(start=start, step=step, stop=start + step * n)
        lab = np.array([[100 * i + 10 * r + c for c in range(2)] for r in range(n)])
        patches.append(dc.Patch(data=lab, coords={"time": t, "distance": np.arange(2)}, dims=("time", "distance"), attrs={"experiment_id": f"e{i}"}))
        samples.append([(start + step * r, 10 * i + r) for r in range(n)])
        # the second patch joins off the grid, the third starts a block of its own
        start = samples[-1][-1][0] + (gap if i == 0 else step * 5)
    sp = dc.spool(patches).chunk(time=None, snap_coords=snap, conflict="drop")
    first, second = samples[0] + samples[1], samples[2]
    items = [Item([Piece(first[0][0], first[-1][0], first)]), Item([Piece(second[0][0], second[-1][0], second)])]
    x.check(len(sp) == 2, "two blocks")
    lo = None
    if op in (SELECT, OPEN):
        lo = val(x, "lo", "dt")
        x.assume(lo <= first[1][0])  # both patches of the first block stay
        sp = sp.select(time=(lo, ...))
        items = [q for q in (it.clip(lo, None) for it in items) if q is not None]
    else:
        sp, items = apply(x, op, 0, sp, items)
    got = list(sp)
    x.check(len(got) == len(items), "patches")
    for p, it in zip(got, items):
        x.check(rows_of(p) == [s[1] for s in it.samples], "samples")
        if len(p.data) != len(it.samples):
            continue
        times = values_list(p.get_coord("time"))
        if not snap:
            same_values(x, times, [s[0] for s in it.samples], "unsnapped joints keep the times")
        else:
            x.check(p.get_coord("time").evenly_sampled, "snapped joints are evenly sampled")
