"""C04: start/stop/step coordinates behave as the sequence start + i*step."""
from __future__ import annotations

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from sx.harness import scenario

from .common import KINDS, delta, range_coord, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "1..5 samples (thorough 1..8); any start; any step of 1 ns..1e13 ns, 1..800, 1/8..100; both directions; slices with start/stop "
    "in -7..7 or open and step -2..3; index -n..n+1"
)
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats"]
COVERS = ["empty", "oob"]


def make(x, kind, desc, n, how=0):
    big = 10**13 if kind in ("dt", "td") else 800
    start = val(x, "start", kind)
    step = delta(x, "step", kind, 1, big)
    step = -step if desc else step
    stop = start + step * n
    if how == 0:
        coord = get_coord(start=start, stop=stop, step=step)
    elif how == 1:
        coord = get_coord(start=start, step=step, shape=n)
    elif how == 2:
        coord = get_coord(stop=stop, step=step, shape=(n,))
    else:
        coord = get_coord(min=start, max=stop, step=step)
    return coord, start, step


@scenario(SCENARIOS, split={"kind": 4, "desc": 2})
def sequence(x):
    """Values, length and extent."""
    kind = x.choice("kind", KINDS)
    desc = x.bool("desc")
    n = x.small("n", 1, 8 if x.thorough else 5)
    coord, start, step = make(x, kind, desc, n, x.small("how", 0, 3))
    want = [start + step * i for i in range(n)]
    x.check(len(coord) == n, "length")
    same_values(x, values_list(coord), want, "values are start + i*step")
    lo, hi = (want[-1], want[0]) if desc else (want[0], want[-1])
    x.check(x.And(coord.min() == lo, coord.max() == hi), "min and max are the extreme samples")
    x.check(bool(coord.sorted) != desc and bool(coord.reverse_sorted) == desc, "direction")
    x.check(coord.coord_range() == (hi - lo) + abs(step), "extended range is n steps")
    x.check(coord.coord_range(extend=False) == hi - lo, "range without extension")
    for i in range(-n, n):
        x.check(coord[i] == want[i], "indexing returns the i-th value")
    x.check(x.raises(lambda: coord[n], IndexError), "index past the end raises")
    x.cover("oob")


@scenario(SCENARIOS, split={"kind": 4, "desc": 2})
def slicing(x):
    """Slicing keeps the sliced samples, as numpy slicing of the values does."""
    kind = x.choice("kind", KINDS)
    desc = x.bool("desc")
    n = x.small("n", 1, 5 if x.thorough else 4)
    coord, start, step = make(x, kind, desc, n)
    want = [start + step * i for i in range(n)]
    b = n + 1
    a1 = x.small("a", -b, b + 1)
    a2 = x.small("b", -b, b + 1)
    a3 = x.choice("c", (None, -1, 2, -2, 3) if x.thorough else (None, -1, 2))
    a1 = None if a1 == b + 1 else a1
    a2 = None if a2 == b + 1 else a2
    new = coord[slice(a1, a2, a3)]
    pos = list(range(n))[slice(a1, a2, a3)]
    x.cover("empty", not pos)
    same_values(x, values_list(new), [want[i] for i in pos], "slice keeps the sliced values")


@scenario(SCENARIOS, split={"kind": 4})
def reverse(x):
    """sort(): both directions hold the same samples."""
    kind = x.choice("kind", KINDS)
    desc = x.bool("desc")
    rev = x.bool("rev")
    n = x.small("n", 1, 5 if x.thorough else 4)
    coord, start, step = make(x, kind, desc, n)
    want = [start + step * i for i in range(n)]
    new, ind = coord.sort(reverse=rev)
    pos = [int(i) for i in np.arange(n)[ind]]
    flip = desc != rev
    x.check(pos == (list(range(n))[::-1] if flip else list(range(n))), "sort indexer")
    same_values(x, values_list(new), [want[i] for i in pos], "sorted values")


@scenario(SCENARIOS, split={"kind": 4})
def summary(x):
    """to_summary().to_coord() gives the coordinate back; equality is by content."""
    kind = x.choice("kind", KINDS)
    desc = x.bool("desc")
    n = x.small("n", 1, 5 if x.thorough else 4)
    coord, start, step = make(x, kind, desc, n)
    s = coord.to_summary()
    x.check(x.And(s.min == coord.min(), s.max == coord.max(), s.step == step), "summary holds min, max, step")
    back = s.to_coord()
    same_values(x, values_list(back), values_list(coord), "summary round trip")
    x.check(len(back) == n, "summary round trip length")
    other, _, _ = coord.new(), 0, 0
    x.check(other == coord, "copy equals original")
    moved = get_coord(start=start + step, stop=start + step * (n + 1), step=step)
    x.check(not bool(moved == coord), "shifted coordinate differs")


@scenario(SCENARIOS, split={"kind": 4})
def array_index(x):
    """Indexing with integer arrays or masks picks those samples."""
    kind = x.choice("kind", KINDS)
    desc = x.bool("desc")
    n = 3
    coord, start, step = make(x, kind, desc, n)
    want = [start + step * i for i in range(n)]
    if x.bool("mask"):
        m = [x.bool(f"m{i}") for i in range(n)]
        pos = [i for i in range(n) if m[i]]
        new = coord[np.array(m)]
    else:
        pos = [x.small(f"p{i}", -n, n - 1) for i in range(x.small("k", 1, 2))]
        new = coord[np.array(pos)]
    same_values(x, values_list(new), [want[i] for i in pos], "array indexing")


@scenario(SCENARIOS, split={"kind": 4, "desc": 2})
def unaligned_stop(x):
    """A stop between samples is rounded up to a whole number of steps."""
    kind = x.choice("kind", ("dt", "td", "flt", "int"))
    desc = x.bool("desc")
    n = x.small("n", 1, 4)
    big = 10**13 if kind in ("dt", "td") else 800
    start = val(x, "start", kind)
    step = delta(x, "step", kind, 1, big)
    rem = delta(x, "rem", kind, 1, big)
    x.assume(x.And(rem <= step, rem * 10 >= step))
    sign = -1 if desc else 1
    coord = get_coord(start=start, stop=start + (step * (n - 1) + rem) * sign, step=step * sign)
    x.check(len(coord) == n, "length counts the last partial step")
    same_values(x, values_list(coord), [start + step * (sign * i) for i in range(n)], "values are start + i*step")
