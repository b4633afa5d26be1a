"""C20: index queries, filters and directory spools find exactly the matching patches."""
from __future__ import annotations

import os
import tempfile
from pathlib import Path
from unittest import mock

import numpy as np
import pandas as pd

import dascore as dc
from dascore.core.coords import get_coord
from dascore.clients.dirspool import DirectorySpool
from dascore.io.core import FiberIO
from dascore.io.indexer import AbstractIndexer, DirectoryIndexer
from dascore.utils.misc import _iter_filesystem
from dascore.utils.pd import filter_df
from sx.harness import scenario

from . import c17
from .common import step_of, val, values_list

SCENARIOS = {}
OPTIONS = {"witnesses": {"quick": 16, "thorough": 60}}
BOUNDS = (
    "indexes of up to three patches (any times, up to an hour long), two queries in a row of a closed or open range each, attribute conditions by equality, pattern and list; filters on tables of three rows, one possibly without limits; "
    "directory spools of three files and the operations of C17 singly and in pairs"
)
ASSUMPTIONS = [
    "while times are symbolic the index file is a table whose conditions are evaluated row by row, and a file reader is one that returns the patch trimmed to the ranges it is given; path witnesses are replayed with real HDF5 indexes and real DASDAE files",
]
COVERS = ["trimmed", "dropped", "no patch", "between samples"]

TAGS = ("one", "two", "only")
HOUR = 3600 * 10**9


def make_rows(x, n, wide=False):
    """n patches with symbolic limits, and the table a scan gives for them."""
    rows = []
    for i in range(n):
        lo = val(x, f"t{i}", "dt")
        hi = lo + x.td(f"len{i}", 0, HOUR)
        rows.append((lo, hi, TAGS[i]))
    return rows


def scan_table(rows):
    return pd.DataFrame(
        [
            dict(
                time_min=lo, time_max=hi, time_step=np.timedelta64(10**6, "ns"), tag=tag, path=f"/data/{tag}.h5",
                dims="time,distance", file_format="DASDAE", file_version="1",
            )
            for lo, hi, tag in rows
        ]
    )


def evaluate(where, row):
    """Whether one stored row satisfies a pytables condition."""
    from sx.sym import _TOKENS

    if where is None:
        return True
    if isinstance(where, (list, tuple)):
        return all(evaluate(w, row) for w in where)
    names = dict(_TOKENS)
    names.update(row)
    text = where.replace("&", " and ").replace("|", " or ").replace("~", " not ")
    return bool(eval(text, {"__builtins__": {}}, names))


class Store:
    """Stands for the index file while times are symbolic: keeps the encoded table."""

    def __init__(self, table):
        self.table = table

    def read_hdf(self, path, key, where=None, **kwargs):
        keep = [evaluate(where, {c: row[c] for c in ("time_min", "time_max")}) for _, row in self.table.iterrows()]
        return self.table[np.array(keep, dtype=bool)].copy()


def with_index(x, rows, body):
    """Run body(indexer) for an index which lists the rows."""
    with tempfile.TemporaryDirectory() as tmp:
        ind = DirectoryIndexer(tmp)
        table = scan_table(rows)
        if not x.symbolic:
            ind._index_table.write_update(table, base_path="/data")
            return body(ind)
        Path(ind.index_path).touch()
        store = Store(ind._index_table.encode_table(table.copy(), path="/data"))
        with mock.patch.object(pd, "read_hdf", store.read_hdf):
            return body(ind)


def query(x, i, mode):
    lo = val(x, f"lo{i}", "dt") if mode != 2 else None
    hi = val(x, f"hi{i}", "dt") if mode != 1 else None
    if mode == 0:
        x.assume(lo <= hi)
    return lo, hi


def matches(rows, lo, hi, tag=None):
    out = []
    for a, b, t in rows:
        if (lo is None or bool(b >= lo)) and (hi is None or bool(a <= hi)) and (tag is None or t in tag):
            out.append(t)
    return out


@scenario(SCENARIOS, split={"m0": 3, "m1": 3})
def index_queries(x):
    """Each of two queries in a row finds the patches which reach into the range, whatever is cached."""
    rows = make_rows(x, 2 if x.thorough else 1)
    m0, m1 = x.small("m0", 0, 2), x.small("m1", 0, 2)
    q0 = query(x, 0, m0)
    q1 = query(x, 1, m1)

    def body(ind):
        for q in (q0, q1):
            got = ind.get_contents(time=q)
            x.check(sorted(got["tag"]) == sorted(matches(rows, *q)), "exactly the patches in the range")
            for _, row in got.iterrows():
                a, b, t = rows[TAGS.index(row["tag"])]
                x.check(x.And(row["time_min"] == a, row["time_max"] == b), "times as stored")
                x.check(row["path"] == f"{t}.h5", "path relative to the directory")

    with_index(x, rows, body)


QUERIES = ("tag", "pattern", "several", "absent", "columns")


@scenario(SCENARIOS, split={"m": 3, "kind": 5})
def index_attributes(x):
    """Time range and attribute conditions apply together; a second, different query is not answered from the first."""
    rows = make_rows(x, 3 if x.thorough else 2)
    q = query(x, 0, x.small("m", 0, 2))
    kind = QUERIES[x.small("kind", 0, 4)]
    kw, tags = {"tag": (dict(tag="two"), ("two",)), "pattern": (dict(tag="o*"), ("one", "only")), "several": (dict(tag=["two", "only"]), ("two", "only")),
                "absent": (dict(tag="none"), ()), "columns": (dict(station=""), None)}[kind]

    def body(ind):
        got = ind.get_contents(time=q, **kw)
        x.check(sorted(got["tag"]) == sorted(matches(rows, *q, tag=tags)), "exactly the matching patches")
        got = ind.get_contents(time=q)
        x.check(sorted(got["tag"]) == sorted(matches(rows, *q)), "exactly the patches in the range")
        got = ind.get_contents(**kw)
        x.check(sorted(got["tag"]) == sorted(matches(rows, None, None, tag=tags)), "every time")

    with_index(x, rows, body)


FILTERS = ("range", "reversed", "open", "min", "max", "equal", "isin", "number", "pattern", "both")


@scenario(SCENARIOS, split={"f": len(FILTERS)})
def filters(x):
    """filter_df keeps exactly the rows which satisfy every condition; rows without limits are in no range."""
    f = FILTERS[x.small("f", 0, len(FILTERS) - 1)]
    n = 3
    rows = []
    null = x.small("null", 0, 2)  # 2: no row lacks limits, else that row
    for i in range(n):
        lo = val(x, f"t{i}", "dt")
        hi = lo + x.td(f"len{i}", 0, HOUR)
        c = val(x, f"c{i}", "flt")
        rows.append((lo, hi, c, TAGS[i]))
    lack = [i == null for i in range(n)] if null < 2 else [False] * n
    nat = np.datetime64("NaT", "ns")
    df = pd.DataFrame(
        [dict(time_min=nat if m else a, time_max=nat if m else b, number=c, tag=t) for (a, b, c, t), m in zip(rows, lack)], index=[5, 3, 9]
    )
    a, b = val(x, "a", "dt"), val(x, "b", "dt")
    u, v = val(x, "u", "flt"), val(x, "v", "flt")
    reach = lambda i, lo, hi: not lack[i] and (lo is None or bool(rows[i][1] >= lo)) and (hi is None or bool(rows[i][0] <= hi))  # noqa
    if f in ("range", "both"):
        x.assume(a <= b)
        kw, want = dict(time=(a, b)), lambda i: reach(i, a, b)
        if f == "both":
            kw.update(number_min=u, tag="o*")
            want = lambda i: reach(i, a, b) and bool(rows[i][2] >= u) and i != 1  # noqa
    elif f == "reversed":
        x.assume(a >= b)
        kw, want = dict(time=(a, b)), lambda i: reach(i, b, a)
    elif f == "open":
        kw, want = dict(time=(a, ...)), lambda i: reach(i, a, None)
    elif f == "min":
        kw, want = dict(number_min=u, number_max=...), lambda i: bool(rows[i][2] >= u)
    elif f == "max":
        kw, want = dict(number_max=u, number_min=v), lambda i: bool(rows[i][2] <= u) and bool(rows[i][2] >= v)
    elif f == "equal":
        kw, want = dict(number=u), lambda i: bool(rows[i][2] == u)
    elif f == "isin":
        kw, want = dict(tag=("two", "only")), lambda i: i > 0
    elif f == "number":
        x.assume(a <= b)
        kw, want = dict(time=(None, b), number=u, tag=None), lambda i: reach(i, None, b) and bool(rows[i][2] == u)
        kw.pop("tag")
    else:
        kw, want = dict(tag="?n*"), lambda i: i != 1
    got = filter_df(df, **kw)
    x.check([bool(g) for g in got] == [bool(want(i)) for i in range(n)], "exactly the matching rows")


class Listing(AbstractIndexer):
    """Stands for the directory index while times are symbolic."""

    def __init__(self, table):
        self.table, self.path = table, Path("/data")

    def __call__(self, **kwargs):
        return self.table[filter_df(self.table, ignore_bad_kwargs=True, **kwargs)]

    def __deepcopy__(self, memo):
        return self


class Reader:
    """Stands for a format's reader while times are symbolic: reads a patch, trimmed to any ranges given."""

    def __init__(self, files):
        self.files = files

    def read(self, path, **kwargs):
        patch = self.files[str(path)]
        ranges = {k: v for k, v in kwargs.items() if k in patch.dims and v is not None}
        out = patch.select(**ranges) if ranges else patch
        return dc.spool([out] if out.data.size else [])


def directory(x, patches, body):
    """Run body(spool) for a directory holding one file per patch."""
    if not x.symbolic:
        with tempfile.TemporaryDirectory() as tmp:
            for i, p in enumerate(patches):
                dc.write(p, f"{tmp}/p{i}.h5", "dasdae")
            return body(dc.spool(tmp).update(progress=None))
    table = pd.DataFrame(
        [
            dict(
                time_min=c.min(), time_max=c.max(), time_step=c.step, tag=p.attrs.tag, network="", station="", data_type="", dims="time,distance",
                path=f"p{i}.h5", file_format="DASDAE", file_version="1",
            )
            for i, (p, c) in enumerate((p, p.get_coord("time")) for p in patches)
        ]
    )
    reader = Reader({f"/data/p{i}.h5": p for i, p in enumerate(patches)})
    with mock.patch.object(FiberIO.manager, "get_fiberio", lambda **k: reader):
        return body(DirectorySpool(Listing(table)))


QUICK_PAIRS = {(c17.OPEN, c17.OPEN), (c17.OPEN, c17.MERGE), (c17.CUT, c17.OPEN), (c17.CUT, c17.SLICE), (c17.MERGE, c17.OPEN), (c17.INDEX, c17.MERGE), (c17.SLICE, c17.CUT), (c17.SORT, c17.SELECT)}


@scenario(SCENARIOS, split={"op1": 9, "op2": 9})
def directory_spools(x):
    """A directory spool gives what the same operations give on the list of its patches."""
    op1, op2 = x.small("op1", 0, 8), x.small("op2", 0, 8)
    merges = (c17.MERGE, c17.CUT)
    if op1 in merges and op2 in merges or op1 in (c17.SELECT, c17.OPEN) and op2 == c17.CUT or op1 == op2 == c17.SELECT:
        return
    quick = not op2 or (op1, op2) in QUICK_PAIRS
    if not x.thorough and not quick:
        return
    sp, items = c17.build(x, (0, 1, 2))

    def body(ds):
        out, want = c17.apply(x, op1, 0, ds, items)
        out, want = c17.apply(x, op2, 1, out, want)
        # an empty patch is skipped when reading files
        if all(w.samples for w in want):
            c17.compare(x, out, want, "after both")
        else:
            got = [c17.rows_of(p) for p in out]
            x.check(got == [[s[1] for s in w.samples] for w in want if w.samples], "samples")

    directory(x, list(sp), body)


class Entry:
    """A directory entry with a symbolic modification time."""

    def __init__(self, root, name, mtime, inside=None):
        self.name, self.path, self.st_mtime, self.inside = name, f"{root}/{name}", mtime, inside

    def is_file(self):
        return self.inside is None

    def is_dir(self):
        return self.inside is not None

    def stat(self):
        return self


@scenario(SCENARIOS)
def changed_files(x):
    """An update looks at every file changed since the last one started, and at none clearly older or hidden."""
    since = x.small("since", 0, 1)
    last = x.flt("last", 1000, 2**20, 1024)
    names = ["a.h5", "sub/b.h5", ".hidden.h5", "sub/c.txt"]
    times = [x.flt(f"m{i}", 1000, 2**20, 1024) for i in range(len(names))]
    ext = (None, ".h5")[x.small("ext", 0, 1)]
    with tempfile.TemporaryDirectory() as tmp:
        ind = DirectoryIndexer(tmp)
        stamp = last if since else None
        with mock.patch.object(type(ind._index_table), "last_updated_timestamp", stamp):
            timestamp = ind._get_mtime(only_new=True)
        if x.symbolic:
            tree = {
                tmp: [Entry(tmp, "a.h5", times[0]), Entry(tmp, "sub", 0, True), Entry(tmp, ".hidden.h5", times[2])],
                f"{tmp}/sub": [Entry(f"{tmp}/sub", "b.h5", times[1]), Entry(f"{tmp}/sub", "c.txt", times[3])],
            }
            with mock.patch.object(os, "scandir", lambda p: iter(tree[str(p)])):
                got = list(_iter_filesystem(tmp, ext=ext, timestamp=timestamp))
        else:
            for name, t in zip(names, times):
                path = Path(tmp) / name
                path.parent.mkdir(exist_ok=True)
                path.touch()
                os.utime(path, ns=(int(t * 10**9), int(t * 10**9)))
            got = list(_iter_filesystem(tmp, ext=ext, timestamp=timestamp))
        got = [str(g)[len(tmp) + 1:] for g in got]
    x.check(len(set(got)) == len(got), "each file once")
    x.check(names[2] not in got, "hidden files are left out")
    for i in (0, 1, 3):
        wanted = ext is None or names[i].endswith(ext)
        if not wanted:
            x.check(names[i] not in got, "other extensions are left out")
        elif not since:
            x.check(names[i] in got, "without an earlier update every file")
        else:
            x.check(x.Implies(times[i] >= last, names[i] in got), "files changed since are looked at")
            x.check(x.Implies(times[i] + 1 < last, names[i] not in got), "older files are not")
