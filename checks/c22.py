"""C22: patches written to a DASDAE file come back unchanged."""
from __future__ import annotations

import os
import tempfile
from unittest import mock

import numpy as np
from tables import NodeError, NoSuchNodeError

import dascore as dc
from dascore.core.coords import get_coord
from dascore.io.core import FiberIO
from dascore.utils.hdf5 import HDFPatchIndexManager
from sx.harness import scenario

from .common import KINDS, in_range, mono_values, range_coord, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {"witnesses": {"quick": 12, "thorough": 60}}
BOUNDS = (
    "patches of 1..3 x 2 cells of any float values, the first coordinate of four kinds (even both ways, uneven, unsorted) starting anywhere, with attached one-dimensional, two-dimensional and free coordinates, units and attributes; "
    "files of up to three patches, written once or twice; any range read back"
)
ASSUMPTIONS = [
    "the HDF5 library stores and returns nodes, arrays and attributes as given: in symbolic runs a stand-in of nodes in memory takes its place, replays use real files",
    "every coordinate has values",
]
COVERS = ["all", "some", "nothing"]


class Attrs:
    """Attributes of a node."""

    def __init__(self):
        self.__dict__["_store"] = {}

    def __setitem__(self, key, value):
        self._store[key] = np.str_(value) if type(value) is str else value

    def __getitem__(self, key):
        return self._store[key]

    def __getattr__(self, key):
        try:
            return self._store[key]
        except KeyError:
            raise AttributeError(key) from None

    def __contains__(self, key):
        return key in self._store

    def _f_list(self, *args):
        return sorted(self._store)


class Group:
    """A group of nodes."""

    def __init__(self, name):
        self._v_attrs, self._nodes = Attrs(), {}
        self.name = self._v_name = name

    def __iter__(self):
        return iter([self._nodes[k] for k in sorted(self._nodes)])

    def __contains__(self, name):
        return name in self._nodes

    def __getitem__(self, path):
        out = self
        for part in path.strip("/").split("/"):
            if part not in out._nodes:
                raise IndexError(path)
            out = out._nodes[part]
        return out

    def __getattr__(self, name):
        nodes = self.__dict__.get("_nodes", {})
        if name in nodes:
            return nodes[name]
        raise AttributeError(name)


class Leaf:
    """A stored array."""

    def __init__(self, name, data):
        self._v_attrs, self._data = Attrs(), data.copy()
        self.name = self._v_name = name

    shape = property(lambda self: self._data.shape)
    dtype = property(lambda self: self._data.dtype)
    ndim = property(lambda self: self._data.ndim)

    def __len__(self):
        return len(self._data)

    def __getitem__(self, item):
        return self._data[item].copy()

    def read(self):
        return self._data.copy()


class File:
    """Stands for an open HDF5 file while values are symbolic."""

    def __init__(self):
        self.root, self.filename = Group("/"), "file.h5"

    def get_node(self, where, name=None):
        try:
            node = self.root[where] if isinstance(where, str) and where.strip("/") else self.root if isinstance(where, str) else where
            return node if name is None else node[name]
        except IndexError:
            raise NoSuchNodeError(f"{where} {name}") from None

    def _add(self, where, name, node):
        group = self.get_node(where)
        if name in group:
            raise NodeError(name)
        group._nodes[name] = node
        node._parent = group
        return node

    def create_group(self, where, name, *args, **kwargs):
        return self._add(where, name, Group(name))

    def create_array(self, where, name, obj=None, *args, **kwargs):
        return self._add(where, name, Leaf(name, obj))

    def remove_node(self, where, name=None, recursive=False):
        node = self.get_node(where, name)
        if isinstance(node, Group) and node._nodes and not recursive:
            raise NodeError(name)
        del node._parent._nodes[node.name]

    def iter_nodes(self, where, *args):
        return iter(self.get_node(where))

    def list_nodes(self, where, *args):
        return list(self.get_node(where))

    def __contains__(self, path):
        try:
            self.get_node(path)
        except NoSuchNodeError:
            return False
        return True

    def flush(self):
        pass


class Stored:
    """A DASDAE file: a real one in replays."""

    def __init__(self, x, names=None):
        self.x, self.names = x, names

    def __enter__(self):
        self.io = FiberIO.manager.get_fiberio(format="DASDAE", version="1")
        if self.x.symbolic:
            self.file = File()
        else:
            self.tmp = tempfile.TemporaryDirectory()
            self.file = os.path.join(self.tmp.name, "file.h5")
        return self

    def __exit__(self, *args):
        if not self.x.symbolic:
            self.tmp.cleanup()

    def _call(self, func, *args, **kwargs):
        # names contain the formatted times: patches starting in other seconds
        fixed = mock.patch("dascore.io.dasdae.core.get_patch_names", lambda patches, **k: self.names(patches)) if self.names else mock.patch.object(File, "mock", 1, create=True)
        with mock.patch.object(HDFPatchIndexManager, "has_index", False), fixed:
            return func(*args, _pre_cast=True, **kwargs)

    def write(self, patches):
        sp = dc.spool(patches)
        return self._call(self.io.write, sp, self.file) if self.x.symbolic else dc.write(sp, self.file, "DASDAE", "1")

    def read(self, **kwargs):
        return list(self._call(self.io.read, self.file, **kwargs) if self.x.symbolic else dc.read(self.file, "DASDAE", "1", **kwargs))

    def scan(self):
        return self._call(self.io.scan, self.file) if self.x.symbolic else dc.scan(self.file, "DASDAE", "1")


class Names:
    """Node names of patches: by tag."""

    def __init__(self, values):
        self.values = values


def by_tag(patches):
    return Names([f"DAS__{p.attrs.tag}" for p in patches])


def coordinate(x, kind, form, n, tag="a", units=None):
    step = step_of(kind, 1)
    if form < 2:
        return range_coord(x, tag, kind, n, -step if form else step, units=units)
    vals = mono_values(x, tag, kind, n)
    if form == 3:
        vals = vals[1:] + vals[:1]
    return get_coord(data=x.arr(vals), units=units)


def shifted(x, name, kind, offsets):
    """Values at fixed distances from one another, anywhere."""
    first = val(x, name, kind)
    return x.arr([first + (np.timedelta64(o, "ns") if kind in ("dt", "td") else o) for o in offsets])


def data_of(x, n, m=2, tag="c"):
    rows = [[x.flt(f"{tag}{i}_{j}", -500, 500, 4) for j in range(m)] for i in range(n)]
    return x.arr(rows) if x.symbolic else np.array(rows, dtype=float).reshape(n, m)


def same_coord(x, got, want, msg):
    x.check(got.shape == want.shape, f"{msg}: shape")
    x.check(got.units == want.units, f"{msg}: units")
    x.check(got.dtype == want.dtype, f"{msg}: dtype")
    x.check(got.evenly_sampled == want.evenly_sampled, f"{msg}: even sampling")
    if want.evenly_sampled and got.evenly_sampled:
        x.check(got.step == want.step, f"{msg}: step")
    a, b = got.values, want.values
    if len(want.shape) == 2:
        a, b = ([v[i, j] for i in range(want.shape[0]) for j in range(want.shape[1])] for v in (a, b))
    else:
        a, b = values_list(got), values_list(want)
    same_values(x, a, b, f"{msg}: values")


def same_patch(x, got, want, msg=""):
    x.check(got.dims == want.dims, f"{msg}dimensions")
    x.check(set(got.coords.coord_map) == set(want.coords.coord_map), f"{msg}coordinate names")
    for name, coord in want.coords.coord_map.items():
        if name in got.coords.coord_map:
            same_coord(x, got.coords.coord_map[name], coord, f"{msg}{name}")
            x.check(got.coords.dim_map[name] == want.coords.dim_map[name], f"{msg}{name}: dimensions")
    x.check(got.shape == want.shape, f"{msg}shape")
    if got.shape == want.shape:
        n, m = want.shape
        same_values(x, [got.data[i, j] for i in range(n) for j in range(m)], [want.data[i, j] for i in range(n) for j in range(m)], f"{msg}cells")
    a, b = (p.attrs.model_dump(exclude={"coords"}) for p in (got, want))
    x.check({k: str(v) for k, v in a.items()} == {k: str(v) for k, v in b.items()}, f"{msg}attributes")


@scenario(SCENARIOS, split={"kind": 4, "form": 4})
def whole(x):
    """A patch with attached coordinates, units and attributes is read back as it was."""
    kind, form = KINDS[x.small("kind", 0, 3)], x.small("form", 0, 3)
    n = 3 if form >= 2 else x.small("n", 1, 3)
    flip = x.small("flip", 0, 1)
    units = None if kind in ("dt", "td") else "ft"
    name = ("time", "lag_time", "a_coord_b")[x.small("name", 0, 2)]
    coords = {
        name: coordinate(x, kind, form, n, units=units), "distance": range_coord(x, "d", "flt", 2, 0.5, units="m"),
        "near": (name, get_coord(data=shifted(x, "near", "int", (5, 3, 9)[:n]), units="m")),
        "both_dims": ((name, "distance"), x.arr([[x.flt(f"both{i}{j}", -100, 100, 4) for j in range(2)] for i in range(n)])),
        "_free": ((), get_coord(data=shifted(x, "free", "flt", (7, 2, 3)), units="m/s")),
        "when": ("distance", shifted(x, "when", "dt", (0, 12345678901))),
        "lag": ("distance", shifted(x, "lag", "td", (50, 3))),
    }
    attrs = dict(tag="one", station="abc", data_units="m/s", other=3, _attrs_x="y", data_type="velocity", history=("a", "b"))
    p = dc.Patch(data=data_of(x, n), coords=coords, dims=(name, "distance"), attrs=attrs)
    p = p.transpose("distance", name) if flip else p
    with Stored(x, by_tag) as f:
        f.write([p])
        got = f.read()
        x.check(len(got) == 1, "one patch")
        same_patch(x, got[0], p)
        scan = f.scan()
    x.check(len(scan) == 1, "one summary")
    c, s = p.get_coord(name), scan[0].coords[name]
    same_values(x, [s.min, s.max], [c.min(), c.max()], "extent in the summary")
    x.check(bool(c.evenly_sampled) == (s.step is not None and not np.isnan(s.step) if not x.symbolic else s.step is not None), "step in the summary")
    if c.evenly_sampled:
        x.check(s.step == c.step, "value of the step in the summary")
    x.check(scan[0].dims == ",".join(p.dims) and scan[0].tag == "one" and scan[0].station == "abc", "dimensions and attributes in the summary")


@scenario(SCENARIOS, split={"kind": 2, "form": 4, "open": 3})
def part(x):
    """Reading a range gives what selecting it from the patches gives, without patches that have nothing there."""
    kind, form, op = ("dt", "flt")[x.small("kind", 0, 1)], x.small("form", 0, 3), x.small("open", 0, 2)
    n = 3
    names = ("time", "distance") if kind == "dt" else ("distance", "time")
    other = range_coord(x, "d", "flt", 2, 0.5) if kind == "dt" else range_coord(x, "d", "dt", 2, step_of("dt", 0))
    near = np.array([5, 3, 9])
    coords = {names[0]: coordinate(x, kind, form, n), names[1]: other, "near": (names[0], near)}
    p = dc.Patch(data=np.arange(6.0).reshape(3, 2), coords=coords, dims=names, attrs=dict(tag="one"))
    lo, hi = val(x, "lo", kind), val(x, "hi", kind)
    x.assume(lo <= hi)
    rng = ((lo, hi), (None, hi), (lo, None))[op]
    flip = x.small("flip", 0, 1)
    p = p.transpose(*names[::-1]) if flip else p
    with Stored(x, by_tag) as f:
        f.write([p])
        got = f.read(**{names[0]: rng})
        got_none = f.read(**{names[0]: rng, "tag": "two"})
    x.check(got_none == [], "other tags are left out")
    vals = values_list(p.get_coord(names[0]))
    keep = [i for i in range(n) if in_range(x, vals[i], rng[0], rng[1])]
    x.cover("all" if len(keep) == n else "some" if keep else "nothing")
    x.check(len(got) == bool(keep), "a patch exactly when there are samples")
    if got:
        q = got[0].transpose(*names)
        same_values(x, values_list(q.get_coord(names[0])), [vals[i] for i in keep], "samples")
        x.check(q.shape == (len(keep), 2), "shape")
        x.check([[float(v) for v in r] for r in q.data] == [[2.0 * i, 2.0 * i + 1] for i in keep], "cells")
        x.check([int(v) for v in q.get_array("near")] == [int(near[i]) for i in keep], "attached coordinate")
        same_values(x, values_list(q.get_coord(names[1])), values_list(p.get_coord(names[1])), "other coordinate")


@scenario(SCENARIOS, split={"how": 4, "form": 4, "both": 2})
def part_arrays(x):
    """Reading the samples named by a mask, by values or by another coordinate gives exactly those."""
    how, form, both, flip = x.small("how", 0, 3), x.small("form", 0, 3), x.small("both", 0, 1), x.small("flip", 0, 1)
    near = np.array([5, 3, 9])
    coords = {"time": coordinate(x, "dt", form, 3), "distance": np.array([10, 20]), "near": ("time", near)}
    p = dc.Patch(data=np.arange(6.0).reshape(3, 2), coords=coords, dims=("time", "distance"), attrs=dict(tag="one"))
    p = p.transpose() if flip else p
    vals = values_list(p.get_coord("time"))
    if how == 0:
        mask = [bool(x.small(f"m{i}", 0, 1)) for i in range(3)]
        keep, kw = [i for i in range(3) if mask[i]], dict(time=np.array(mask))
    elif how == 1:
        pick = x.small("i", 0, 2), x.small("j", 0, 2)
        keep, kw = sorted(set(pick)), dict(time=x.arr([vals[i] for i in pick]))
    elif how == 2:
        a, b = x.small("a0", 2, 10), x.small("b0", 2, 10)
        x.assume(a <= b)
        keep, kw = [i for i in range(3) if a <= near[i] <= b], dict(near=(a, b))
    else:
        lo, hi = val(x, "lo", "dt"), val(x, "hi", "dt")
        x.assume(lo <= hi)
        keep, kw = [i for i in range(3) if in_range(x, vals[i], lo, hi)], dict(time=(lo, hi))
    cols = [0, 1]
    if both:
        cols = [1]
        kw["distance"] = np.array([False, True]) if how else np.array([20])
    with Stored(x, by_tag) as f:
        f.write([p])
        got = f.read(**kw)
    x.check(len(got) == bool(keep), "a patch exactly when there are samples")
    if got:
        q = got[0].transpose("time", "distance")
        same_values(x, values_list(q.get_coord("time")), [vals[i] for i in keep], "samples")
        x.check([[float(v) for v in r] for r in q.data] == [[2.0 * i + j for j in cols] for i in keep], "cells")
        x.check([int(v) for v in q.get_array("near")] == [int(near[i]) for i in keep], "attached coordinate")


@scenario(SCENARIOS, split={"k0": 4, "k1": 4})
def several(x):
    """Every patch of a spool is kept, also when patches have the same start, end and tag."""
    ks = [x.small(f"k{i}", 0, 3) for i in range(2)] + [0]
    near = x.small("near", 0, 1)
    patches = []
    for i, k in enumerate(ks):
        t = np.datetime64("2020-01-01") + np.timedelta64((0, 100, 1000, 60_000)[k], "ms")
        start = 10 * i if near else 0
        coords = {"time": t + np.timedelta64(10, "ms") * np.arange(3), "distance": np.arange(2) + start}
        patches.append(dc.Patch(data=data_of(x, 3, tag=f"c{i}_"), coords=coords, dims=("time", "distance"), attrs=dict(tag="one")))
    with Stored(x) as f:
        f.write(patches)
        got = f.read()
    x.check(len(got) == 3, "as many patches as written")
    left = list(range(len(got)))
    for i, p in enumerate(patches):
        for j in left:
            same = got[j].coords == p.coords and all(bool(got[j].data[a, b] == p.data[a, b]) for a in range(3) for b in range(2))
            if same:
                left.remove(j)
                break
        else:
            x.fail(f"patch {i} is missing")


@scenario(SCENARIOS, split={"first": 4, "second": 4})
def again(x):
    """Writing a patch of the same name again replaces it."""
    made = []
    for i, k in enumerate((x.small("first", 0, 3), x.small("second", 0, 3))):
        n, m = (3, 2) if k != 2 else (3, 1)
        coords = {"time": range_coord(x, "t", "dt", n, step_of("dt", 1)) if not made else made[0].get_coord("time"), "distance": range_coord(x, f"d{i}", "flt", m, 0.5, units=(None, "m")[k % 2])}
        if k in (1, 2):
            coords["near"] = ("distance", x.arr([x.npint(f"near{i}_{j}", -100, 100) for j in range(m)]))
        attrs = dict(tag="one", **({"extra": 1} if k == 0 else {}))
        p = dc.Patch(data=data_of(x, n, m, tag=f"c{i}_"), coords=coords, dims=("time", "distance"), attrs=attrs)
        made.append(p.transpose() if k == 3 else p)
    with Stored(x, by_tag) as f:
        f.write([made[0]])
        f.write([made[1]])
        got = f.read()
        scan = f.scan()
    x.check(len(got) == len(scan) == 1, "one patch")
    same_patch(x, got[0], made[1])
