"""C24: a patch's attributes describe its coordinates, and attributes combine as asked."""
from __future__ import annotations

import itertools

import numpy as np

import dascore as dc
from dascore.core.coords import get_coord
from dascore.exceptions import AttributeMergeError, CoordMergeError
from dascore.utils.attrs import combine_patch_attrs
from sx.harness import scenario

from .common import KINDS, labelled, mono_values, range_coord, same_values, step_of, val, values_list

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "patches of 3 x 3 cells whose first coordinate has any start (four kinds; even both ways, uneven, unsorted), with attached 1-D, 2-D and free coordinates; every listed operation once; any new minimum, maximum or listed step given as "
    "attribute in five ways; extra attributes of any value under names which look like, extend or contain coordinate fields; up to three sets of attributes of any values, present or missing, combined in each mode"
)
ASSUMPTIONS = ["floats are exact rationals; path witnesses are replayed on real floats", "attribute values are numbers, their names come from lists"]

FORMS = ("even", "even desc", "uneven", "unsorted")


def first_coord(x, form, kind, n=3):
    step = step_of(kind)
    if form == "even":
        return range_coord(x, "a", kind, n, step, units="s" if kind in ("dt", "td") else "m")
    if form == "even desc":
        return range_coord(x, "a", kind, n, -step, units="s" if kind in ("dt", "td") else "m")
    v = mono_values(x, "a", kind, n)
    if form == "unsorted":
        v = [v[1], v[0], *v[2:]]
    return get_coord(data=x.arr(v), units="s" if kind in ("dt", "td") else "m")


def make(x, form, kind):
    coord = first_coord(x, form, kind)
    coords = {
        "a": coord,
        "b": get_coord(data=np.array([1.0, 2.0, 5.0]), units="m"),
        "side": ("b", np.array([8, 4, 2])),
        "along_a": ("a", np.array([3.0, 1.0, 2.0])),
        "grid": (("a", "b"), np.arange(9).reshape(3, 3)),
        "free": (None, np.array([7, 9])),
    }
    return dc.Patch(data=labelled((3, 3)), coords=coords, dims=("a", "b"), attrs=dict(tag="one", gauge=4.0, a_zone=2, b_offset_max=3, history=["made"]))


def cells(coord):
    vals = coord.values
    return [vals[pos] for pos in itertools.product(*[range(n) for n in vals.shape])]


def null(v):
    return v is None or (v != v) is True or (isinstance(v, np.datetime64 | np.timedelta64 | float) and bool(np.isnan(np.asarray(v)) if isinstance(v, float) else np.isnat(v)))


def agrees(x, p, what, tol=0):
    """attrs summarise the coordinates of p."""
    def same(a, b):
        return a == b or bool(tol) and isinstance(a, float) and isinstance(b, float) and abs(a - b) <= tol * max(1.0, abs(a))

    x.check(p.attrs.dims == ",".join(p.dims), what + ": dims")
    x.check(set(p.attrs.coords) == set(p.coords.coord_map), what + ": coordinates listed")
    for name, coord in p.coords.coord_map.items():
        s = p.attrs.coords[name]
        x.check(s.units == coord.units, what + f": units of {name}")
        x.check(s.dtype == str(np.dtype(coord.dtype)).split("[")[0], what + f": dtype of {name}")
        if coord._partial or not len(coord):
            continue
        vals = cells(coord)
        x.check(x.And(*[s.min <= v for v in vals], x.Or(*[s.min == v for v in vals])), what + f": minimum of {name}")
        x.check(x.And(*[s.max >= v for v in vals], x.Or(*[s.max == v for v in vals])), what + f": maximum of {name}")
        if coord.evenly_sampled and len(vals) > 1:
            x.check(same(s.step, vals[1] - vals[0]), what + f": step of {name}")
        if not coord.evenly_sampled:
            x.check(null(s.step), what + f": {name} has no step")
        x.check(x.And(p.attrs[f"{name}_min"] == s.min, p.attrs[f"{name}_max"] == s.max), what + f": attributes {name}_min and _max")


OPS = {
    "select": lambda x, p: p.select(a=(val(x, "lo", x.kind), None)),
    "select b": lambda x, p: p.select(b=(2, None)),
    "select samples": lambda x, p: p.select(a=(1, 2), samples=True),
    "select side": lambda x, p: p.select(side=(3, 9)),
    "order": lambda x, p: p.order(a=np.array([2, 0]), samples=True),
    "sort": lambda x, p: p.sort_coords("a", reverse=x.bool("rev")),
    "flip": lambda x, p: p.flip("a", "b"),
    "rename": lambda x, p: p.rename_coords(a="t_2", side="b_min"),
    "swap": lambda x, p: p.rename_coords(a="b", b="a"),
    "set dims": lambda x, p: p.set_dims(a="along_a"),
    "transpose": lambda x, p: p.transpose(),
    "append": lambda x, p: p.append_dims(z=2),
    "squeeze": lambda x, p: p.select(a=1, samples=True).squeeze(),
    "drop": lambda x, p: p.drop_coords("side", "grid"),
    "drop one": lambda x, p: p.update_coords(side=None),
    "add": lambda x, p: p.update_coords(extra=("a", x.arr([val(x, f"e{i}", "flt") for i in range(3)]))),
    "replace": lambda x, p: p.update_coords(a=x.arr(mono_values(x, "n", x.kind, 3))),
    "replace b": lambda x, p: p.update_coords(b=get_coord(start=val(x, "nb", "int"), step=2, shape=3), free=(None, np.array([1.0]))),
    "set units": lambda x, p: p.set_units(b="ft", side="kg"),
    "convert": lambda x, p: p.convert_units(b="cm"),
    "snap": lambda x, p: p.snap_coords("b"),
    "aggregate": lambda x, p: p.mean("a") if x.bool("empty") else p.max("b", dim_reduce=x.choice("how", ["mean", "min", "first", "squeeze"])),
    "decimate": lambda x, p: p.decimate(a=2, filter_type=None),
    "new data": lambda x, p: p.new(data=p.data * 2),
    "new coords": lambda x, p: p.new(coords=p.coords.update(a=x.arr(mono_values(x, "n", x.kind, 3)))),
    "init": lambda x, p: dc.Patch(data=p.data, coords=p.coords.update(a=x.arr(mono_values(x, "n", x.kind, 3))), attrs=p.attrs),
    "init dict": lambda x, p: dc.Patch(data=p.data, coords={"a": p.get_coord("b"), "b": p.get_coord("a")}, dims=("a", "b"), attrs=p.attrs),
    "differentiate": lambda x, p: p.differentiate("b"),
    "integrate": lambda x, p: p.integrate("b", definite=x.bool("definite")),
    "update attrs": lambda x, p: p.update_attrs(tag="new", gauge=val(x, "g", "flt")),
    "operate": lambda x, p: p + p.select(b=(2, None)),
    "concatenate": lambda x, p: dc.spool([p.drop_coords("grid"), p.drop_coords("grid")]).concatenate(a=None)[0],
    "dropna": lambda x, p: p.dropna("a"),
}


@scenario(SCENARIOS, split={"op": len(OPS), "form": 4})
def agree(x):
    """After any operation dims, names, minima, maxima, steps, units and dtypes in attrs are those of the coordinates; other attributes and the original are kept."""
    op, form = list(OPS)[x.small("op", 0, len(OPS) - 1)], FORMS[x.small("form", 0, 3)]
    x.kind = kind = KINDS[x.small("kind", 0, 3)]
    x.assume(not (op == "decimate" and "even" not in form))
    p = make(x, form, kind)
    agrees(x, p, "made")
    before = dict(p.attrs.coords)
    out = OPS[op](x, p)
    agrees(x, out, op)
    for name in ("a_zone", "b_offset_max"):
        x.check(out.attrs.get(name) == p.attrs.get(name), op + ": other attributes kept")
    if op != "update attrs":
        x.check(out.attrs.gauge == 4.0 and out.attrs.tag == "one", op + ": attributes kept")
    x.check(set(before) == set(p.attrs.coords), "original keeps its attributes")
    for name, s in before.items():
        x.check(x.And(p.attrs.coords[name].min == s.min, p.attrs.coords[name].max == s.max), "original keeps its attributes")
    agrees(x, p, "original")


@scenario(SCENARIOS, split={"form": 3, "kind": 4, "how": 5})
def moved(x):
    """New limits or steps given as attributes move the coordinate and nothing else."""
    form, kind, how = ("even", "uneven", "unsorted")[x.small("form", 0, 2)], KINDS[x.small("kind", 0, 3)], x.small("how", 0, 4)
    p = make(x, form, kind)
    field = x.choice("field", ["min", "max", "step", "both"])
    x.assume(not ("step" in field or field == "both") or form == "even")
    coord = p.get_coord("a")
    vals = values_list(coord)
    new = {}
    if field in ("min", "both"):
        new["min"] = val(x, "new", kind)
    if field == "max":
        new["max"] = val(x, "new", kind)
    if field in ("step", "both"):
        new["step"] = step_of(kind, 1)
    attrs = {f"a_{k}": v for k, v in new.items()}
    if how == 0:
        out = p.update_attrs(**attrs, tag="two")
    elif how == 1:
        out = p.update_attrs(coords={"a": new}, tag="two")
    elif how == 2:
        out = p.new(attrs={**attrs, "tag": "two"})
    elif how == 3:
        out = dc.Patch(data=p.data, coords=p.coords, dims=p.dims, attrs={**attrs, "tag": "two"})
    else:
        out = p.update_coords(**attrs)
    agrees(x, out, "moved")
    if field == "step":
        want = [vals[0] + new["step"] * i for i in range(3)]
    elif field == "both":
        want = [new["min"] + new["step"] * i for i in range(3)]
    else:
        shift = new[field] - (coord.min() if field == "min" else coord.max())
        want = [v + shift for v in vals]
    same_values(x, values_list(out.get_coord("a")), want, "coordinate moved")
    x.check(out.get_coord("a").units == coord.units, "units kept")
    for name in ("b", "side", "along_a", "grid", "free"):
        x.check(out.get_coord(name) == p.get_coord(name), "other coordinates kept")
        x.check(out.coords.dim_map[name] == p.coords.dim_map[name], "other coordinates kept")
    x.check(out.dims == p.dims and bool(np.all(np.asarray(out.data) == np.asarray(p.data))), "cells kept")
    if how != 4:
        x.check(out.attrs.tag == "two", "attribute set")
    if how < 2:
        x.check(out.attrs.gauge == 4.0, "attribute kept")
    same_values(x, values_list(p.get_coord("a")), vals, "original kept")
    agrees(x, p, "original")


DIMS = (("time", "distance"), ("t", "x"), ("ft_time", "ft"), ("time", "time_2"))
NAMES = ("{}s_min", "{}_offset_max", "{}_min_snr", "{}_zone", "x{}_step", "{}_units_raw", "{}less_min", "{}_reference_units", "the_{}_max", "{}_dtypes")


@scenario(SCENARIOS, split={"dims": 4, "name": 10})
def named(x):
    """An attribute whose name only resembles a coordinate field is an attribute like any other."""
    dims = DIMS[x.small("dims", 0, 3)]
    name = NAMES[x.small("name", 0, 9)].format(dims[x.small("which", 0, 1)])
    kind = "dt" if dims[0] in ("time", "ft_time") else "flt"
    x.assume(not any(name == f"{d}_{f}" for d in dims for f in ("min", "max", "step", "units", "dtype")))
    v = val(x, "v", "flt")
    a = range_coord(x, "a", kind, 3, step_of(kind), units="s")
    coords = {dims[0]: a, dims[1]: get_coord(data=np.array([1.0, 2.0, 5.0]), units="m")}
    p = dc.Patch(data=labelled((3, 3)), coords=coords, dims=dims, attrs=dict(tag="one"))
    how = x.small("how", 0, 3)
    if how == 0:
        out = p.update_attrs(**{name: v})
    elif how == 1:
        out = p.new(attrs={name: v})
    elif how == 2:
        out = dc.Patch(data=p.data, coords=p.coords, dims=dims, attrs={name: v})
    else:
        attrs = p.attrs.update(**{name: v})
        x.check(attrs[name] == v, "attribute of attrs")
        out = p.new(attrs=attrs)
    x.check(out.attrs[name] == v, "attribute readable")
    x.check(getattr(out.attrs, name) == v, "attribute readable")
    x.check(out.attrs.get(name) == v, "attribute readable")
    x.check(out.coords == p.coords, "coordinates kept")
    for d in dims:
        x.check(out.attrs.coords[d] == p.attrs.coords[d], "summary kept")
        for f in ("min", "max", "step", "units"):
            x.check(x.Or(getattr(out.attrs, f"{d}_{f}") == getattr(p.attrs.coords[d], f), getattr(p.attrs.coords[d], f) is None), "fields readable")
    again = out.update_attrs(tag="two")
    x.check(again.attrs[name] == v and again.coords == p.coords, "kept by another update")
    new = val(x, "new", kind)
    later = again.update_attrs(**{f"{dims[0]}_min": new})
    x.check(later.attrs[name] == v, "attribute kept when coordinates move")
    x.check(later.get_coord(dims[0]).min() == new, "coordinate moved")
    x.check(later.attrs.coords[dims[0]].min == new, "summary moved")
    later = again.update_coords(**{f"{dims[0]}_max": new})
    x.check(x.And(later.attrs[name] == v, later.get_coord(dims[0]).max() == new), "attribute kept when coordinates move")
    df = dc.spool(out).get_contents()
    x.check(df[name].iloc[0] == v, "listed among the contents")
    x.check(df[f"{dims[0]}_min"].iloc[0] == a.min(), "limits among the contents")


def combined_attrs(x, dicts, mode):
    """The expected combination, or None when refused."""
    if mode == "keep_first":
        out = {}
        for d in dicts:
            for k, v in d.items():
                out.setdefault(k, v)
        return out
    names = {k for d in dicts for k in d}
    out = {}
    for k in names:
        have = [d[k] for d in dicts if k in d]
        if len(have) == len(dicts) and all(bool(v == have[0]) for v in have):
            out[k] = have[0]
        elif mode == "raise":
            return None
    return out


@scenario(SCENARIOS, split={"mode": 3, "n": 2, "present": 9})
def combined(x):
    """combine_patch_attrs raises on, drops or keeps the first of conflicting attributes, and spans the named coordinate."""
    mode, n = ("raise", "drop", "keep_first")[x.small("mode", 0, 2)], 2 + x.small("n", 0, 1)
    present = x.small("present", 0, 8)
    dicts, models = [], []
    drop = x.choice("drop", [None, "gauge", ("gauge", "level")])
    lo, hi = [], []
    for i in range(n):
        d = {"gauge": val(x, f"g{i}", "flt"), "level": x.int(f"l{i}", 0, 3), "tag": "same"}
        if present == i + 1 or present == i + 7:
            d.pop("gauge")
        if present == i + 4 or present == i + 7:
            d.pop("level")
        dicts.append({k: v for k, v in d.items() if k not in (drop or ())})
        if drop == "gauge":
            dicts[-1] = {k: v for k, v in d.items() if k != "gauge"}
        a = val(x, f"a{i}", "dt")
        b = a + np.timedelta64(x.small(f"len{i}", 1, 2), "s")
        lo.append(a)
        hi.append(b)
        models.append(dc.PatchAttrs(**d, dims="time", time_min=a, time_max=b, time_step=np.timedelta64(1, "s")))
    want = combined_attrs(x, dicts, mode)
    if want is None:
        x.check(x.raises(lambda: combine_patch_attrs(models, "time", conflicts=mode, drop_attrs=drop), AttributeMergeError), "conflicts refused")
        return
    out = combine_patch_attrs(models, "time", conflicts=mode, drop_attrs=drop)
    extras = {k for k in ("gauge", "level", "tag") if k in out.model_dump(exclude_defaults=True)}
    x.check(extras == set(want), "attributes of the combination")
    for k, v in want.items():
        x.check(out[k] == v, "attribute values")
    s = out.coords["time"]
    x.check(x.And(*[s.min <= v for v in lo], x.Or(*[s.min == v for v in lo])), "earliest minimum")
    x.check(x.And(*[s.max >= v for v in hi], x.Or(*[s.max == v for v in hi])), "latest maximum")
    x.check(s.step == np.timedelta64(1, "s"), "step")
    for m, a, b in zip(models, lo, hi):
        x.check(x.And(m.coords["time"].min == a, m.coords["time"].max == b), "inputs untouched")


@scenario(SCENARIOS, split={"mode": 3, "present": 4, "name": 3})
def merged(x):
    """Merging neighbouring patches of a spool treats their attributes by the conflict mode."""
    mode, present = ("raise", "drop", "keep_first")[x.small("mode", 0, 2)], x.small("present", 0, 3)
    name = ("gauge", "time_zone", "distances_max")[x.small("name", 0, 2)]
    t = x.dt("t", -(10**9), 10**18)
    sec = np.timedelta64(1, "s")
    patches, dicts = [], []
    for i in range(2):
        d = {name: val(x, f"g{i}", "flt")}
        if present == i + 1:
            d = {}
        if present == 3:
            d["level"] = 4
        coords = {"time": get_coord(start=t + sec * (2 * i), step=sec, stop=t + sec * (2 * i + 2)), "distance": np.array([3.0, 5.0])}
        patches.append(dc.Patch(data=labelled((2, 2)), coords=coords, dims=("time", "distance"), attrs={**d, "tag": "same"}))
        dicts.append({**d, "tag": "same"})
    want = combined_attrs(x, dicts, mode)
    spool = dc.spool(patches)
    if want is None:
        x.check(x.raises(lambda: list(spool.chunk(time=None, conflict=mode)), AttributeMergeError, CoordMergeError), "conflicts refused")
        return
    out = list(spool.chunk(time=None, conflict=mode))
    x.check(len(out) == 1, "one patch")
    p = out[0]
    agrees(x, p, "merged")
    x.check(x.And(p.attrs.time_min == t, p.attrs.time_max == t + sec * 3), "extent")
    extras = {k for k in (name, "level", "tag") if k in p.attrs.model_dump(exclude_defaults=True)}
    x.check(extras == set(want), "attributes of the merged patch")
    for k, v in want.items():
        x.check(p.attrs[k] == v, "attribute values")
