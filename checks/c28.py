"""C28: Processing leaves its input as it was, returns a consistent patch and records itself."""
from __future__ import annotations

import warnings

import numpy as np
import pandas as pd

import dascore as dc
from dascore.core.coords import get_coord
from dascore.exceptions import PatchAttributeError, PatchCoordinateError
from dascore.utils.patch import check_patch_coords, patch_function
from sx.harness import scenario

from .c24 import agrees, cells
from .c25 import even_coord, fixed

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "patches of 6 to 24 x 3 cells, three of them of any value within +-512, in either order of dimensions; datetime, timedelta, integer and float coordinates of both directions starting anywhere; "
    "one to three listed calls of every processing and transform method"
)
ASSUMPTIONS = [
    "where a library function without a model is reached its inputs are fixed to one solution of the path (C08, C11 to C14, C21 and C25 to C27 decide the values computed)",
    "floats are exact rationals; path witnesses are replayed on real floats",
]
COVERS = []
KINDS = ("dt", "td", "flt", "int")


def build(x, n, axis, kind, desc, m=3, free_cells=3, free_start=True, **attrs):
    """A patch of n cells along time, the given axis, three of them unknown, with coordinates attached to either dimension and to none."""
    if free_start:
        coord, dx = even_coord(x, kind, n, desc)
    else:
        step = np.timedelta64(10**9 // 4, "ns")
        coord = get_coord(start=np.datetime64("2020-01-01T00:00:01", "ns"), step=step, shape=n, units="s")
    spots = [(n // 2, 1), (0, 0), (n - 1, 2)][:free_cells]
    data = [[x.flt(f"c{i}_{j}", -512, 512, 8) if (i, j) in spots else float((7 * i + 5 * j) % 11 - 4) for j in range(m)] for i in range(n)]
    rows = data if axis == 0 else [[data[i][j] for i in range(n)] for j in range(m)]
    dims = ("time", "distance") if axis == 0 else ("distance", "time")
    coords = {
        "time": coord, "distance": fixed(m), "near": ("time", np.arange(n)), "side": ("distance", np.arange(m) * 3.0),
        "free": (None, np.array([7, 9])),
    }
    info = dict(tag="one", station="st", data_units="m/s", gauge=4.0, history=["made", "twice"])
    return dc.Patch(data=x.arr(rows), coords=coords, dims=dims, attrs={**info, **attrs}), data


class Held:
    """Arguments handed to a method, with what they were."""

    def __init__(self):
        self.kept = []

    def __call__(self, obj):
        self.kept.append((obj, np.array(obj) if not isinstance(obj, dict | pd.DataFrame) else obj.copy()))
        return obj

    def same(self):
        return all(a.equals(b) if isinstance(a, pd.DataFrame) else a == b if isinstance(a, dict) else np.array_equal(np.asarray(a), b) for a, b in self.kept)


def per(p, v):
    """v samples along time in the coordinate's units."""
    step = p.get_coord("time").step
    step = step / np.timedelta64(1, "s") if isinstance(step, np.timedelta64) else float(step)
    return v * abs(step)


def rate(p, f):
    """f of the sampling rate along time."""
    return f / per(p, 1)


# name: (samples along time, call, recorded as or None when nothing is recorded)
OPS = {
    "abs": (6, lambda p, h: p.abs(), "abs"),
    "real": (6, lambda p, h: p.real(), "real"),
    "imag": (6, lambda p, h: p.imag(), "imag"),
    "conj": (6, lambda p, h: p.conj(), "conj"),
    "full": (6, lambda p, h: p.full(3), "full"),
    "demean": (6, lambda p, h: p.demean("time"), "demean"),
    "demedian": (6, lambda p, h: p.demedian("distance"), "demedian"),
    "detrend": (6, lambda p, h: p.detrend("time"), "detrend"),
    "detrend constant": (6, lambda p, h: p.detrend("distance", type="constant"), "detrend"),
    "fillna": (6, lambda p, h: p.fillna(2), "fillna"),
    "dropna": (6, lambda p, h: p.dropna("time"), "dropna"),
    "where": (6, lambda p, h: p.where(h(np.arange(p.data.size).reshape(p.shape) % 2 == 0), other=1), "where"),
    "where patch": (6, lambda p, h: p.where(p > 0), "where"),
    "normalize": (6, lambda p, h: p.normalize("time", norm="max"), "normalize"),
    "normalize l1": (6, lambda p, h: p.normalize("distance", norm="l1"), "normalize"),
    "taper": (6, lambda p, h: p.taper(time=0.25), "taper"),
    "taper one side": (6, lambda p, h: p.taper(distance=(0.5, None), window_type="triang"), "taper"),
    "taper_range": (6, lambda p, h: p.taper_range(time=h([1, 2, 3, 4]), samples=True), "taper_range"),
    "line_mute": (6, lambda p, h: p.line_mute(time=h([per(p, 1), per(p, 3)])), "line_mute"),
    "slope_mute": (6, lambda p, h: p.slope_mute(slopes=h([1, 2])), "slope_mute"),
    "pass_filter": (24, lambda p, h: p.pass_filter(corners=2, time=h([rate(p, 0.1), rate(p, 0.2)])), "pass_filter"),
    "sobel_filter": (6, lambda p, h: p.sobel_filter("time"), "sobel_filter"),
    "median_filter": (6, lambda p, h: p.median_filter(time=3, samples=True), "median_filter"),
    "hampel_filter": (6, lambda p, h: p.hampel_filter(time=3, samples=True, threshold=3, approximate=False), "hampel_filter"),
    "notch_filter": (24, lambda p, h: p.notch_filter(q=3, time=rate(p, 0.1)), "notch_filter"),
    "savgol_filter": (8, lambda p, h: p.savgol_filter(2, time=5, samples=True), "savgol_filter"),
    "gaussian_filter": (6, lambda p, h: p.gaussian_filter(time=2, distance=1, samples=True), "gaussian_filter"),
    "slope_filter": (6, lambda p, h: p.slope_filter(h(np.array([1.0, 2.0, 3.0, 4.0]))), "slope_filter"),
    "wiener_filter": (6, lambda p, h: p.wiener_filter(time=3, samples=True), "wiener_filter"),
    "whiten": (8, lambda p, h: p.whiten(time=None), "whiten"),
    "resample": (8, lambda p, h: p.resample(time=4, samples=True), "resample"),
    "decimate": (6, lambda p, h: p.decimate(time=2, filter_type=None), "decimate"),
    "decimate view": (6, lambda p, h: p.decimate(time=2, filter_type=None, copy=False), "decimate"),
    "interpolate": (6, lambda p, h: p.interpolate(distance=h(np.array([1.125, 1.25, 1.5]))), "interpolate"),
    "pad": (6, lambda p, h: p.pad(time=(1, 2), samples=True), "pad"),
    "roll": (6, lambda p, h: p.roll(time=2, samples=True), "roll"),
    "roll coord": (6, lambda p, h: p.roll(time=2, samples=True, update_coord=True), "roll"),
    "flip": (6, lambda p, h: p.flip("time"), "flip"),
    "flip data": (6, lambda p, h: p.flip("time", "distance", flip_coords=False), "flip"),
    "align_to_coord": (6, lambda p, h: p.align_to_coord(time="hops", samples=True, mode="full"), "align_to_coord"),
    "select": (6, lambda p, h: p.select(time=h([1, 4]), samples=True), None),
    "select cells": (6, lambda p, h: p.select(time=h(np.array([0, 3, 1])), samples=True, copy=True), None),
    "order": (6, lambda p, h: p.order(distance=h(np.array([2, 0])), samples=True), None),
    "transpose": (6, lambda p, h: p.transpose(), None),
    "squeeze": (6, lambda p, h: p.select(time=2, samples=True).squeeze(), "squeeze"),
    "append_dims": (6, lambda p, h: p.append_dims(z=2), None),
    "sort_coords": (6, lambda p, h: p.sort_coords("side", reverse=True), "sort_coords"),
    "snap_coords": (6, lambda p, h: p.snap_coords("distance"), None),
    "rename_coords": (6, lambda p, h: p.rename_coords(side="other", time="t"), "rename_coords"),
    "update_coords": (6, lambda p, h: p.update_coords(distance=h(np.array([4.0, 5.0, 9.0])), side=None), "update_coords"),
    "drop_coords": (6, lambda p, h: p.drop_coords("side", "near"), "drop_coords"),
    "set_dims": (6, lambda p, h: p.set_dims(time="near"), None),
    "add_distance_to": (6, lambda p, h: p.update_coords(x=("distance", np.arange(3)), y=("distance", np.arange(3))).add_distance_to(pd.Series({"x": 1, "y": 2})), "add_distance_to"),
    "coords_from_df": (6, lambda p, h: p.coords_from_df(h(pd.DataFrame({"distance": [1.0, 1.25, 1.5], "extra": [1, 2, 3]}))), "coords_from_df"),
    "set_units": (6, lambda p, h: p.set_units("kg", distance="ft"), "set_units"),
    "convert_units": (6, lambda p, h: p.convert_units("mm/s", distance="cm"), "convert_units"),
    "simplify_units": (6, lambda p, h: p.simplify_units(), "simplify_units"),
    "update_attrs": (6, lambda p, h: p.update_attrs(tag="two"), None),
    "update": (6, lambda p, h: p.update(data=p.data * 2, attrs=p.attrs.update(tag="two")), None),
    "min": (6, lambda p, h: p.min("time"), "min"),
    "mean": (6, lambda p, h: p.mean("distance", dim_reduce="mean"), "mean"),
    "median": (3, lambda p, h: p.median("time"), "median"),
    "first": (6, lambda p, h: p.first("distance", dim_reduce="squeeze"), "first"),
    "aggregate": (6, lambda p, h: p.aggregate(method="sum"), "aggregate"),
    "any": (6, lambda p, h: p.any("time"), "any"),
    "rolling": (6, lambda p, h: p.rolling(time=3, step=2, samples=True).mean(), "rolling"),
    "differentiate": (6, lambda p, h: p.differentiate("time"), "differentiate"),
    "differentiate more": (8, lambda p, h: p.differentiate("time", order=4), "differentiate"),
    "integrate": (6, lambda p, h: p.integrate("time", definite=True), "integrate"),
    "integrate on": (6, lambda p, h: p.integrate("time", definite=False), "integrate"),
    "velocity_to_strain_rate": (6, lambda p, h: p.velocity_to_strain_rate(), "velocity_to_strain_rate"),
    "velocity_to_strain_rate_edgeless": (6, lambda p, h: p.velocity_to_strain_rate_edgeless(), "velocity_to_strain_rate_edgeless"),
    "radians_to_strain": (6, lambda p, h: p.set_units("radian").radians_to_strain(gauge_length=10), "radians_to_strain"),
    "dft": (6, lambda p, h: p.dft("time"), "dft"),
    "dft both": (6, lambda p, h: p.dft(dim=None, real="time"), "dft"),
    "idft": (6, lambda p, h: p.dft("time").idft(), "idft"),
    "stft": (8, lambda p, h: p.stft(time=4, samples=True, overlap=2), "stft"),
    "istft": (8, lambda p, h: p.stft(time=4, samples=True, overlap=2).istft(), "istft"),
    "hilbert": (6, lambda p, h: p.hilbert("time"), "hilbert"),
    "envelope": (6, lambda p, h: p.envelope("time"), "envelope"),
    "phase_weighted_stack": (6, lambda p, h: p.phase_weighted_stack("distance", transform_dim="time"), "phase_weighted_stack"),
    "fbe": (28, lambda p, h: p.fbe(window=per(p, 3), time=(rate(p, 0.1), rate(p, 0.2)), db=False), "fbe"),
    "stalta": (6, lambda p, h: p.stalta(time=h([2, 4]), samples=True), "stalta"),
    "kurtosis": (6, lambda p, h: p.kurtosis(time=3, samples=True), "kurtosis"),
    "kurtosis window": (6, lambda p, h: p.kurtosis(time=3, samples=True, recursive=False), "kurtosis"),
    "tau_p": (6, lambda p, h: p.tau_p(h(np.array([1.0, 2.0]))), "tau_p"),
    "dispersion_phase_shift": (6, lambda p, h: p.dispersion_phase_shift(h(np.array([1.0, 2.0, 3.0]))), "dispersion_phase_shift"),
    "correlate": (6, lambda p, h: p.correlate(distance=h(np.array([0, 2])), samples=True), "correlate"),
    "correlate_shift": (6, lambda p, h: p.correlate_shift("time"), "correlate_shift"),
    "add": (6, lambda p, h: p + h(np.arange(p.shape[1])), ()),
    "in turn": (6, lambda p, h: 2 * p / (p**2 + 1), ()),
    "with itself": (6, lambda p, h: p * p.select(time=(1, None), samples=True), ()),
    "negative": (6, lambda p, h: -p, ()),
    "compare": (6, lambda p, h: p > 0, ()),
    "ufunc": (6, lambda p, h: np.maximum(p, 1), ()),
    "reduce": (6, lambda p, h: np.add.reduce(p, axis=0), ()),
    "function": (6, lambda p, h: np.mean(p, axis=1), ()),
    "pipe": (6, lambda p, h: p.pipe(lambda z, k: z * k, k=2), ()),
}
# methods which end in functions without a model get fixed cells, or coordinates which start at a fixed value
FIXED_CELLS = {"wiener_filter", "whiten", "envelope", "phase_weighted_stack", "dispersion_phase_shift", "slope_mute", "fbe"}
FIXED_START = {"slope_mute"}
ONE_CELL = {"stalta", "kurtosis", "median", "where patch"}
# what a method needs of its patch
NEEDS = {"velocity_to_strain_rate": dict(data_type="velocity"), "velocity_to_strain_rate_edgeless": dict(data_type="velocity")}
# methods that work through the Fourier transform along a dimension lose the coordinates attached to it; others change them on purpose
COORDS_CHANGE = {
    "slope_filter", "whiten", "align_to_coord", "transpose", "append_dims", "sort_coords", "rename_coords", "update_coords", "drop_coords", "set_dims", "add_distance_to",
    "coords_from_df", "set_units", "convert_units", "interpolate", "dft", "dft both", "idft", "stft", "istft", "correlate_shift", "roll coord", "flip", "pad",
}


@scenario(SCENARIOS, split={"op": len(OPS), "axis": 2})
def processed(x):
    """Every processing method leaves the patch and the arguments it was given alone, returns a patch whose data, coordinates, dimensions and attributes agree, and adds its own entry to the history."""
    name = list(OPS)[x.small("op", 0, len(OPS) - 1)]
    axis = x.small("axis", 0, 1)
    n, call, entry = OPS[name]
    free = name in ("real", "demean", "select", "decimate", "flip", "pad", "roll", "differentiate", "integrate", "mean", "rolling", "dft", "add") or x.thorough
    kind = KINDS[x.small("kind", 0, 3)] if free else KINDS[list(OPS).index(name) % 4]
    desc = x.small("desc", 0, 1) if free else axis
    if name in ("tau_p", "dispersion_phase_shift", "radians_to_strain"):
        kind = ("dt", "td")[axis]
    if name in ("kurtosis", "kurtosis window", "dispersion_phase_shift", "line_mute", "slope_mute", "tau_p", "taper", "taper one side", "taper_range", "align_to_coord", "differentiate more"):
        desc = 0
    p, data = build(x, n, axis, kind, desc, free_cells=0 if name in FIXED_CELLS else 1 if name in ONE_CELL else 3, free_start=name not in FIXED_START, **NEEDS.get(name, {}))
    if name == "align_to_coord":
        p = p.update_coords(hops=("distance", np.array([0, 1, 2])))
    before = {k: (c, cells(c) if len(c) else []) for k, c in p.coords.coord_map.items()}
    info = p.attrs.model_dump(exclude={"coords"})
    shape, held = p.shape, Held()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = call(p, held)
    # the input
    got = [[p.data[i, j] if axis == 0 else p.data[j, i] for j in range(3)] for i in range(n)]
    x.check(p.shape == shape and x.And(*[got[i][j] == data[i][j] for i in range(n) for j in range(3)]), "the input keeps its cells")
    x.check(set(before) == set(p.coords.coord_map), "the input keeps its coordinates")
    for k, (c, vals) in before.items():
        x.check(p.get_coord(k).units == c.units and x.And(*[a == b for a, b in zip(cells(p.get_coord(k)), vals)]), "the input keeps its coordinate values")
    x.check(p.attrs.model_dump(exclude={"coords"}) == info, "the input keeps its attributes")
    agrees(x, p, "input", tol=1e-9)
    x.check(held.same(), "the arguments are left alone")
    # the output
    x.check(isinstance(out, dc.Patch) and out is not p or name in ("snap_coords", "real", "conj", "dropna"), "a new patch is returned")
    x.check(tuple(out.data.shape) == out.shape == out.coords.shape == tuple(len(out.get_coord(d)) for d in out.dims), "one cell for every coordinate value")
    agrees(x, out, "output", tol=1e-9)
    x.check(out.attrs.gauge == 4.0 and out.attrs.station == "st" and (out.attrs.tag == "one" or name.startswith("update")), "other attributes are kept")
    if name not in COORDS_CHANGE and out.shape == shape and out.dims == p.dims:
        x.check(set(out.coords.coord_map) == set(before), "coordinates kept")
        for k, (c, vals) in before.items():
            if k in out.coords.coord_map:
                x.check(x.And(*[a == b for a, b in zip(cells(out.get_coord(k)), vals)]), "coordinate values kept")
    # the history
    old, new = list(info["history"]), list(out.attrs.history)
    x.check(new[: len(old)] == old, "earlier history kept")
    if entry is None:
        x.check(new == old, "nothing recorded")
    elif entry != ():
        x.check(len(new) > len(old) and (new[-1].startswith(entry + "(") or new[-1] == entry), "the call is recorded last")


@scenario(SCENARIOS, split={"history": 3, "need": 10})
def decorated(x):
    """A function made a patch method demands the dimensions, coordinates and attributes it asks for, sets its data type and is recorded with its arguments as it asks."""
    history = ("full", "method_name", None)[x.small("history", 0, 2)]
    need = x.small("need", 0, 9)
    dtype = (None, "", "strain")[x.small("dtype", 0, 2)]
    same, keyword = x.bool("same"), x.bool("keyword")
    needs, error = (
        ({}, None), (dict(required_dims=("time", "distance")), None), (dict(required_dims=("time", "depth")), PatchCoordinateError),
        (dict(required_coords=("near", "time")), None), (dict(required_coords=("near", "far")), PatchCoordinateError),
        (dict(required_attrs={"tag": "one", "gauge": x.flt("want", 3, 5, 2)}), PatchAttributeError), (dict(required_attrs=("tag", "nothing")), PatchAttributeError),
        (dict(required_dims=("time", "depth"), required_coords=("near",)), PatchCoordinateError), (dict(required_dims=("time",), required_coords=("near", "far"), required_attrs=("tag",)), PatchCoordinateError),
        (dict(required_dims=("time",), required_coords=("near",), required_attrs=("tag", "station")), None),
    )[need]
    p, data = build(x, 6, 0, "dt", 0, data_type="velocity")
    calls = []

    @patch_function(history=history, data_type=dtype, **needs)
    def scale_it(patch, factor, shift=0, samples=False, **kwargs):
        """A method."""
        calls.append((factor, shift, samples, kwargs))
        return patch if same else patch.new(data=patch.data * factor)

    v = x.small("factor", 2, 4)
    run = (lambda: scale_it(p, factor=v, shift=7, samples=True, other=[1, 2])) if keyword else (lambda: scale_it(p, v, 7, True, other=[1, 2]))
    met = error is None or (need == 5 and needs["required_attrs"]["gauge"] == 4.0)
    if not met:
        x.check(x.raises(run, error) and not calls, "a patch without what is asked for is refused")
        if "required_attrs" not in needs:
            ask = {k[9:]: v for k, v in needs.items()}
            x.check(x.raises(lambda: check_patch_coords(p, **ask), error), "nor does it pass the check by itself")
        return
    out = run()
    x.check(calls == [(v, 7, True, {"other": [1, 2]})], "the arguments arrive")
    f = 1 if same else v
    x.check(x.And(*[out.data[i, j] == data[i][j] * f for i in range(6) for j in range(3)]), "what the function returned")
    x.check(out.attrs.data_type == ("velocity" if dtype is None else dtype), "the data type")
    x.check(p.attrs.data_type == "velocity", "the input's data type")
    new = list(out.attrs.history)
    x.check(new[:2] == ["made", "twice"], "earlier history kept")
    if same or history is None:
        x.check(len(new) == 2, "nothing recorded")
    else:
        x.check(len(new) == 3 and new[2].startswith("scale_it"), "recorded once")
        if history == "full":
            x.check(all(t in new[2] for t in ("factor", str(v), "shift", "7", "samples", "True", "other", "1,2")), "with its arguments")
        else:
            x.check(new[2] == "scale_it", "by name only")


@scenario(SCENARIOS, split={"first": 6, "second": 6})
def in_turn(x):
    """Methods called in turn leave every patch on the way alone and add their entries in order."""
    ops = ("demean", "flip", "rolling", "pad", "differentiate", "fillna")
    a, b = ops[x.small("first", 0, 5)], ops[x.small("second", 0, 5)]
    axis, kind, desc = x.small("axis", 0, 1), KINDS[x.small("kind", 0, 3)], x.small("desc", 0, 1)
    p, data = build(x, 6, axis, kind, desc)
    h = Held()
    mid = OPS[a][1](p, h)
    n, m = mid.shape
    kept = [[mid.data[i, j] for j in range(m)] for i in range(n)]
    out = OPS[b][1](mid, h)
    again = OPS[b][1](mid, h)
    x.check(mid.shape == (n, m) and x.And(*[mid.data[i, j] is kept[i][j] or bool(kept[i][j] != kept[i][j]) or mid.data[i, j] == kept[i][j] for i in range(n) for j in range(m)]), "the patch on the way keeps its cells")
    x.check(x.And(*[p.data[(i, j) if axis == 0 else (j, i)] == data[i][j] for i in range(6) for j in range(3)]), "the input keeps its cells")
    for q in (p, mid, out):
        agrees(x, q, "each patch", tol=1e-9)
    pairs = [(out.data[i, j], again.data[i, j]) for i in range(out.shape[0]) for j in range(out.shape[1])]
    x.check(out.coords == again.coords and out.attrs == again.attrs and x.And(*[bool(u != u) and bool(w != w) or u == w for u, w in pairs]), "the same call gives the same patch again")
    hist = [s.split("(")[0] for s in out.attrs.history]
    x.check(hist[:2] == ["made", "twice"] and [s for s in hist[2:] if s in (a.split()[0], b.split()[0])] == [a.split()[0], b.split()[0]], "entries in order")
    x.check(list(mid.attrs.history) == list(out.attrs.history)[: len(mid.attrs.history)], "earlier history kept")
