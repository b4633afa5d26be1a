"""C29: Files are read by the plugin which recognises them."""
from __future__ import annotations

import atexit
import shutil
import tempfile
import warnings
from pathlib import Path

import numpy as np
import pandas as pd

import dascore as dc
from dascore.exceptions import InvalidFiberFileError, InvalidFiberIOError, MissingOptionalDependencyError, UnknownFiberFormatError
from dascore.io import BinaryReader
from dascore.io.core import FiberIO, _FiberIOManager
from sx.harness import scenario

SCENARIOS = {}
OPTIONS = {}
BOUNDS = (
    "up to four plugins of two formats with listed versions which prefer any extensions and recognise, refuse or fail on any of up to three files in up to three directories; handles moved up to seven bytes; "
    "registered directly or through entry points, any of which may fail to load"
)
ASSUMPTIONS = ["plugins are stand-ins whose answers are unknown; files hold a few bytes in a scratch directory", "vendor formats themselves are not applicable (N03)"]
COVERS = ["none"]

ROOT = Path(tempfile.mkdtemp(prefix="c29"))
atexit.register(shutil.rmtree, ROOT, True)
for _name in ("one.abc", "two.abc", "three.xyz", "plain"):
    (ROOT / _name).write_bytes(b"0123456789")


def tree(name, *files):
    """A directory of its own with the files given."""
    top = ROOT / name
    for f in files:
        (top / f).parent.mkdir(parents=True, exist_ok=True)
        (top / f).write_bytes(b"0123456789")
    return top


class Fresh:
    """FiberIO with only the plugins defined inside, and what these were asked."""

    def __init__(self, eps=None):
        self.asked, self.read, self.written, self.handles, self.whole = [], [], [], [], []
        self.manager = _FiberIOManager("nothing")
        self.manager._eps = pd.Series(eps or {}, dtype=object)

    def __enter__(self):
        self.old, FiberIO.manager = FiberIO.manager, self.manager
        return self

    def __exit__(self, *args):
        FiberIO.manager = self.old

    def define(self, name, version, answer, exts=(), scanned=None, directory=False, moves=0):
        """A plugin; answer(name of the file) is whether it recognises it."""
        log = self

        class Plugin:
            def get_format(self, resource: BinaryReader, **kwargs):
                log.asked.append((name, version, resource.tell()))
                log.handles.append(resource)
                resource.read(moves)
                return (name, version) if answer(Path(resource.name).name) else False

            def read(self, resource: BinaryReader, **kwargs):
                log.read.append((name, version, resource.tell(), kwargs))
                log.handles.append(resource)
                resource.read(moves)
                return f"{name} {version}"

            def scan(self, resource: BinaryReader, **kwargs):
                file = Path(resource.name).name
                log.handles.append(resource)
                if scanned is not None:
                    scanned(file)
                return [dc.PatchAttrs(tag=f"{name} {file}"), dc.PatchAttrs(tag="more", station=version)]

            def write(self, spool, resource: Path, **kwargs):
                log.written.append((name, version, spool, resource, kwargs))

        class Whole:
            def get_format(self, resource: Path, **kwargs):
                log.asked.append((name, version, 0))
                log.whole.append(resource)
                return (name, version) if answer(Path(resource).name) else False

            def scan(self, resource: Path, **kwargs):
                return [dc.PatchAttrs(tag=f"{name} {Path(resource).name}")]

        base = Whole if directory else Plugin
        body = dict(name=name, version=version, preferred_extensions=tuple(exts), input_type="directory" if directory else "file")
        body |= {k: v for k, v in vars(base).items() if k in ("get_format", "read", "scan", "write")}
        return type("Made", (FiberIO,), body)


def fails(*args):
    raise OSError("cannot read this")


def answer_of(k):
    """Recognise, refuse or fail."""
    return (lambda f: True, lambda f: False, fails)[k]


VERSIONS = (("1", "2"), ("2", "1"), ("9", "10"), ("11", "2"), ("1.9", "1.10"))


def number(v):
    return [int(i) for i in v.split(".")]


@scenario(SCENARIOS, split={"form": 4, "pair": 5, "turn": 2})
def recognised(x):
    """get_format and read use a plugin of the format and version named which recognises the file: those preferring its extension, then the newest versions first; the others' failures and reading do not matter."""
    form, turn = x.small("form", 0, 3), x.bool("turn")
    v1, v2 = VERSIONS[x.small("pair", 0, 4)]
    ver = {"a1": v1, "a2": v2, "b": "3"}
    says = {k: x.small("says_" + k, 0, 2) for k in ver}
    like = {k: bool(x.bool("like_" + k)) if form == 0 else k == "b" for k in ver}
    file = ROOT / (x.choice("file", ("one.abc", "plain")) if form == 0 else "one.abc")

    def good(k):
        return says[k] == 0

    with Fresh() as f:
        for k in ("b", "a2", "a1") if turn else ("a1", "a2", "b"):
            f.define("BETA" if k == "b" else "ALPHA", ver[k], answer_of(says[k]), ("zip", "abc") if like[k] else ("zip",), moves=3)
        f.define("WHOLE", "1", lambda n: True, ("abc",), directory=True)
        kw = ({}, {"file_format": "ALPHA"}, {"file_format": "alpha", "file_version": v2}, {"file_format": "BETA"})[form]
        # the best first, ties together
        old, new = ("a1", "a2") if number(v1) < number(v2) else ("a2", "a1")
        if form == 0:
            pref = [k for k in ver if like[k]] if file.suffix else []
            ranks = [pref, [new, "b"], [old]]
        else:
            ranks = [[], [[new], [old]], [["a2"]], [["b"]]][form]
        best = next((r for r in ([k for k in r if good(k)] for r in ranks) if r), [])
        want = [("BETA" if k == "b" else "ALPHA", ver[k]) for k in best]
        x.cover("none", not want)
        if not want:
            x.check(x.raises(lambda: dc.get_format(file, **kw), UnknownFiberFormatError), "nothing recognises the file")
            if form != 2:
                x.check(x.raises(lambda: dc.read(file, **kw), UnknownFiberFormatError) and not f.read, "an unknown file is not read")
        else:
            got = dc.get_format(file, **kw)
            x.check(got in want, "the best plugin which recognises the file")
            out = dc.read(file, time=(1, 2), distance=(None, 3), extra=4, **kw)
            name, version = out.split()
            x.check((name, version) in want or form == 2, "read by the plugin which recognises the file")
            x.check([(a, b, c) for a, b, c, _ in f.read] == [(name, version, 0)], "read once, from the start")
            kws = f.read[0][3]
            x.check(kws["time"] == (1, 2) and kws["distance"] == (None, 3) and kws["extra"] == 4 and kws["file_version"] == version, "with the ranges and options given")
        x.check(all(pos == 0 for _, _, pos in f.asked), "every plugin sees the file from its start")
        x.check(all(n != "WHOLE" for n, _, _ in f.asked), "plugins for directories are not asked about files")
        x.check(all(h.closed for h in f.handles), "the file is closed")


@scenario(SCENARIOS, split={"form": 3})
def named(x):
    """A format and version named are used without asking; unknown ones are refused."""
    form = x.small("form", 0, 2)
    v1, v2 = VERSIONS[x.small("pair", 0, 4)]
    w = x.choice("want", ("1", "2", "10", "1.10", "7"))
    file = ROOT / "one.abc"
    patch = dc.Patch(data=np.ones(2), coords={"time": [1, 2]}, dims=("time",))
    with Fresh() as f:
        f.define("ALPHA", v1, answer_of(1))
        f.define("ALPHA", v2, answer_of(1))
        f.define("BETA", "1", answer_of(0))
        if form == 0:
            if w in (v1, v2):
                x.check(dc.read(file, "ALPHA", w) == f"ALPHA {w}" and not f.asked, "read as named")
            else:
                x.check(x.raises(lambda: dc.read(file, "ALPHA", w), UnknownFiberFormatError), "unknown version")
            x.check(x.raises(lambda: dc.read(file, "GAMMA"), UnknownFiberFormatError) and x.raises(lambda: dc.read(file, "GAMMA", w), UnknownFiberFormatError), "unknown format")
            x.check(x.raises(lambda: dc.get_format(file, None, w), UnknownFiberFormatError), "a version without a format")
            x.check(x.raises(lambda: dc.get_format(ROOT / "missing.abc"), FileNotFoundError), "no file")
        elif form == 1:
            new = v1 if number(v1) > number(v2) else v2
            dest = ROOT / "out.bin"
            one = x.bool("spool")
            given = dc.spool([patch]) if one else patch
            res = dc.write(given, dest, "alpha" if x.bool("lower") else "ALPHA", option=5)
            x.check(len(f.written) == 1, "written once")
            name, version, spool, resource, kw = f.written[0]
            x.check((name, version) == ("ALPHA", new), "by the newest version")
            x.check(len(spool) == 1 and spool[0].equals(patch) and Path(resource) == dest and res == dest and kw == {"option": 5}, "everything is handed over")
            x.check(x.raises(lambda: dc.write(patch, dest, "GAMMA"), UnknownFiberFormatError), "unknown format")
            if w in (v1, v2):
                dc.write(patch, dest, "ALPHA", file_version=w)
                x.check(f.written[-1][:2] == ("ALPHA", w), "by the version named")
            else:
                x.check(x.raises(lambda: dc.write(patch, dest, "ALPHA", w), UnknownFiberFormatError), "unknown version")
        else:
            x.check(x.raises(lambda: f.define("", w, answer_of(0)), InvalidFiberIOError), "a format needs a name")
            table = FiberIO.get_supported_io_table()
            x.check(sorted(zip(table["name"], table["version"])) == sorted([("ALPHA", v1), ("ALPHA", v2), ("BETA", "1")]), "table of formats")
            x.check(bool(table[["scan", "get_format", "read", "write"]].all().all()), "table of abilities")


FILES = ("k0.abc", "k1.abc", "k2.xyz")


@scenario(SCENARIOS, split={"o0": 6, "o1": 6})
def scanned(x):
    """Scanning lists every file by the plugin which recognises it, whatever came before it; files no plugin knows are skipped, broken ones are warned about and the rest still listed."""
    own = [x.small(f"o{i}", 0, 5) for i in range(3)]  # alpha, beta, none, broken, needing a package, failing plugin
    order = x.small("order", 0, 2)
    names = [FILES[i] for i in ((0, 1, 2), (2, 0, 1), (1, 2, 0))[order]]
    of = {f: own[i] for i, f in enumerate(FILES)}
    errors = (OSError, InvalidFiberFileError, ValueError, TypeError)[(own[0] + own[1]) % 4]

    def scan(file):
        if of[file] == 3:
            raise errors("broken")
        if of[file] == 4:
            raise MissingOptionalDependencyError("segpy is not installed")

    def refuse(file):
        if of[file] == 5:
            raise RuntimeError("plugin failure")
        return False

    top = tree("scan", *FILES)
    with Fresh() as f, warnings.catch_warnings(record=True) as warned:
        warnings.simplefilter("always")
        f.define("GAMMA", "1", refuse, ("abc",), moves=x.choice("moves", (0, 7)))
        f.define("ALPHA", "2", lambda n: of[n] in (0, 3, 4), ("xyz",), scanned=scan, moves=2)
        f.define("BETA", "1", lambda n: of[n] == 1, ("abc",), scanned=scan)
        paths = [top / n for n in names]
        listed = [n for n in names if of[n] < 2]
        needy = sum(of[n] == 4 for n in names)
        broken = sum(of[n] == 3 for n in names)
        if needy and not listed:
            x.check(x.raises(lambda: dc.scan(paths, progress=None), MissingOptionalDependencyError), "only files which need a package")
            return
        out = dc.scan(paths, progress=None)
        want = []
        for n in listed:
            want += [(("ALPHA", "BETA")[of[n]] + " " + n, ""), ("more", ("2", "1")[of[n]])]
        x.check([(a.tag, a.station) for a in out] == want, "one entry for every patch of the files recognised, in order")
        mine = [str(w.message) for w in warned if issubclass(w.category, UserWarning)]
        x.check(sum("Failed to scan" in m for m in mine) == broken, "a warning for every broken file")
        x.check(any("segpy" in m for m in mine) == bool(needy), "a warning for missing packages")
        x.check(all(h.closed for h in f.handles), "files are closed")
        x.check(all(pos == 0 for _, _, pos in f.asked), "every plugin sees the file from its start")
        df = dc.scan_to_df(paths, progress=None)
        x.check(list(df["tag"]) == [t for t, _ in want] if want else len(df) == 0, "as a table")


@scenario(SCENARIOS, split={"dirs": 8})
def directories(x):
    """A directory a plugin recognises is one source and its files are not read one by one; the others' files are found however deep they lie."""
    dirs = x.small("dirs", 0, 7)
    skip, ext = x.small("skip", 0, 3), x.choice("ext", (None, "abc", "xyz"))
    names = ("d0", "d1", "d2")
    mine = {n: bool(dirs >> i & 1) for i, n in enumerate(names)}
    files = {"d0": ("f0.abc", "f1.xyz"), "d1": ("f2.abc",), "d2": ("f3.abc", "f4.xyz")}
    top = tree("deep", "d0/f0.abc", "d0/f1.xyz", "d1/f2.abc", "d1/d2/f3.abc", "d1/d2/f4.xyz")
    with Fresh() as f:
        f.define("WHOLE", "1", lambda n: mine.get(n, False), directory=True)
        f.define("ALPHA", "1", lambda n: n != f"f{skip}.abc")
        got = sorted(a.tag for a in dc.scan(top, progress=None, ext=ext) if a.tag != "more")
    x.check(all(Path(w).is_dir() for w in f.whole), "plugins for directories are not asked about files")
    want = [f"WHOLE {n}" for n in names if mine[n] and not (n == "d2" and mine["d1"])]
    for n in names:
        if mine[n] or (n == "d2" and mine["d1"]):
            continue
        want += [f"ALPHA {k}" for k in files[n] if k != f"f{skip}.abc" and (ext is None or k.endswith(ext))]
    if ext is None:
        x.check(got == sorted(want), "directories as a whole, the other files one by one")
    else:
        x.check([g for g in got if g.startswith("ALPHA")] == sorted(w for w in want if w.startswith("ALPHA")), "files of the extension asked for")


@scenario(SCENARIOS, split={"bad": 8})
def loaded(x):
    """Plugins come from their entry points; one which cannot be loaded is warned about and the others work."""
    bad, ask = x.small("bad", 0, 7), x.small("ask", 0, 3)
    fresh = Fresh()
    entries = (("ALPHA__V1", "ALPHA", "1"), ("ALPHA__V11", "ALPHA", "11"), ("ALPHABET__V1", "ALPHABET", "1"))
    loads = []

    def entry(i, name, version):
        def load():
            loads.append(i)
            if bad >> i & 1:
                raise ImportError("stale entry point")
            return fresh.define(name, version, answer_of(0))

        return load

    fresh.manager._eps = pd.Series({n: entry(i, a, b) for i, (n, a, b) in enumerate(entries)}, dtype=object)
    good = [i for i in range(3) if not bad >> i & 1]
    alpha = [entries[i][2] for i in good if i < 2]
    with fresh as f, warnings.catch_warnings(record=True) as warned:
        warnings.simplefilter("always")
        if ask == 0:
            if good:
                x.check(dc.get_format(ROOT / "one.abc") in [entries[i][1:] for i in good], "one of those loaded")
            else:
                x.check(x.raises(lambda: dc.get_format(ROOT / "one.abc"), UnknownFiberFormatError), "nothing loaded")
            x.check(sorted(set(loads)) == [0, 1, 2], "all are tried")
            x.check(sum("stale" in str(w.message) for w in warned) == 3 - len(good), "a warning for each that fails")
        elif ask == 1:
            if alpha:
                x.check(dc.read(ROOT / "one.abc", "ALPHA") == "ALPHA " + max(alpha, key=int), "the newest one loaded")
            else:
                x.check(x.raises(lambda: dc.read(ROOT / "one.abc", "ALPHA"), UnknownFiberFormatError), "not loaded")
        elif ask == 2:
            if 2 in good:
                x.check(dc.read(ROOT / "one.abc", "ALPHABET", "1") == "ALPHABET 1", "the one named")
            else:
                x.check(x.raises(lambda: dc.read(ROOT / "one.abc", "ALPHABET", "1"), UnknownFiberFormatError), "not loaded")
            if alpha:
                x.check(dc.get_format(ROOT / "one.abc", "ALPHA")[1] == max(alpha, key=int), "then another")
        else:
            x.check(fresh.manager.known_formats == {"ALPHA", "ALPHABET"}, "formats known without loading")
            fresh.manager.load_plugins()
            n = len(loads)
            fresh.manager.load_plugins()
            got = [dc.get_format(ROOT / "one.abc") if good else None for _ in range(2)]
            x.check(len(loads) == n == 3 and got[0] == got[1], "loaded once")
