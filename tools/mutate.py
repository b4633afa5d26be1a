#!/usr/bin/env python3
"""Mutation campaign (development aid): small edits to the anchored functions, run the property's check on each,
and the repository's tests on those the check does not report.

tools/mutate.py PROP COUNT SEED  ->  appends to /tmp/mut/PROP.log
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

TARGETS = {
    "C01": [("dascore/core/coords.py", "CoordRange.select CoordRange._get_index CoordMonotonicArray.select CoordMonotonicArray._get_index CoordArray.select BaseCoord._slice_degenerate BaseCoord.get_slice_tuple BaseCoord._get_compatible_value get_compatible_values"), ("dascore/proc/coords.py", "select")],
    "C02": [("dascore/core/coords.py", "BaseCoord._select_by_array BaseCoord._select_by_samples BaseCoord._get_relative_values BaseCoord.order BaseCoord._order_by_value_array BaseCoord._get_value_index BaseCoord._slice_degenerate _negate_values BaseCoord._order_by_samples"), ("dascore/utils/misc.py", "_maybe_array_to_slice _validate_sample_values _to_slice")],
    "C03": [("dascore/core/coords.py", "get_coord _maybe_get_start_stop_step CoordRange.sort CoordArray.sort CoordMonotonicArray.sort CoordRange.snap BaseCoord.snap"), ("dascore/utils/misc.py", "all_diffs_close_enough")],
    "C04": [("dascore/core/coords.py", "CoordRange.__getitem__ CoordRange.values CoordRange.shape CoordRange._max CoordRange._min CoordRange.__len__ CoordArray.__getitem__ CoordMonotonicArray._max CoordMonotonicArray._min CoordArray._max CoordRange.ensure_all_attrs_set")],
    "C05": [("dascore/core/coords.py", "CoordRange.update_limits CoordRange.change_length CoordArray.update_limits BaseCoord.update CoordRange.update_data CoordArray.update_data CoordRange.sort BaseCoord.empty")],
    "C06": [("dascore/core/coords.py", "BaseCoord.get_next_index CoordRange.get_next_index BaseCoord.get_sample_count CoordRange._get_index CoordMonotonicArray._get_index BaseCoord.coord_range BaseCoord.approx_equal")],
    "C07": [("dascore/core/coordmanager.py", "CoordManager.sort CoordManager.rename_coord CoordManager.squeeze CoordManager.transpose CoordManager.snap CoordManager.order CoordManager.drop_coords CoordManager.set_dims CoordManager.flip"), ("dascore/proc/basic.py", "transpose squeeze flip"), ("dascore/proc/coords.py", "sort_coords rename_coords set_dims append_dims flip order drop_coords")],
    "C08": [("dascore/proc/aggregate.py", None), ("dascore/core/coords.py", "BaseCoord.reduce_coord CoordRange.reduce_coord"), ("dascore/core/coordmanager.py", "CoordManager.update get_coord_manager _get_coord_dim_map")],
    "C09": [("dascore/utils/patch.py", "align_patch_coords get_multiple_dim_value_from_kwargs"), ("dascore/utils/array.py", "apply_ufunc"), ("dascore/core/coordmanager.py", "merge_coord_managers CoordManager.validate_data"), ("dascore/core/coords.py", "BaseCoord.align_to")],
    "C10": [("dascore/utils/patch.py", "concatenate_patches stack_patches check_dims check_coords _force_patch_merge"), ("dascore/core/coordmanager.py", "merge_coord_managers")],
    "C11": [("dascore/proc/rolling.py", None), ("dascore/utils/patch.py", "get_window_axis_step get_patch_window_size")],
    "C12": [("dascore/proc/basic.py", "pad roll"), ("dascore/proc/align.py", None)],
    "C13": [("dascore/proc/basic.py", "normalize standardize fillna equals dropna where full"), ("dascore/proc/detrend.py", None), ("dascore/core/coordmanager.py", "CoordManager.equals CoordManager.__eq__"), ("dascore/core/coords.py", "BaseCoord.__eq__ CoordRange.__eq__ CoordArray.__eq__")],
    "C14": [("dascore/proc/mute.py", None), ("dascore/proc/taper.py", None)],
    "C15": [("dascore/utils/chunk.py", None)],
    "C16": [("dascore/utils/chunk.py", None), ("dascore/utils/pd.py", "_remove_overlaps _instructions_modified"), ("dascore/core/spool.py", "DataFrameSpool._merge_patches_streaming _estimate_merge_samples DataFrameSpool._load_trimmed_patch"), ("dascore/utils/patch.py", "_force_patch_merge _get_merged_coord")],
    "C17": [("dascore/core/spool.py", "DataFrameSpool.__getitem__ DataFrameSpool.select DataFrameSpool.sort DataFrameSpool.split DataFrameSpool._select_from_array DataFrameSpool.new_from_df DataFrameSpool._get_dummy_dataframes DataFrameSpool._get_patches_from_index DataFrameSpool._load_trimmed_patch"), ("dascore/utils/pd.py", "adjust_segments filter_df _filter_multicolumn_range _filter_equality _filter_contains split_df_query")],
    "C18": [("dascore/utils/time.py", None)],
    "C19": [("dascore/units.py", None), ("dascore/proc/units.py", None), ("dascore/core/coords.py", "CoordRange.convert_units CoordArray.convert_units BaseCoord.set_units BaseCoord.simplify_units BaseCoord._get_compatible_value")],
    "C21": [("dascore/transform/differentiate.py", None), ("dascore/transform/integrate.py", None), ("dascore/transform/strain.py", None), ("dascore/utils/patch.py", "_get_dx_or_spacing_and_axes _get_data_units_from_dims")],
    "C22": [("dascore/io/dasdae/core.py", None), ("dascore/io/dasdae/utils.py", None), ("dascore/utils/misc.py", "_apply_union_indexers"), ("dascore/core/coordmanager.py", "CoordManager.select _get_indexers_and_new_coords_dict")],
    "C23": [("dascore/proc/resample.py", "decimate interpolate"), ("dascore/core/coordmanager.py", "CoordManager.decimate CoordManager.snap"), ("dascore/core/coords.py", "BaseCoord.snap")],
    "C25": [("dascore/transform/fourier.py", None), ("dascore/utils/transformatter.py", None)],
    "C26": [("dascore/proc/filter.py", None), ("dascore/proc/resample.py", None), ("dascore/proc/detrend.py", None), ("dascore/transform/hilbert.py", None), ("dascore/utils/patch.py", "get_dim_sampling_rate")],
    "C27": [("dascore/proc/correlate.py", None), ("dascore/proc/hampel.py", None), ("dascore/transform/stalta.py", None), ("dascore/transform/fbe.py", None), ("dascore/transform/kurtosis.py", None), ("dascore/transform/taup.py", None), ("dascore/utils/moving.py", "moving_window _apply_bottleneck_median _shift_bottleneck_result move_median")],
    "C24": [("dascore/core/attrs.py", None), ("dascore/utils/attrs.py", None), ("dascore/core/coordmanager.py", "CoordManager.update CoordManager.update_from_attrs CoordManager.to_summary_dict"), ("dascore/proc/basic.py", "update update_attrs"), ("dascore/core/patch.py", "Patch.__init__"), ("dascore/utils/misc.py", "_get_compiled_suffix_prefix_regex")],
    "C20": [("dascore/io/indexer.py", "DirectoryIndexer.get_contents DirectoryIndexer._set_cache DirectoryIndexer._get_next_index DirectoryIndexer._kwargs_to_str DirectoryIndexer._get_mtime"), ("dascore/utils/hdf5.py", "HDFPatchIndexManager.encode_table HDFPatchIndexManager.decode_table HDFPatchIndexManager.get_index _get_kernel_query"), ("dascore/utils/pd.py", None), ("dascore/clients/dirspool.py", None), ("dascore/utils/misc.py", "_iter_filesystem")],
}
if os.path.exists("/verif/tools/mutate_more.json"):
    for k, v in json.load(open("/verif/tools/mutate_more.json")).items():
        TARGETS.setdefault(k, [tuple(t) for t in v])

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult}
NAMES = {"min": "max", "max": "min", "ceil": "floor", "floor": "ceil", "all": "any", "any": "all", "left": "right", "right": "left", "start": "stop", "stop": "start", "minimum": "maximum", "maximum": "minimum", "sorted": "reverse_sorted", "reverse_sorted": "sorted", "time_min": "time_max", "time_max": "time_min", "isnull": "notnull", "argmin": "argmax", "nanmin": "nanmax", "nanmax": "nanmin", "nanmean": "nanmedian", "cummax": "cummin", "zeros": "ones", "ones": "zeros", "first": "last"}


def functions(tree, wanted):
    out = []

    def walk(node, prefix):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.ClassDef):
                walk(ch, prefix + ch.name + ".")
            elif isinstance(ch, ast.FunctionDef):
                q = prefix + ch.name
                if wanted is None or q in wanted:
                    if not ch.name.startswith(("__rich", "__repr", "__str")):
                        out.append(ch)
            elif isinstance(ch, (ast.If, ast.Try)):
                walk(ch, prefix)
    walk(tree, "")
    return out


def sites(func):
    """(node, description, apply) triples."""
    out = []
    body = func.body[1:] if ast.get_docstring(func) else func.body
    for st in body:
        for node in ast.walk(st):
            if isinstance(node, ast.Compare):
                for i, op in enumerate(node.ops):
                    if type(op) in CMP:
                        out.append((node, f"cmp {type(op).__name__}->{CMP[type(op)].__name__}", lambda n=node, i=i, o=op: n.ops.__setitem__(i, CMP[type(o)]())))
                        if type(op) in (ast.Lt, ast.LtE):
                            out.append((node, "cmp <->", lambda n=node, i=i: n.ops.__setitem__(i, ast.Gt())))
            elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
                out.append((node, f"bin {type(node.op).__name__}", lambda n=node: setattr(n, "op", BIN[type(n.op)]())))
            elif isinstance(node, ast.BoolOp):
                out.append((node, "bool and/or", lambda n=node: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
                out.append((node, "bool drop last", lambda n=node: n.values.pop() if len(n.values) > 2 else n.values.__setitem__(1, n.values[0])))
                out.append((node, "bool drop first", lambda n=node: n.values.__setitem__(0, n.values[1])))
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
                out.append((node, f"unary {type(node.op).__name__}", lambda n=node: setattr(n, "op", ast.UAdd()) if isinstance(n.op, ast.USub) else n.__dict__.update(ast.Call(ast.Name("bool", ast.Load()), [n.operand], []).__dict__) or setattr(n, "__class__", ast.Call)))
            elif isinstance(node, ast.Constant) and isinstance(node.value, (int, bool, float)) and node.value is not None:
                v = node.value
                new = [not v] if isinstance(v, bool) else [v + 1, v - 1] if isinstance(v, int) else [v * 1.5]
                for w in new:
                    out.append((node, f"const {v}->{w}", lambda n=node, w=w: setattr(n, "value", w)))
            elif isinstance(node, ast.Attribute) and node.attr in NAMES:
                out.append((node, f"attr {node.attr}", lambda n=node: setattr(n, "attr", NAMES[n.attr])))
            elif isinstance(node, ast.Name) and node.id in NAMES and isinstance(node.ctx, ast.Load):
                out.append((node, f"name {node.id}", lambda n=node: setattr(n, "id", NAMES[n.id])))
            elif isinstance(node, ast.Constant) and node.value in NAMES:
                out.append((node, f"str {node.value}", lambda n=node: setattr(n, "value", NAMES[n.value])))
            elif isinstance(node, ast.IfExp):
                out.append((node, "ifexp body", lambda n=node: setattr(n, "orelse", n.body)))
                out.append((node, "ifexp else", lambda n=node: setattr(n, "body", n.orelse)))
            elif isinstance(node, ast.If):
                out.append((node, "if true", lambda n=node: setattr(n, "test", ast.Constant(True))))
                out.append((node, "if false", lambda n=node: setattr(n, "test", ast.Constant(False))))
            elif isinstance(node, (ast.AugAssign,)):
                out.append((node, "drop augassign", lambda n=node: setattr(n, "value", ast.BinOp(n.value, ast.Mult(), ast.Constant(0))) if isinstance(n.op, (ast.Add, ast.Sub)) else None))
            elif isinstance(node, ast.Call) and len(node.args) == 1 and not node.keywords and isinstance(node.func, (ast.Name, ast.Attribute)):
                nm = node.func.id if isinstance(node.func, ast.Name) else node.func.attr
                if nm in ("abs", "sorted", "ceil", "floor", "round", "asarray", "unique", "copy", "cumsum"):
                    out.append((node, f"drop call {nm}", lambda n=node: n.__dict__.update(func=ast.Lambda(ast.arguments([], [ast.arg("z_")], None, [], [], None, []), ast.Name("z_", ast.Load())))))
            elif isinstance(node, ast.keyword) and node.arg and isinstance(node.value, ast.Name):
                pass
    return out


def main():
    prop, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rnd = random.Random(f"{prop}{seed}")
    todo = []
    for path, wanted in TARGETS[prop]:
        src = open(f"/repo/{path}").read()
        fs = functions(ast.parse(src), set(wanted.split()) if wanted else None)
        for fi, f in enumerate(fs):
            for si, s in enumerate(sites(f)):
                todo.append((path, wanted, fi, si))
    rnd.shuffle(todo)
    os.makedirs("/tmp/mut", exist_ok=True)
    log = open(f"/tmp/mut/{prop}.log", "a")
    base = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    tree_dir = f"{base}/repo"
    shutil.copytree("/repo", tree_dir, symlinks=True)
    done = 0
    try:
        for path, wanted, fi, si in todo:
            if done >= count:
                break
            src = open(f"/repo/{path}").read()
            tree = ast.parse(src)
            func = functions(tree, set(wanted.split()) if wanted else None)[fi]
            node, what, act = sites(func)[si]
            line = node.lineno
            text = src.splitlines()[line - 1].strip()
            try:
                act()
                new = ast.unparse(ast.fix_missing_locations(tree))
                ast.parse(new)
            except Exception as ex:  # noqa
                continue
            if new == ast.unparse(ast.parse(src)):
                continue
            done += 1
            open(f"{tree_dir}/{path}", "w").write(new)
            name = f"{prop} {path}:{line} {func.name} [{what}] {text}"
            r = subprocess.run([os.environ.get("VSNAP", "/verif") + "/check.sh", prop], env={**os.environ, "SX_TREE": tree_dir}, capture_output=True, text=True)
            if r.returncode == 1:
                res = "caught"
            else:
                res = f"missed({r.returncode})"
                t = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {tree_dir}; export PYTHONPATH={tree_dir}").replace("refresh_install\n", "\n")
                open(f"{base}/test.sh", "w").write(t)
                subprocess.run(["bash", f"{base}/test.sh", f"{base}/out.json"], capture_output=True)
                b = json.load(open("/opt/vp/BASELINE.json"))
                b = b.get("passed") or b.get("stable") or b
                o = set(json.load(open(f"{base}/out.json"))["passed"])
                n = sum(k not in o for k in b)
                res += f" tests_broken={n}" + ("  <<< SURVIVOR" if not n else "")
            log.write(f"{res} :: {name}\n")
            log.flush()
            open(f"{tree_dir}/{path}", "w").write(src)
    finally:
        shutil.rmtree(base, ignore_errors=True)


main()
