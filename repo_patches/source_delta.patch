From b024c8de16867449d5d15abff2cbde1c398c2f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:05 +0000
Subject: [PATCH 01/59] fix: keep ns precision when searching reverse sorted
 time coordinates

---
 dascore/core/coords.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 5e494e6..6e4c5e5 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -51,7 +51,13 @@ from dascore.utils.models import (
     DascoreBaseModel,
     UnitQuantity,
 )
-from dascore.utils.time import dtype_time_like, is_datetime64, is_timedelta64, to_float
+from dascore.utils.time import (
+    dtype_time_like,
+    is_datetime64,
+    is_timedelta64,
+    to_float,
+    to_int,
+)
 
 # Valid values for min/max
 min_max_type = TypeVar("min_max_type")
@@ -81,6 +87,14 @@ def ensure_consistent_dtype(value, name, dtype):
     return value
 
 
+def _negate_values(values):
+    """Negate an array so reverse sorted values become sorted."""
+    # float seconds can't resolve nanoseconds so time-like values stay integers.
+    if dtype_time_like(values):
+        return -to_int(values)
+    return -to_float(values)
+
+
 def _is_translation_equivariant(func, data):
     """Return True if shifting inputs shifts the reduced output equally."""
     # This is a bit heavy/magic, but needed for generic support.
@@ -321,9 +335,9 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             inds = self._get_value_index(coord_array, values_to_find)
             return self[inds], inds
         if self.reverse_sorted:
-            # Need to_float here because datetime can't be multiplied by -1.
+            # Datetimes can't be multiplied by -1 so negate a numeric version.
             inds = self._get_value_index(
-                -to_float(coord_array), -to_float(values_to_find)
+                _negate_values(coord_array), _negate_values(values_to_find)
             )
             return self[inds], inds
         # Sort the array, then find insertion points, and map
@@ -1595,8 +1609,8 @@ class CoordMonotonicArray(CoordArray):
         # since search sorted only works on ascending monotonic arrays we
         # negative descending arrays to get the same effect.
         if self.reverse_sorted:
-            values = to_float(values) * -1
-            new_value = to_float(new_value) * -1
+            values = _negate_values(values)
+            new_value = _negate_values(np.atleast_1d(new_value))
         # side = "right" if forward else "left"
         # out = np.atleast_1d(np.searchsorted(values, new_value, side=side))
         # Search values. Ensure the returned index is in bounds (eg values GT
-- 
2.43.0


From c7e56928765f4979070f479e0d8a9ff03bfc2fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:21 +0000
Subject: [PATCH 02/59] fix: resolve negative samples in order before
 converting them to a slice

---
 dascore/core/coords.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 6e4c5e5..6f7582f 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -356,8 +356,10 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
                 "with samples requires integer dtype."
             )
             raise CoordError(msg)
-        # Filter out bad indices
-        array = array[np.abs(array) < len(self)]
+        # Filter out bad indices, resolve those which count from the end.
+        length = len(self)
+        array = array[(array >= -length) & (array < length)]
+        array = np.where(array < 0, array + length, array)
         return self[array], array
 
     def _select_by_value_array(self, array):
-- 
2.43.0


From ae573da5915cab17e046abd77c61c631682997e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:25 +0000
Subject: [PATCH 03/59] fix: change_length works when the new stop is close to
 the old one

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 6f7582f..6f8d4ee 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1416,7 +1416,7 @@ class CoordRange(BaseCoord):
             return get_coord(data=data, step=self.step, units=self.units)
         diff = length - current
         stop, step = self.stop, self.step
-        out = self.update(stop=stop + step * diff)
+        out = self.new(stop=stop + step * diff)
         assert len(out) == length
         return out
 
-- 
2.43.0


From 389e49449893d7dfbad9291ef0dfffbc0af861d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:46 +0000
Subject: [PATCH 04/59] fix: locate the first sample of unevenly sampled
 coordinates

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 6f8d4ee..623e4d8 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1621,7 +1621,7 @@ class CoordMonotonicArray(CoordArray):
         right = np.searchsorted(values, new_value, side="right")
         # right_ok = (right < len(self)) & (right < 0)
         left = np.searchsorted(values, new_value, side="left")
-        left_ok = (left < len(self)) & (left > 0)
+        left_ok = left < len(self)
         eq = left_ok & (values.take(left, mode="clip") == new_value)
         out = right if forward else left
         # where equal it should also be left values. This makes the function
-- 
2.43.0


From 7f6e696e0b183e113fded7803a5a6ad63e0da8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:43 +0000
Subject: [PATCH 05/59] fix: flip multidimensional coords along every flipped
 dimension

---
 dascore/core/coordmanager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index 87dabbf..f192dff 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -1173,7 +1173,10 @@ class CoordManager(DascoreBaseModel):
                 # Don't flip dimensional coords twice!
                 if associated == name:
                     continue
-                associated_coord = self.get_coord(associated)
+                # Multidimensional coords may already be flipped along another dim.
+                _, associated_coord = out.get(
+                    associated, (None, self.get_coord(associated))
+                )
                 dims = dim_map[associated]
                 axis = dims.index(name)
                 out[associated] = (dims, _flip_coord(associated_coord, axis))
-- 
2.43.0


From 747f215dd88097ff5007ba3cfccf9d59357fffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:02 +0000
Subject: [PATCH 06/59] fix: align patches whose dimensions are in a different
 order

---
 dascore/utils/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index b1abfd7..c7ab56b 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -951,7 +951,7 @@ def align_patch_coords(
         The second patch.
     """
     # Fast path for no alignment needed
-    if patch1.coords == patch2.coords:
+    if patch1.coords == patch2.coords and patch1.dims == patch2.dims:
         return patch1, patch2
     shared_dims = set(patch1.dims) & set(patch2.dims)
     if not shared_dims:
-- 
2.43.0


From 51452be444bd9f59d0754ec67819c0103b470e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:07 +0000
Subject: [PATCH 07/59] fix: keep attached coordinates with their samples when
 aligning patches

---
 dascore/utils/patch.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index c7ab56b..96efc21 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -42,6 +42,7 @@ from dascore.utils.misc import (
     _apply_union_indexers,
     _merge_tuples,
     all_diffs_close_enough,
+    broadcast_for_index,
     get_middle_value,
     iterate,
     to_object_array,
@@ -937,6 +938,22 @@ def _get_dx_or_spacing_and_axes(
     return tuple(out), tuple(axes)
 
 
+def _update_aligned_coords(coords, new_coords, indexers):
+    """Update dimensional coords; coords attached to them follow the new order."""
+    out = dict(new_coords)
+    changed = {x for x, v in new_coords.items() if len(v) != len(coords.coord_map[x])}
+    for name, dims in coords.dim_map.items():
+        # Coords of dimensions whose length changed are dropped by update.
+        if name in coords.dims or changed & set(dims) or not set(new_coords) & set(dims):
+            continue
+        coord = coords.coord_map[name]
+        for axis, dim in enumerate(dims):
+            indexer = indexers[coords.dims.index(dim)]
+            coord = coord[broadcast_for_index(coord.ndim, axis, indexer)]
+        out[name] = (dims, coord)
+    return coords.update(**out)
+
+
 def align_patch_coords(
     patch1: PatchType, patch2: PatchType
 ) -> tuple[PatchType, PatchType]:
@@ -981,8 +998,8 @@ def align_patch_coords(
     if not (new_coords_1 or new_coords_2):
         return patch1, patch2
     # Update coordinate managers and reshape arrays, return new patches.
-    coord1 = patch1.coords.update(**new_coords_1)
-    coord2 = patch2.coords.update(**new_coords_2)
+    coord1 = _update_aligned_coords(patch1.coords, new_coords_1, align_1)
+    coord2 = _update_aligned_coords(patch2.coords, new_coords_2, align_2)
     array1 = _apply_union_indexers(tuple(align_1), patch1.data)
     array2 = _apply_union_indexers(tuple(align_2), patch2.data)
     out1 = patch1.new(data=array1, coords=coord1)
-- 
2.43.0


From 4ed2a01606da080a7d32afc3b0e050b04fdea7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:55 +0000
Subject: [PATCH 08/59] fix: merge secondary coordinates from their own values

---
 dascore/utils/coordmanager.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dascore/utils/coordmanager.py b/dascore/utils/coordmanager.py
index 4e6ef04..ed731e4 100644
--- a/dascore/utils/coordmanager.py
+++ b/dascore/utils/coordmanager.py
@@ -112,7 +112,7 @@ def merge_coord_managers(
         """Get the merged coordinates."""
         out = {}
         for coord_name in coords_to_merge:
-            merge_coords = [x.coord_map[dim] for x in managers]
+            merge_coords = [x.coord_map[coord_name] for x in managers]
             axis = managers[0].dim_map[coord_name].index(dim)
             if len(units := {x.units for x in merge_coords}) != 1:
                 # TODO: we might try to convert all the units to a common
@@ -122,9 +122,11 @@ def merge_coord_managers(
                     f"share the same units. Units found are: {set(units)}"
                 )
                 raise CoordMergeError(msg)
-            snap_coords = _snap_coords(merge_coords)
-            data = [x.data for x in snap_coords]
-            dims = managers[0].dim_map[dim]
+            # Only the merge dimension should be snapped, other coords just follow.
+            if coord_name == dim:
+                merge_coords = _snap_coords(merge_coords)
+            data = [x.data for x in merge_coords]
+            dims = managers[0].dim_map[coord_name]
             new_data = np.concatenate(data, axis=axis)
             out[coord_name] = (dims, new_data)
         return out
-- 
2.43.0


From 5c742d0ea0ced6d312e352d070068c449510e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:55 +0000
Subject: [PATCH 09/59] fix: keep coordinate units when merging coordinate
 managers

---
 dascore/utils/coordmanager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/coordmanager.py b/dascore/utils/coordmanager.py
index ed731e4..5231fdd 100644
--- a/dascore/utils/coordmanager.py
+++ b/dascore/utils/coordmanager.py
@@ -9,6 +9,7 @@ from functools import reduce
 import numpy as np
 
 import dascore as dc
+from dascore.core.coords import get_coord
 from dascore.exceptions import CoordMergeError
 from dascore.utils.display import get_nice_text
 from dascore.utils.models import ArrayLike
@@ -128,7 +129,7 @@ def merge_coord_managers(
             data = [x.data for x in merge_coords]
             dims = managers[0].dim_map[coord_name]
             new_data = np.concatenate(data, axis=axis)
-            out[coord_name] = (dims, new_data)
+            out[coord_name] = (dims, get_coord(data=new_data, units=units.pop()))
         return out
 
     def _get_new_coords(managers) -> dict[str, tuple[tuple[str, ...], ArrayLike]]:
-- 
2.43.0


From 05135bd3c2f69005f5dbd0e6b8adb24fd9afb7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:08 +0000
Subject: [PATCH 10/59] fix: keep coordinate units when concatenating patches

---
 dascore/utils/patch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 96efc21..7180258 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -25,6 +25,7 @@ from dascore.constants import (
     check_behavior_description,
     dascore_styles,
 )
+from dascore.core.coords import get_coord
 from dascore.exceptions import (
     CoordDataError,
     IncompatiblePatchError,
@@ -1341,7 +1342,10 @@ def concatenate_patches(
         else:
             array_list = [x.get_array(dim) for x in patch_list]
             array = np.concatenate(array_list, axis=0)
-            coords = coords.update(**{dim: array})
+            # Only keep units if they apply to all the values.
+            units = {x.get_coord(dim).units for x in patch_list}
+            unit = units.pop() if len(units) == 1 else None
+            coords = coords.update(**{dim: get_coord(data=array, units=unit)})
         return coords
 
     dim, val = _get_dim_and_value(kwargs)
-- 
2.43.0


From 893d84a642891fef240346c63ec29f59eb833369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:49 +0000
Subject: [PATCH 11/59] fix: patches with different dimensions are not
 compatible

---
 dascore/utils/patch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 7180258..0351059 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -1032,7 +1032,6 @@ def check_dims(
         to be equal.
     """
     dims1, dims2 = patch1.dims, patch2.dims
-    dims_ok = True
     if not intersection and patch1.dims == patch2.dims:
         return True
     dset1, dset2 = set(dims1), set(dims2)
@@ -1043,7 +1042,7 @@ def check_dims(
         f" Patch1 dims: {dims1}, Patch2 dims: {dims2}"
     )
     warn_or_raise(msg, exception=IncompatiblePatchError, behavior=check_behavior)
-    return dims_ok
+    return False
 
 
 def check_coords(
-- 
2.43.0


From b85d46200f3466dddc9a7c29073402d3fc14b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:46 +0000
Subject: [PATCH 12/59] fix: time coordinates starting at zero also have units
 of seconds

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 623e4d8..fd2dcdd 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -293,7 +293,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         if isinstance(data, dict):
             # This handles the coord range case.
             is_timey = False
-            if start := data.get("start"):
+            if (start := data.get("start")) is not None:
                 is_timey = is_timedelta64(start) or is_datetime64(start)
             elif (values := data.get("values")) is not None:
                 is_timey = dtype_time_like(values)
-- 
2.43.0


From 0dec54e5e5728846df8e7dd48cc16078b87a2209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:15 +0000
Subject: [PATCH 13/59] fix: pad descending coordinates

---
 dascore/proc/basic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dascore/proc/basic.py b/dascore/proc/basic.py
index d41888d..f802cd2 100644
--- a/dascore/proc/basic.py
+++ b/dascore/proc/basic.py
@@ -626,8 +626,12 @@ def pad(
     def _get_new_coord(coord, pad_tuple, expand_coords):
         """Get the new coordinate along the expanded axis."""
         if expand_coords and coord.evenly_sampled:
-            new_start = coord.min() - pad_tuple[0] * coord.step
-            new_end = coord.max() + (pad_tuple[1] + 1) * coord.step
+            # The first sample of descending coordinates is the largest one.
+            first, last = coord.min(), coord.max()
+            if coord.reverse_sorted:
+                first, last = last, first
+            new_start = first - pad_tuple[0] * coord.step
+            new_end = last + (pad_tuple[1] + 1) * coord.step
             assert coord.evenly_sampled, "expand_coords requires evenly sampled."
             new_coord = get_coord(
                 start=new_start, stop=new_end, step=coord.step, units=coord.units
-- 
2.43.0


From bba48fbc19a70dc9ec5854d8b91497f8d0e8e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:09 +0000
Subject: [PATCH 14/59] fix: merge spools in which a patch covers another one

---
 dascore/utils/pd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 07238f4..d30d05f 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -490,11 +490,15 @@ def _remove_overlaps(df, name):
         stop_roll = np.roll(stop, 1)
         start_lt_stop = start <= stop_roll
         start_lt_stop[0] = False  # remove roll artifact; [0] should be start[0]
-        adjusted = stop_roll + step
+        # Don't let the start pass the stop; that isn't a valid range.
+        adjusted = np.minimum(stop_roll + step, stop)
         return np.where(start_lt_stop, adjusted, start)
 
     min_name, max_name, step_name = f"{name}_min", f"{name}_max", f"{name}_step"
     assert df[min_name].is_monotonic_increasing, "df must be sorted"
+    # Rows which are covered by previous rows don't have anything to add.
+    prior_stop = df[max_name].cummax().shift()
+    df = df[~(df[max_name] <= prior_stop)]
     start = df[min_name].values
     stop = df[max_name].values
     # Add step to stop roll so we don't get 1 sample of overlap
-- 
2.43.0


From 769c597577b711b5097023d6eb3e77057591d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:09 +0000
Subject: [PATCH 15/59] fix: chunks that start or end between two patches keep
 only their own samples

---
 dascore/utils/chunk.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index 25ad36f..1cd960f 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -378,11 +378,16 @@ class ChunkManager:
         ends = np.stack([src2[source_inds], chu2[chunk_inds]], axis=1)
         end_values = np.min(ends, axis=1)
         start_values = np.max(starts, axis=1)
+        # A chunk that starts or ends between two sources only uses one of them.
+        # If it has no samples at all, keep its neighbors.
+        keep = start_values <= end_values
+        keep = keep | ~np.isin(chunk_inds, chunk_inds[keep])
+        source_inds = source_inds[keep]
         data_dict = {
-            min_name: start_values,
-            max_name: end_values,
-            "source_index": inds["source"],
-            "current_index": inds["chunk"],
+            min_name: start_values[keep],
+            max_name: end_values[keep],
+            "source_index": inds["source"][keep],
+            "current_index": inds["chunk"][keep],
         }
         out = pd.DataFrame(data_dict)
         # populate the rest of the columns needed in instruction df.
-- 
2.43.0


From 2a5ba2c0bc3439c22458bc685b38463837fa3ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:40 +0000
Subject: [PATCH 16/59] fix: don't duplicate data when slicing or selecting
 chunked spools

---
 dascore/core/spool.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 406c426..24bcc5f 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -462,7 +462,8 @@ class DataFrameSpool(BaseSpool):
             new_df = self._df.iloc[item]
             inst, source = self._instruction_df, self._source_df
             new_inst = inst[inst["current_index"].isin(new_df.index)]
-            new_source = source.loc[new_inst.index]
+            # A source can be used in several of the patches.
+            new_source = source.loc[new_inst.index.unique()]
             out = self.new_from_df(
                 df=new_df,
                 instruction_df=new_inst,
@@ -748,7 +749,9 @@ class DataFrameSpool(BaseSpool):
             **kwargs,
         ).loc[lambda x: x["current_index"].isin(filtered_df.index)]
         source = adjust_segments(
-            self._source_df.loc[inst.index], ignore_bad_kwargs=True, **kwargs
+            self._source_df.loc[inst.index.unique()],
+            ignore_bad_kwargs=True,
+            **kwargs,
         )
         out = self.new_from_df(
             filtered_df,
-- 
2.43.0


From c80b9e3cf944f6bebab1eb0cb56e6d4a74ede1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:43 +0000
Subject: [PATCH 17/59] fix: array indexed spools don't chunk the patches which
 were left out

---
 dascore/core/spool.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 24bcc5f..89fd9f6 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -445,8 +445,10 @@ class DataFrameSpool(BaseSpool):
         else:
             msg = "Only bool or int dtypes are supported for spool array selection."
             raise ValueError(msg)
-        source = self._source_df
+        # Only keep what is needed for the selected patches.
         inst = self._instruction_df
+        inst = inst[inst["current_index"].isin(df.index)]
+        source = self._source_df.loc[inst.index.unique()]
         select_kwargs, merge_kwargs = self._select_kwargs, self._merge_kwargs
         new = self.new_from_df(
             df,
-- 
2.43.0


From 17e1ea38a531aa4a6baa82b956c96eb9ae09c840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:03 +0000
Subject: [PATCH 18/59] fix: selecting a range between the patches of a merged
 patch leaves no patch

---
 dascore/core/spool.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 89fd9f6..e099e45 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -750,6 +750,9 @@ class DataFrameSpool(BaseSpool):
             ignore_bad_kwargs=True,
             **kwargs,
         ).loc[lambda x: x["current_index"].isin(filtered_df.index)]
+        # The range may fall between the sources of a (merged) patch.
+        has_source = filtered_df.index.isin(inst["current_index"])
+        filtered_df = filtered_df[has_source]
         source = adjust_segments(
             self._source_df.loc[inst.index.unique()],
             ignore_bad_kwargs=True,
-- 
2.43.0


From 675cad9684cb3d727db87844252ef4e87b056534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:20 +0000
Subject: [PATCH 19/59] fix: coordinates can trade names in rename_coords

---
 dascore/core/attrs.py        |  8 +++-----
 dascore/core/coordmanager.py | 35 +++++++++++------------------------
 2 files changed, 14 insertions(+), 29 deletions(-)

diff --git a/dascore/core/attrs.py b/dascore/core/attrs.py
index 815fdc4..2a87e03 100644
--- a/dascore/core/attrs.py
+++ b/dascore/core/attrs.py
@@ -224,11 +224,9 @@ class PatchAttrs(DascoreBaseModel):
             return self
         new = self.model_dump(exclude_defaults=True)
         coords = new.get("coords", {})
-        new_dims = list(self.dim_tuple)
-        for old_name, new_name in {x: kwargs[x] for x in dims}.items():
-            new_dims[new_dims.index(old_name)] = new_name
-            coords[new_name] = coords.pop(old_name, None)
-        new["dims"] = tuple(new_dims)
+        # All names are replaced at once so dimensions can trade names.
+        coords.update({kwargs[x]: coords.pop(x, None) for x in dims})
+        new["dims"] = tuple(kwargs.get(x, x) for x in self.dim_tuple)
         return self.__class__(**new)
 
     def update(self, **kwargs) -> Self:
diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index f192dff..bca1171 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -927,30 +927,17 @@ class CoordManager(DascoreBaseModel):
         **kwargs
             Used to rename coord {old_coord_name: new_coord_name}
         """
-
-        def _adjust_dim_map_to_new_dim(dim_map, old_name, new_name):
-            """Get the updated dim map."""
-            out = dim_map
-            # replace all mentions of
-            for key, value in out.items():
-                if old_name not in value:
-                    continue
-                new_value = tuple(x if x != old_name else new_name for x in value)
-                out[key] = new_value
-
-            return out
-
-        dims, coord_map = list(self.dims), dict(self.coord_map)
-        dim_map = dict(self.dim_map)
-        for old_name, new_name in kwargs.items():
-            if old_name == new_name:
-                continue
-            if old_name in dims:  # only
-                dims[dims.index(old_name)] = new_name
-                dim_map = _adjust_dim_map_to_new_dim(dim_map, old_name, new_name)
-            coord_map[new_name] = coord_map.pop(old_name)
-            dim_map[new_name] = dim_map.pop(old_name)
-
+        coord_map, dim_map = dict(self.coord_map), dict(self.dim_map)
+        # All names are replaced at once so, e.g., two coords can trade names.
+        coords = {new: coord_map.pop(old) for old, new in kwargs.items()}
+        coord_dims = {new: dim_map.pop(old) for old, new in kwargs.items()}
+        coord_map.update(coords)
+        dim_map.update(coord_dims)
+        dims = [kwargs.get(x, x) for x in self.dims]
+        dim_map = {
+            name: tuple(kwargs.get(x, x) for x in value)
+            for name, value in dim_map.items()
+        }
         out = dict(dims=dims, coord_map=coord_map, dim_map=dim_map)
         return self.__class__(**out)
 
-- 
2.43.0


From b877aa777c64548b7f4a9ee5fffd8e0320ac005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:20 +0000
Subject: [PATCH 20/59] fix: the epoch is a time limit, not a missing one, in
 get_max_min_times

---
 dascore/utils/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 13abc71..5db34e4 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -451,8 +451,8 @@ def get_max_min_times(kwarg_time=None):
     # get defaults if starttime or endtime is none
     time_min = None if pd.isnull(time_min) else time_min
     time_max = None if pd.isnull(time_max) else time_max
-    time_min = to_datetime64(time_min or SMALLDT64)
-    time_max = to_datetime64(time_max or LARGEDT64)
+    time_min = to_datetime64(SMALLDT64 if time_min is None else time_min)
+    time_max = to_datetime64(LARGEDT64 if time_max is None else time_max)
     if time_min is not None and time_max is not None:
         if time_min > time_max:
             msg = "time_min cannot be greater than time_max."
-- 
2.43.0


From 4ab4afd26a39a9ffe42afefa61dbdb29c55d0d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:20 +0000
Subject: [PATCH 21/59] fix: units of valueless coordinates can be set and
 converted

---
 dascore/core/coords.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index fd2dcdd..483ac16 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1076,8 +1076,27 @@ class CoordPartial(BaseCoord):
 
     # Other operations that normally modify data do not in this case.
     update_limits = update
-    set_units = update
-    convert_units = update
+
+    def set_units(self, units):
+        """Set new units on coordinates."""
+        return self.new(units=units)
+
+    def convert_units(self, units):
+        """Convert units, or set units if none exist."""
+        if dtype_time_like(self.dtype):
+            return self
+        out = dict(units=units)
+        # Any values which are set are converted; a step is a difference.
+        for name in ("start", "stop", "step"):
+            value = getattr(self, name)
+            if pd.isnull(value):
+                continue
+            new = convert_units(value, to_units=units, from_units=self.units)
+            if name == "step":
+                zero = value - value
+                new -= convert_units(zero, to_units=units, from_units=self.units)
+            out[name] = new
+        return self.new(**out)
 
     def sort(self, reverse=False):
         """Sort dummy array. Does nothing."""
-- 
2.43.0


From 5322a40aa959902d4a97862bd61267139b55b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:20 +0000
Subject: [PATCH 22/59] fix: simplify_units converts data in units with an
 offset

---
 dascore/proc/units.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dascore/proc/units.py b/dascore/proc/units.py
index a254ffa..6f5af7e 100644
--- a/dascore/proc/units.py
+++ b/dascore/proc/units.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import dascore as dc
 from dascore.constants import PatchType
-from dascore.units import Quantity, Unit, get_factor_and_unit
+from dascore.units import Quantity, Unit, get_factor_and_unit, get_quantity
 from dascore.units import convert_units as u_covert_units
 from dascore.utils.patch import patch_function
 
@@ -137,8 +137,12 @@ def simplify_units(
     """
     # get data and data units
     attrs = patch.attrs
-    d_factor, d_units = get_factor_and_unit(attrs.get("data_units"), simplify=True)
-    data = patch.data * d_factor if d_factor != 1 else patch.data
+    data_units = attrs.get("data_units")
+    _, d_units = get_factor_and_unit(data_units, simplify=True)
+    # Some units, e.g. degC, have an offset so a simple factor doesn't work.
+    data = patch.data
+    if get_quantity(d_units) != get_quantity(data_units):
+        data = u_covert_units(data, d_units, data_units)
     # update coords and coord units in attrs
     coords = patch.coords.simplify_units()
     new_attrs = attrs.update(data_units=d_units, coords=coords.to_summary_dict())
-- 
2.43.0


From 7265d89a13b47d7e202aa83a5679c956106ff47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:20 +0000
Subject: [PATCH 23/59] fix: index queries find patches which touch the
 buffered time range

---
 dascore/utils/hdf5.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 5c6930f..098e6d3 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -133,18 +133,13 @@ def _get_kernel_query(starttime: int, endtime: int, buffer: int):
     """
     Create a HDF5 kernel query based on start and end times.
 
-    This is necessary because hdf5 doesn't accept inverted conditions.
-    A slight buffer is applied to the ranges to make sure no edge files
+    A patch is within the range if it starts before the end of the range and
+    ends after the start of the range. A slight buffer is applied to the ranges to make sure no edge files
     are excluded.
     """
     t1 = starttime - buffer
     t2 = endtime + buffer
-    con = (
-        f"(time_min>{t1:d} & time_min<{t2:d}) | "
-        f"((time_max>{t1:d} & time_max<{t2:d}) | "
-        f"(time_min<{t1:d} & time_max>{t2:d}))"
-    )
-    return con
+    return f"time_min<={t2:d} & time_max>={t1:d}"
 
 
 class HDFPatchIndexManager:
-- 
2.43.0


From 359c0c9f2969b296c6a1619b641d805e0ac7978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:06 +0000
Subject: [PATCH 24/59] fix: running integrals over unevenly sampled dimensions
 use the right axis

---
 dascore/transform/integrate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/transform/integrate.py b/dascore/transform/integrate.py
index 30cab68..4be5634 100644
--- a/dascore/transform/integrate.py
+++ b/dascore/transform/integrate.py
@@ -69,6 +69,9 @@ def _get_indefinite_integral(patch, dxs_or_vals, axes):
         # if coordinate values are provided need to get diffs.
         if is_array(dx_or_val):
             dx_or_val = dx_or_val[1:] - dx_or_val[:-1]
+            # and line them up with the integration axis.
+            ind = broadcast_for_index(array.ndim, ax, slice(None), fill=None)
+            dx_or_val = dx_or_val[ind]
         ndim = len(out.shape)
         # get diffs along dimension
         stop_indexer = broadcast_for_index(ndim, ax, slice(1, None), fill=slice(None))
-- 
2.43.0


From bcd3056aa90a65e867ec5403d27fd6ce05fa154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:06 +0000
Subject: [PATCH 25/59] fix: running integrals of integer data are not
 truncated

---
 dascore/transform/integrate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dascore/transform/integrate.py b/dascore/transform/integrate.py
index 4be5634..e86ce27 100644
--- a/dascore/transform/integrate.py
+++ b/dascore/transform/integrate.py
@@ -64,6 +64,8 @@ def _get_indefinite_integral(patch, dxs_or_vals, axes):
     samples for the integration dimension.
     """
     array = patch.data
+    if not np.issubdtype(array.dtype, np.inexact):
+        array = array.astype(np.float64)  # the integral isn't an integer
     for dx_or_val, ax in zip(dxs_or_vals, axes):
         out = np.zeros_like(array)
         # if coordinate values are provided need to get diffs.
-- 
2.43.0


From 332a7104dba771c9123507190b64f5a8053a1048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:15 +0000
Subject: [PATCH 26/59] fix: strided derivatives of integer data are not
 truncated

---
 dascore/transform/differentiate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/transform/differentiate.py b/dascore/transform/differentiate.py
index c758e6a..9a23e0f 100644
--- a/dascore/transform/differentiate.py
+++ b/dascore/transform/differentiate.py
@@ -54,7 +54,10 @@ def _strided_diff(order, patch, axes, dx_or_spacing, step):
     if len(axes) > 1:
         msg = "Step in patch.differentiate can only be used along one axis."
         raise ParameterError(msg)
-    new_data = np.empty_like(patch.data)
+    # The derivative of integer data isn't an integer.
+    inexact = np.issubdtype(patch.data.dtype, np.inexact)
+    dtype = patch.data.dtype if inexact else np.float64
+    new_data = np.empty_like(patch.data, dtype=dtype)
     dx_or_space = dx_or_spacing[0]
     for step_ in range(step):
         current_slice = slice(step_, None, step)
-- 
2.43.0


From 914b06030ea17c316eec46e0f8f84c3a7004c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:08 +0000
Subject: [PATCH 27/59] fix: keep units and steps of DASDAE coordinates with
 underscores in their names

---
 dascore/io/dasdae/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 1cde1e1..857244e 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -130,10 +130,13 @@ def _get_coords(patch_group, dims, attrs2):
     for coord in [x for x in patch_group if x.name.startswith("_coord_")]:
         name = coord.name.replace("_coord_", "")
         array = _read_array(coord)
+        # use the summary when possible; attribute access doesn't work for
+        # coordinate names with underscores.
+        summary = attrs2.coords.get(name, None)
         coord = get_coord(
             data=array,
-            units=getattr(attrs2, f"{name}_units", None),
-            step=getattr(attrs2, f"{name}_step", None),
+            units=getattr(summary, "units", None),
+            step=getattr(summary, "step", None),
         )
         coord_dict[name] = coord
     # associates coordinates with dimensions
-- 
2.43.0


From 547c3836f1feb1e91d4000508785acc4ce7ed944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:08 +0000
Subject: [PATCH 28/59] fix: read DASDAE coordinates and attributes whose names
 contain the prefixes

---
 dascore/io/dasdae/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 857244e..6cb9041 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -103,7 +103,7 @@ def _get_attrs(patch_group):
     out = {}
     attrs = [x for x in patch_group._v_attrs._f_list() if x.startswith("_attrs_")]
     for attr_name in attrs:
-        key = attr_name.replace("_attrs_", "")
+        key = attr_name.removeprefix("_attrs_")
         val = patch_group._v_attrs[attr_name]
         # need to unpack one value arrays
         if isinstance(val, np.ndarray) and not val.shape:
@@ -128,7 +128,7 @@ def _get_coords(patch_group, dims, attrs2):
     coord_dict = {}  # just store coordinates here
     coord_dim_dict = {}  # stores {coord_name: ((dims, ...), coord)}
     for coord in [x for x in patch_group if x.name.startswith("_coord_")]:
-        name = coord.name.replace("_coord_", "")
+        name = coord.name.removeprefix("_coord_")
         array = _read_array(coord)
         # use the summary when possible; attribute access doesn't work for
         # coordinate names with underscores.
@@ -142,7 +142,7 @@ def _get_coords(patch_group, dims, attrs2):
     # associates coordinates with dimensions
     c_dims = [x for x in patch_group._v_attrs._f_list() if x.startswith("_cdims")]
     for coord_name in c_dims:
-        name = coord_name.replace("_cdims_", "")
+        name = coord_name.removeprefix("_cdims_")
         value = patch_group._v_attrs[coord_name]
         assert name in coord_dict, "Should already have loaded coordinate array"
         coord_dim_dict[name] = (tuple(value.split(",")), coord_dict[name])
-- 
2.43.0


From 60bab6569235168f64adde0493c1b6ccd882add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:08 +0000
Subject: [PATCH 29/59] fix: don't overwrite patches of one spool which share a
 name in DASDAE files

---
 dascore/io/dasdae/core.py  |  3 ++-
 dascore/io/dasdae/utils.py | 11 +++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/dascore/io/dasdae/core.py b/dascore/io/dasdae/core.py
index 475da97..a1b59c6 100644
--- a/dascore/io/dasdae/core.py
+++ b/dascore/io/dasdae/core.py
@@ -22,6 +22,7 @@ from dascore.utils.patch import get_patch_names
 from .utils import (
     _get_attrs,
     _get_contents_from_patch_groups,
+    _get_unique_names,
     _kwargs_empty,
     _matches_attr_filters,
     _read_patch,
@@ -87,7 +88,7 @@ class DASDAEV1(FiberIO):
             resource.create_group(resource.root, "waveforms")
         waveforms = resource.get_node("/waveforms")
         # write new patches to file
-        patch_names = get_patch_names(patches).values
+        patch_names = _get_unique_names(get_patch_names(patches).values)
         for patch, name in zip(patches, patch_names):
             _save_patch(patch, waveforms, resource, name)
         indexer = HDFPatchIndexManager(resource)
diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 6cb9041..c7dc807 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -85,6 +85,17 @@ def _save_coords(patch, patch_group, h5):
         patch_group._v_attrs[save_name] = ",".join(dims)
 
 
+def _get_unique_names(names):
+    """Number repeated names so patches of one spool don't replace each other."""
+    out = {}  # used as an ordered set
+    for name in names:
+        new, count = name, 1
+        while new in out:
+            new, count = f"{name}__{count}", count + 1
+        out[new] = None
+    return list(out)
+
+
 def _save_patch(patch, wave_group, h5, name):
     """Save the patch to disk."""
     patch_group = _create_or_get_group(h5, wave_group, name)
-- 
2.43.0


From ea40780381e1416b231eb92a1bc99b6ca2f4d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:08 +0000
Subject: [PATCH 30/59] fix: rewriting a patch in a DASDAE file left old
 coordinates and attributes

---
 dascore/io/dasdae/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index c7dc807..c0f2d5a 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -2,6 +2,8 @@
 
 from __future__ import annotations
 
+from contextlib import suppress
+
 import numpy as np
 import pandas as pd
 from tables import NodeError
@@ -98,6 +100,9 @@ def _get_unique_names(names):
 
 def _save_patch(patch, wave_group, h5, name):
     """Save the patch to disk."""
+    # Remove any patch of this name so none of its contents are left over.
+    with suppress(NodeError):
+        h5.remove_node(wave_group, name, recursive=True)
     patch_group = _create_or_get_group(h5, wave_group, name)
     _save_attrs_and_dims(patch, patch_group)
     _save_coords(patch, patch_group, h5)
-- 
2.43.0


From b89899436b3579c54e99549577fcd6d18f540e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:08 +0000
Subject: [PATCH 31/59] fix: read parts of on-disk arrays with array indexers

---
 dascore/utils/misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index f5f0b36..bfa8e77 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -700,6 +700,9 @@ def _apply_union_indexers(indexer, array):
     if array is None:  # no array passed, just return.
         return array
     array_count = sum(is_array(x) for x in indexer)
+    # On-disk arrays don't (fully) support indexing by arrays.
+    if array_count and not is_array(array):
+        array = array[:]
     if array_count > 1:
         out = array
         ndim = len(out.shape)
-- 
2.43.0


From fda733e49ea89506e0fb4b19ec9500456253ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:08 +0000
Subject: [PATCH 32/59] fix: interpolate kept no units on the interpolated
 coordinate

---
 dascore/proc/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/proc/resample.py b/dascore/proc/resample.py
index 0de7973..b5b2876 100644
--- a/dascore/proc/resample.py
+++ b/dascore/proc/resample.py
@@ -150,7 +150,7 @@ def interpolate(patch: PatchType, kind: str | int = "linear", **kwargs) -> Patch
     out = func(samples_num)
     cm = patch.coords
     associated_dims = cm.dim_map[dim]
-    coord_new = dc.core.get_coord(data=samples)
+    coord_new = dc.core.get_coord(data=samples, units=cm.coord_map[dim].units)
     cm_new = cm.update(**{dim: (associated_dims, coord_new)})
     return patch.new(data=out, coords=cm_new)
 
-- 
2.43.0


From 8b8b284bb04d33a10adf4018e13c25b35c2dc1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:08 +0000
Subject: [PATCH 33/59] fix: interpolating datetime coordinates lost nanosecond
 precision

---
 dascore/proc/resample.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dascore/proc/resample.py b/dascore/proc/resample.py
index b5b2876..1ebc828 100644
--- a/dascore/proc/resample.py
+++ b/dascore/proc/resample.py
@@ -144,6 +144,11 @@ def interpolate(patch: PatchType, kind: str | int = "linear", **kwargs) -> Patch
     # datetime64 yet.
     coord_num = to_int(patch.coords.get_array(dim))
     samples_num = to_int(samples)
+    # Large integers (eg ns since 1970) can't be represented exactly by floats,
+    # which interp1d uses, so offsets from the first value are used instead.
+    if len(coord_num) and {coord_num.dtype, samples_num.dtype} == {np.dtype("int64")}:
+        samples_num = samples_num - coord_num[0]
+        coord_num = coord_num - coord_num[0]
     func = compat.interp1d(
         coord_num, patch.data, axis=axis, kind=kind, fill_value="extrapolate"
     )
-- 
2.43.0


From 0487ea80fd0c77f6bf25e48543c16057937cdce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 34/59] fix: attributes whose names extend those of coordinate
 fields moved the coordinates

---
 dascore/utils/chunk.py | 11 +++++++----
 dascore/utils/misc.py  |  7 ++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index 1cd960f..ce56f9d 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -14,7 +14,11 @@ from dascore.constants import attr_conflict_description, numeric_types, timeable
 from dascore.exceptions import ChunkError, CoordMergeError, ParameterError
 from dascore.utils.attrs import validate_conflict
 from dascore.utils.docs import compose_docstring
-from dascore.utils.misc import all_diffs_close_enough, get_middle_value
+from dascore.utils.misc import (
+    all_diffs_close_enough,
+    get_middle_value,
+    is_valid_coord_str,
+)
 from dascore.utils.pd import (
     _instructions_modified,
     _remove_overlaps,
@@ -290,13 +294,12 @@ class ChunkManager:
         merger = df.drop(columns=out.columns)
         # get dims to determine which columns are still compared. Some test
         # dfs don't have dims though, so it should still work without dims col.
-        dims = set(df.iloc[0].get("dims", "").split(","))
+        dims = tuple(df.iloc[0].get("dims", "").split(","))
         # We exclude private columns for considering if merge can happen.
         for col in set(x for x in merger.columns if not x.startswith("_")):
-            prefix = col.split("_")[0]
             # If we have specified to ignore or remove conflicting attrs
             # we don't need to check them here, but we do still check dims.
-            if self._attr_conflict != "raise" and prefix not in dims:
+            if self._attr_conflict != "raise" and not is_valid_coord_str(col, dims):
                 continue
             vals = merger[col].unique()
             if len(vals) > 1:
diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index bfa8e77..ba6ee52 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -443,9 +443,10 @@ def _get_compiled_suffix_prefix_regex(
 ):
     """Get a compiled regex which matches the form prefixes_suffixes."""
     suffixes = iterate(suffixes)
-    pattern = rf".*_({'|'.join(iterate(suffixes))})"
-    if prefixes is not None:
-        pattern = rf"({'|'.join(iterate(prefixes))})" + pattern
+    pattern = rf"_({'|'.join(iterate(suffixes))})$"
+    # Names must match exactly so, eg, time_reference_min doesn't refer to time.
+    prefix = ".*" if prefixes is None else "|".join(iterate(prefixes))
+    pattern = rf"({prefix})" + pattern
     return re.compile(pattern)
 
 
-- 
2.43.0


From 0604e0006d433db410c742a558ed0e56417b4580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 35/59] fix: names of coordinates with underscores in updates
 by keywords and attributes

---
 dascore/core/coordmanager.py | 2 +-
 dascore/utils/attrs.py       | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dascore/core/coordmanager.py b/dascore/core/coordmanager.py
index bca1171..d12de7e 100644
--- a/dascore/core/coordmanager.py
+++ b/dascore/core/coordmanager.py
@@ -308,7 +308,7 @@ class CoordManager(DascoreBaseModel):
         out.update({i: v for i, v in kwargs.items() if i not in coord_to_drop})
         # update based on keywords
         for item, value in coord_updates.items():
-            coord_name, attr = item.split("_")
+            coord_name, _, attr = item.rpartition("_")
             new = list(out[coord_name])
             new[1] = new[1].update(**{attr: value})
             out[coord_name] = tuple(new)
diff --git a/dascore/utils/attrs.py b/dascore/utils/attrs.py
index dfc1fb9..5aa423c 100644
--- a/dascore/utils/attrs.py
+++ b/dascore/utils/attrs.py
@@ -247,14 +247,17 @@ def separate_coord_info(
         for key in obj:
             if not is_valid_coord_str(key):
                 continue
-            potential_keys[key.split("_")[0]].add(key.split("_")[1])
+            name, _, field = key.rpartition("_")
+            potential_keys[name].add(field)
         return tuple(i for i, v in potential_keys.items() if _meets_required(v))
 
     def _get_coords_from_top_level(obj, out, dims):
         """First get coord info from top level."""
         for dim in iterate(dims):
             potential_coord = {
-                i.split("_")[1]: v for i, v in obj.items() if is_valid_coord_str(i, dim)
+                i.rpartition("_")[-1]: v
+                for i, v in obj.items()
+                if is_valid_coord_str(i, dim)
             }
             # nasty hack for handling d_{dim} for backward compatibility.
             if (bad_name := f"d_{dim}") in obj:
-- 
2.43.0


From bc82c4d8901278dd172a2939704a766aed882a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 36/59] fix: read attributes whose names start with a
 coordinate's name

---
 dascore/core/attrs.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dascore/core/attrs.py b/dascore/core/attrs.py
index 2a87e03..b8cad8a 100644
--- a/dascore/core/attrs.py
+++ b/dascore/core/attrs.py
@@ -157,16 +157,14 @@ class PatchAttrs(DascoreBaseModel):
 
     def __getattr__(self, item):
         """Enables dynamic attributes such as time_min, time_max, etc."""
-        split = item.split("_")
-        # this only works on names like time_max, distance_step, etc.
-        if not len(split) == 2:
-            return super().__getattr__(item)
-        first, second = split
+        # this only works on names like time_max, ft_time_step, etc.
+        first, _, second = item.rpartition("_")
         if first == "d":
             first, second = second, "step"
             msg = f"'{item}' is deprecated; use '{first}_{second}' instead."
             warnings.warn(msg, DeprecationWarning, stacklevel=2)
-        if first not in self.coords:
+        # other attributes, even if they start with the name of a coordinate.
+        if second not in _coord_summary_suffixes or first not in self.coords:
             return super().__getattr__(item)
         coord_sum = self.coords[first]
         return getattr(coord_sum, second)
-- 
2.43.0


From 3d5008dc7bdc61c91cd15965b4ea842362107ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 37/59] fix: updating one coordinate field of attrs replaced
 their dimensions

---
 dascore/utils/attrs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dascore/utils/attrs.py b/dascore/utils/attrs.py
index 5aa423c..646c9d8 100644
--- a/dascore/utils/attrs.py
+++ b/dascore/utils/attrs.py
@@ -243,6 +243,10 @@ def separate_coord_info(
         if dims := obj.get("dims", None):
             return tuple(dims.split(",")) if isinstance(dims, str) else dims
 
+        # Only guess when the dimensions aren't known.
+        if known_dims:
+            return known_dims
+
         potential_keys = defaultdict(set)
         for key in obj:
             if not is_valid_coord_str(key):
@@ -294,6 +298,7 @@ def separate_coord_info(
 
     # sequence of short-circuit checks
     coord_dict = {}
+    known_dims = dims
     required = set(required) if required is not None else set()
     cant_be_alone = set(cant_be_alone)
     if obj is None:
-- 
2.43.0


From 182016a6e2f4122d240898d500b0c069065c0f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 38/59] fix: summaries of valueless coordinates lost the units

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 483ac16..f1c9ba3 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -1170,7 +1170,7 @@ class CoordPartial(BaseCoord):
             max=np.nan,
             step=np.nan,
             dtype=self.dtype,
-            units=None,
+            units=self.units,
         )
 
 
-- 
2.43.0


From 31cf92937b924ff4ac3de918129a549b54e58f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 39/59] fix: idft decides on a real transform from the first
 frequency

---
 dascore/transform/fourier.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dascore/transform/fourier.py b/dascore/transform/fourier.py
index 164d891..c6815ef 100644
--- a/dascore/transform/fourier.py
+++ b/dascore/transform/fourier.py
@@ -336,7 +336,12 @@ def _get_idft_dims_steps_axis(patch, dim):
     dims = [x if x in current_dims else ft.rename_dims(x)[0] for x in iterate(dim)]
     patch.check_coords(dims=dims)
     coords = [patch.get_coord(x, require_evenly_sampled=True) for x in dims]
-    is_real = [1 if to_float(x.min()) == 0 else 0 for x in coords]
+    # Only a real transform of more than one sample starts at exactly 0; the
+    # (reversed) frequencies of a reverse sorted coordinate also start there.
+    starts_at_0 = [to_float(x.values[0]) == 0 for x in coords]
+    is_real = [int(y and len(x) > 1) for x, y in zip(coords, starts_at_0)]
+    if not sum(is_real) and len(coords) == 1:
+        is_real = [int(x) for x in starts_at_0]
     real_sum = sum(is_real)
     assert real_sum <= 1, "only one real axis allowed."
     has_real = bool(real_sum)
-- 
2.43.0


From 10c209038e9378e7895e2b3b5171e9cb73042c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 40/59] fix: stft window times of reverse sorted coordinates

---
 dascore/transform/fourier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/transform/fourier.py b/dascore/transform/fourier.py
index c6815ef..cdf0116 100644
--- a/dascore/transform/fourier.py
+++ b/dascore/transform/fourier.py
@@ -486,6 +486,8 @@ def _get_stft_coords(patch, dim, axis, coord, stft, window):
     time = stft.t(len(coord))
     if is_datetime64(coord.dtype) or is_timedelta64(coord.dtype):
         time = dc.to_timedelta64(time)
+    # The windows start from the first sample, which is the last value if reversed.
+    time = coord.max() - time if coord.reverse_sorted else coord.min() + time
     # Get new dimensions
     new_dims = list(_get_stft_dims(dim, patch.dims, axis))
     # Match dft behavior by removing coords associated with transformed dim,
@@ -494,7 +496,7 @@ def _get_stft_coords(patch, dim, axis, coord, stft, window):
     new_units = invert_quantity(coord.units)
     coord_map.update(
         {
-            dim: get_coord(values=time + coord.min(), units=coord.units),
+            dim: get_coord(values=time, units=coord.units),
             new_dims[axis]: get_coord(values=stft.f, units=new_units),
             # Add window array for inverse stft.
             "_stft_window": (None, window),
-- 
2.43.0


From 7a28e1fd215e6ceabfa2c8b61d9ecebff5403186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 41/59] fix: istft keeps coordinates attached to other
 dimensions

---
 dascore/transform/fourier.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dascore/transform/fourier.py b/dascore/transform/fourier.py
index cdf0116..87df376 100644
--- a/dascore/transform/fourier.py
+++ b/dascore/transform/fourier.py
@@ -642,12 +642,13 @@ def _get_istft_coord(coords, frequency_axis, time_axis):
     Get the coordinate manager for the inverse of the short time fourier transform.
     """
     dims = coords.dims
-    # Create new time coordinate.
-    coord_map = dict(coords.coord_map)
+    # Create new time coordinate, other coordinates stay with their dimensions.
+    removed = (dims[frequency_axis], dims[time_axis])
+    coord_map = coords.disassociate_coord(*removed).get_coord_tuple_map()
     coord_map.pop("_stft_window")
-    time = coord_map.pop("_stft_old_coord")
-    coord_map.pop(coords.dims[frequency_axis])
-    coord_map[dims[time_axis]] = time
+    _, time = coord_map.pop("_stft_old_coord")
+    coord_map.pop(dims[frequency_axis], None)
+    coord_map[dims[time_axis]] = (dims[time_axis], time)
     # Get new dimensions
     new_dims = list(dims)
     new_dims[frequency_axis] = dims[time_axis]
-- 
2.43.0


From 6aee6e5a234e24f9372fa8005df0dc00f25a500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:23 +0000
Subject: [PATCH 42/59] fix: sample counts of durations on reverse sorted
 coordinates

---
 dascore/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index f1c9ba3..faa44fc 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -867,7 +867,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
         else:
             compat_val = self._get_compatible_value(value, relative=True)
             duration = compat_val - self.min()
-            ratio = duration / self.step
+            ratio = duration / abs(self.step)
             if np.issubdtype(self.dtype, np.floating):
                 nearest = np.round(ratio)
                 # Adding a relative float value to coord.min() and subtracting
-- 
2.43.0


From 03876417ad170fdd14f9fb5399e45de4c81073c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:32 +0000
Subject: [PATCH 43/59] fix: chunk looked for gaps across patches of other
 kinds

---
 dascore/utils/chunk.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index ce56f9d..4f94716 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -211,23 +211,29 @@ class ChunkManager:
             raise ParameterError(msg)
 
     def _get_continuity_group_number(
-        self, start, stop, step, tolerance=None
+        self, start, stop, step, kind, tolerance=None
     ) -> pd.Series:
-        """Return a series of ints indicating continuity group."""
+        """
+        Return a series of ints indicating continuity group.
+
+        Only segments of the same kind can follow, or fill gaps between, each other.
+        """
         tolerance = self._tolerance if tolerance is None else tolerance
         # start by sorting according to start time
         # Use positional argsort to avoid pandas label/return-type changes
         args = np.argsort(start.to_numpy())
-        start_sorted, stop_sorted, step_sorted = (
+        start_sorted, stop_sorted, step_sorted, kind_sorted = (
             start.iloc[args],
             stop.iloc[args],
             step.iloc[args],
+            kind.iloc[args],
         )
         # next get cummax of endtimes and detect gaps
-        stop_cum_max = stop_sorted.cummax()
-        end_markers = stop_cum_max.shift() + step_sorted * tolerance
+        stop_cum_max = stop_sorted.groupby(kind_sorted).cummax()
+        last_stop = stop_cum_max.groupby(kind_sorted).shift()
+        end_markers = last_stop + step_sorted * tolerance
         has_gap = start_sorted > end_markers
-        group_num = has_gap.astype(np.int64).cumsum()
+        group_num = has_gap.astype(np.int64).groupby(kind_sorted).cumsum()
         return group_num[start.index]
 
     def _get_sampling_group_num(self, step, tolerance=0.05) -> pd.Series:
@@ -433,16 +439,16 @@ class ChunkManager:
         df = pd.concat(out, axis=0).reset_index(drop=True).set_index("source_index")
         return df
 
-    def _get_col_group(self, df, cont_g):
+    def _get_col_group(self, df, samp_g):
         """Get group columns based on common columns."""
         cols = list(self._group_columns or [])
         columns = [x for x in cols if x in df.columns]
-        col_g = cont_g * 0 if not columns else df.groupby(columns).ngroup()
+        col_g = samp_g * 0 if not columns else df.groupby(columns).ngroup()
         return col_g
 
-    def _get_final_group(self, samp_g, col_g, cont_g):
+    def _get_final_group(self, *groups):
         """Combine grouping components into final group labels."""
-        group_series = [x.astype(str) for x in [samp_g, col_g, cont_g]]
+        group_series = [x.astype(str) for x in groups]
         return reduce(lambda x, y: x + "_" + y, group_series)
 
     def _groups_merge_default_groups(self, group, default_cont_g) -> bool:
@@ -463,16 +469,17 @@ class ChunkManager:
         Get the group designation for df. This accounts for both time intervals
         being consistent and group columns matching.
         """
-        cont_g = self._get_continuity_group_number(start, stop, step)
         samp_g = self._get_sampling_group_num(step)
-        col_g = self._get_col_group(df, cont_g)
+        col_g = self._get_col_group(df, samp_g)
+        kind = self._get_final_group(samp_g, col_g)
+        cont_g = self._get_continuity_group_number(start, stop, step, kind)
         group = self._get_final_group(samp_g, col_g, cont_g)
 
         # Check for final merges that only occur because of a non-default
         # tolerance. See #662.
         if self._tolerance > _DEFAULT_TOLERANCE:
             default_cont_g = self._get_continuity_group_number(
-                start, stop, step, tolerance=_DEFAULT_TOLERANCE
+                start, stop, step, kind, tolerance=_DEFAULT_TOLERANCE
             )
             if self._groups_merge_default_groups(group, default_cont_g):
                 msg = (
-- 
2.43.0


From 070ecee8b68445f35b5e12e39dcd903f9d7c5b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:32 +0000
Subject: [PATCH 44/59] fix: chunking of reverse sorted coordinates

---
 dascore/utils/chunk.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index 4f94716..77b6662 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -232,7 +232,8 @@ class ChunkManager:
         stop_cum_max = stop_sorted.groupby(kind_sorted).cummax()
         last_stop = stop_cum_max.groupby(kind_sorted).shift()
         end_markers = last_stop + step_sorted * tolerance
-        has_gap = start_sorted > end_markers
+        # Reverse sorted segments (negative step) don't extend others.
+        has_gap = (start_sorted > end_markers) | (step_sorted < step_sorted * 0)
         group_num = has_gap.astype(np.int64).groupby(kind_sorted).cumsum()
         return group_num[start.index]
 
@@ -555,7 +556,10 @@ class ChunkManager:
         group_mins = start.groupby(group).min()
         group_maxs = stop.groupby(group).max()
         # split/group dataframe into new chunks by iterating over each group.
-        out = self._get_group_dfs(group, dur, overlap, group_mins, group_maxs, df, step)
+        # Lengths don't depend on the direction, only the size of step matters.
+        out = self._get_group_dfs(
+            group, dur, overlap, group_mins, group_maxs, df, step.abs()
+        )
         if not len(out):
             msg = "Could not chunk. No segments with sufficient length found."
             raise ChunkError(msg)
-- 
2.43.0


From 1a377cef61cb88df9e05f75fcfd0ca6ac7c7b6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 45/59] fix: get_next_index gives values in bounds the next
 index also beside values out of bounds

---
 dascore/core/coords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index faa44fc..4d9ec9b 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -949,7 +949,8 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
             # For absolute mode with evenly sampled coords, compute index from value
             if hasattr(self, "step") and self.step is not None:
                 # Calculate index: (value - min) / step
-                indices = ((array - min_val) / self.step).astype(np.int64)
+                fraction = np.round((array - min_val) / self.step, decimals=10)
+                indices = np.ceil(fraction).astype(np.int64)
                 return indices if input_array_like else indices[0]
 
         # Clamp values to bounds for backward compatibility when not out of bounds
-- 
2.43.0


From e266a34665149c6100f198a127c57398ecec0f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 46/59] fix: get_next_index leaves the values passed as they
 are

---
 dascore/core/coords.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dascore/core/coords.py b/dascore/core/coords.py
index 4d9ec9b..5a85489 100644
--- a/dascore/core/coords.py
+++ b/dascore/core/coords.py
@@ -954,6 +954,7 @@ class BaseCoord(DascoreBaseModel, abc.ABC):
                 return indices if input_array_like else indices[0]
 
         # Clamp values to bounds for backward compatibility when not out of bounds
+        array = np.array(array)  # a copy; the input must not change.
         array[is_gt] = max_val
         array[is_lt] = min_val
         # samples should already have the answer, just return
-- 
2.43.0


From 9893116a485464c914a4b89418aeb44638b7bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 47/59] fix: correlate names the sources by their coordinate

---
 dascore/proc/correlate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dascore/proc/correlate.py b/dascore/proc/correlate.py
index 0d63fec..987928a 100644
--- a/dascore/proc/correlate.py
+++ b/dascore/proc/correlate.py
@@ -29,10 +29,12 @@ def _get_source_fft(patch, dim, source, source_axis, samples):
     selecter = [slice(None), slice(None), None]
     selecter[source_axis] = np.atleast_1d(index_source)
     source = patch.data[tuple(selecter)]
+    # The coordinate of the samples used, in the units of the dimension.
+    new_coord = coord_source[np.atleast_1d(index_source)]
     # Now transpose source so source dim is list. Essentially we just
     # need to swap the source axis with the last axis.
     out = np.swapaxes(source, source_axis, -1)
-    return out
+    return out, new_coord
 
 
 @patch_function(data_type="correlation")
@@ -213,13 +215,11 @@ def correlate(
         patch = padded.dft.func(padded, fft_dim, real=fft_dim if is_real else None)
     # Get the sources.
     source = patch.get_coord(dim).values if source is None else source
-    source_fft = _get_source_fft(patch, dim, source, source_axis, samples)
+    source_fft, new_coord = _get_source_fft(patch, dim, source, source_axis, samples)
     # Need to insert new axis so the arrays broadcast correctly.
     fft_patch_array = patch.data[..., None]
     fft_prod = fft_patch_array * np.conj(source_fft)
     # Create frequency domain patch with results
-    source = getattr(source, "magnitude", source)  # strips units
-    new_coord = dc.get_coord(values=np.atleast_1d(source))
     dim_name = f"source_{dim}"
     cm = patch.coords.update(**{dim_name: (dim_name, new_coord)})
     out = patch.update(data=fft_prod, coords=cm)
-- 
2.43.0


From e6b6697143018df8f3caf584b8a017bc493c6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 48/59] fix: savgol_filter filters all the dimensions passed

---
 dascore/proc/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/proc/filter.py b/dascore/proc/filter.py
index 51c9508..fd732e5 100644
--- a/dascore/proc/filter.py
+++ b/dascore/proc/filter.py
@@ -391,7 +391,7 @@ def savgol_filter(
     size, axes = _create_size_and_axes(patch, kwargs, samples)
     for ax in axes:
         data = np_savgol_filter(
-            x=patch.data,
+            x=data,
             window_length=size[ax],
             polyorder=polyorder,
             mode=mode,
-- 
2.43.0


From f4519c1cc10626c32c615b9f20a32448cbea45e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 49/59] fix: slope_filter refuses corners which are not sorted

---
 dascore/proc/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/proc/filter.py b/dascore/proc/filter.py
index fd732e5..96e36f1 100644
--- a/dascore/proc/filter.py
+++ b/dascore/proc/filter.py
@@ -549,7 +549,7 @@ def slope_filter(
 
     def _check_inputs(patch, filt, dims):
         """Ensure inputs are valid."""
-        sorted_filt = np.all(filt[:-1] <= filt[1:])
+        sorted_filt = all(x <= y for x, y in zip(filt[:-1], filt[1:]))
         if not (sorted_filt and len(filt) == 4):
             msg = f"filt must be a sorted length 4 sequence. You passed {filt}"
             raise ParameterError(msg)
-- 
2.43.0


From e4616cbdb8313335b22694ecaaa05e5b8143ae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 50/59] fix: slope_filter with equal upper corners

---
 dascore/proc/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/proc/filter.py b/dascore/proc/filter.py
index 96e36f1..ba970f7 100644
--- a/dascore/proc/filter.py
+++ b/dascore/proc/filter.py
@@ -566,7 +566,7 @@ def slope_filter(
         )
         fac = np.where((slope >= filt[1]) & (slope <= filt[2]), 0.0, fac)
         fac = np.where(
-            (slope >= filt[2]) & (slope <= filt[3]),
+            (slope > filt[2]) & (slope <= filt[3]),
             np.sin(0.5 * np.pi * (slope - filt[2]) / (filt[3] - filt[2])),
             fac,
         )
-- 
2.43.0


From e6ec058f30fc8631cfc696048bb88c3c4fc0da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 51/59] fix: resample reverse sorted coordinates

---
 dascore/proc/resample.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dascore/proc/resample.py b/dascore/proc/resample.py
index 1ebc828..0ac0ca6 100644
--- a/dascore/proc/resample.py
+++ b/dascore/proc/resample.py
@@ -14,7 +14,6 @@ from dascore.units import get_filter_units
 from dascore.utils.imports import lazy_import
 from dascore.utils.patch import (
     get_dim_axis_value,
-    get_start_stop_step,
     patch_function,
 )
 from dascore.utils.time import to_int, to_timedelta64
@@ -236,6 +235,8 @@ def resample(
         # nasty hack so that ints/floats get converted to seconds.
         if isinstance(step, np.timedelta64):
             new_step = to_timedelta64(new_step)
+        # the samples stay in their order, also if the coord is reverse sorted.
+        new_step = -new_step if coord.reverse_sorted else new_step
         current_sig_len = patch.data.shape[axis]
         new_len = current_sig_len * (step / new_step)
     else:
@@ -248,7 +249,7 @@ def resample(
     out = patch.new(data=data, coords=cm)
     # Interpolate if new sampling rate is not very close to desired sampling rate.
     if not samples and not np.isclose(new_len, np.round(new_len)):
-        start, stop, step = get_start_stop_step(out, dim)
-        new_coord = np.arange(start, stop, new_step)
+        values = out.get_array(dim)
+        new_coord = np.arange(values[0], values[-1], new_step)
         out = interpolate(out, kind=interp_kind, **{dim: new_coord})
     return out
-- 
2.43.0


From b81455095b508b5f4bb21c2bc5d3d4c65e7ff3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 52/59] fix: resample keeps the units of the coordinate

---
 dascore/proc/resample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dascore/proc/resample.py b/dascore/proc/resample.py
index 0ac0ca6..d9773b4 100644
--- a/dascore/proc/resample.py
+++ b/dascore/proc/resample.py
@@ -245,6 +245,7 @@ def resample(
     data, new_coord = compat.resample(
         patch.data, int(np.round(new_len)), t=coord, axis=axis, window=window
     )
+    new_coord = dc.get_coord(values=new_coord, units=coord.units)
     cm = patch.coords.update(**{dim: new_coord})
     out = patch.new(data=data, coords=cm)
     # Interpolate if new sampling rate is not very close to desired sampling rate.
-- 
2.43.0


From 0e1baebc1b539f8fcbce3845022152b1b85f9159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 53/59] fix: fbe keeps the attributes of the patch

---
 dascore/transform/fbe.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dascore/transform/fbe.py b/dascore/transform/fbe.py
index 48ffaf9..de8586c 100644
--- a/dascore/transform/fbe.py
+++ b/dascore/transform/fbe.py
@@ -88,13 +88,10 @@ def fbe(
 
     patch = patch.pass_filter(**kwargs)
 
-    fbe = ((patch**2).rolling(**{dim: window, "step": step}).mean() ** 0.5).update(
-        attrs={"data_type": "frequency_band_energy"}
-    )
+    fbe = (patch**2).rolling(**{dim: window, "step": step}).mean() ** 0.5
+    fbe = fbe.update_attrs(data_type="frequency_band_energy")
 
     if db:
-        fbe = (20 * fbe.log10()).update(
-            attrs={"data_type": "frequency_band_energy", "data_units": "dB"}
-        )
+        fbe = (20 * fbe.log10()).update_attrs(data_units="dB")
 
     return fbe
-- 
2.43.0


From 7c11f87c4de8552e81da581e5ba6b5201cecd178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 54/59] fix: kurtosis keeps the attributes of the patch

---
 dascore/transform/kurtosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/transform/kurtosis.py b/dascore/transform/kurtosis.py
index 8ee822b..94ddabf 100644
--- a/dascore/transform/kurtosis.py
+++ b/dascore/transform/kurtosis.py
@@ -240,5 +240,5 @@ def kurtosis(
     return (
         patch_t.new(data=out)
         .transpose(*orig_dims)
-        .update(attrs={"data_type": "kurtosis", "data_units": ""})
+        .update_attrs(data_type="kurtosis", data_units="")
     )
-- 
2.43.0


From 530dada4568e1cddf6e22fda2eb4fe698a2acb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 55/59] fix: tau_p of unevenly sampled distances used other
 samples for negative slowness

---
 dascore/transform/taup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/transform/taup.py b/dascore/transform/taup.py
index 12a7d13..5c33ebd 100644
--- a/dascore/transform/taup.py
+++ b/dascore/transform/taup.py
@@ -63,7 +63,7 @@ def _jit_taup_general(data, distance, dt, p_vals):
                 samp_val_neg = (
                     tau + p * (mod_distance[-1] - mod_distance[nx - 1 - ix]) / dt
                 )
-                ind_neg = int(samp_val_pos)
+                ind_neg = int(samp_val_neg)
                 if ind_pos + 1 < nt:
                     taup[ip + n_slo, tau] += (1.0 + ind_pos - samp_val_pos) * data[
                         ix, ind_pos
-- 
2.43.0


From 5b6d7c7381d9dad1adc12f02e112fb8f03ddf6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 56/59] fix: tau_p of patches with other dimension order or
 reverse sorted coordinates

---
 dascore/transform/taup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dascore/transform/taup.py b/dascore/transform/taup.py
index 5c33ebd..7a2a188 100644
--- a/dascore/transform/taup.py
+++ b/dascore/transform/taup.py
@@ -120,6 +120,8 @@ def tau_p(
     patch_cop = patch.convert_units(distance="m", time="s").transpose(
         "distance", "time"
     )
+    # slownesses are measured from the first to the last sample.
+    patch_cop = patch_cop.sort_coords("distance", "time")
     dist = patch_cop.get_coord("distance")
     time = patch_cop.get_coord("time", require_evenly_sampled=True)
     dt = to_float(time.step)
@@ -143,9 +145,9 @@ def tau_p(
         func = _jit_taup_general
         dist_val = dist.values
 
-    slowness, tau_p_data = func(patch.data, dist_val, dt, 1.0 / velocities)
+    slowness, tau_p_data = func(patch_cop.data, dist_val, dt, 1.0 / velocities)
 
-    attrs = patch.attrs.update(category="taup")
+    attrs = patch_cop.attrs.update(category="taup")
     coords = dict(slowness=slowness, time=time)
 
     tau_p_patch = patch.new(
-- 
2.43.0


From 07f12cf0f996965964dcfb6ec0065e3f84faa6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 57/59] fix: sampling rates of reverse sorted coordinates are
 positive

---
 dascore/utils/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/utils/patch.py b/dascore/utils/patch.py
index 0351059..2a5e360 100644
--- a/dascore/utils/patch.py
+++ b/dascore/utils/patch.py
@@ -708,7 +708,7 @@ def get_dim_sampling_rate(patch: PatchType, dim: str) -> float:
             f"Patch.extrapolate. "
         )
         raise CoordDataError(msg)
-    return 1.0 / d_dim
+    return 1.0 / abs(d_dim)  # the step of reverse sorted coords is negative
 
 
 def get_patch_window_size(
-- 
2.43.0


From 6475461dd83e7faaa320e0750451aa9682f7b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 58/59] fix: the newest version of a format is found by number

---
 dascore/io/core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index c80b96d..04d013e 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 
 import inspect
 import os.path
+import re
 import warnings
 from collections import defaultdict
 from collections.abc import Generator
@@ -100,6 +101,12 @@ class PatchFileSummary(DascoreBaseModel):
         return self.model_dump()
 
 
+def _version_key(version: str) -> list:
+    """Get a key for sorting versions by the numbers they contain."""
+    parts = re.split(r"(\d+)", str(version))
+    return [int(x) if i % 2 else x for i, x in enumerate(parts)]
+
+
 class _FiberIOManager:
     """
     A structure for intelligently storing, loading, and return FiberIO objects.
@@ -157,7 +164,7 @@ class _FiberIOManager:
         second_class_fiber_ios = []
         for format_name in self.known_formats:
             unsorted = self._format_version[format_name]
-            keys = sorted(unsorted, reverse=True)
+            keys = sorted(unsorted, key=_version_key, reverse=True)
             # formats whose plugins failed to load have no fiber_ios.
             if not keys:
                 continue
@@ -318,8 +325,8 @@ class _FiberIOManager:
             yield fiber_io
             return
         # reverse sort fiber_ios and yield latest version first.
-        for fiber_io in dict(sorted(fiber_ios.items(), reverse=True)).values():
-            yield fiber_io
+        for key in sorted(fiber_ios, key=_version_key, reverse=True):
+            yield fiber_ios[key]
         return
 
     def _yield_extensions(self, extension, input_type=None):
-- 
2.43.0


From 444cdb580fe97fb0767664c9f7da4c4afa6c602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:59 +0000
Subject: [PATCH 59/59] fix: entry points of other formats are not loaded along

---
 dascore/io/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 04d013e..b939d31 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -189,7 +189,11 @@ class _FiberIOManager:
         formats = {format} if format is not None else unloaded
         # Load one, or all, formats
         for form in formats:
-            entries = [name for name in self._eps.index if name.startswith(form)]
+            entries = [
+                name
+                for name in self._eps.index
+                if name.split("__", maxsplit=1)[0] == form
+            ]
             for name, eps in self._eps.loc[entries].items():
                 try:
                     self.register_fiberio(eps()())
-- 
2.43.0

