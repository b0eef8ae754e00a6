From 2c80a826f1cb2724e4cdccf5360692566f50fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 01/65] fix: keep short distributed dimensions on one rank when
 below the minimum element count

---
 src/ocgis/vmachine/mpi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 2cabba3..04c2354 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -335,7 +335,8 @@ class OcgDist(AbstractOcgisObject):
                 # Use the minimum number of elements per rank to potentially adjust the size.
                 min_size = int(np.floor(len(distributed_dimension) / float(min_elements)))
                 if self.size > 1 and min_size < the_size:
-                    the_size = min_size
+                    # A dimension shorter than the minimum still needs a rank to live on.
+                    the_size = max(min_size, 1)
 
                 # Fix the global bounds.
                 distributed_dimension.bounds_global = (0, len(distributed_dimension))
-- 
2.43.0


From 175850e1d14a615576d6c279b3968dfafc19453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 02/65] fix: dimension slices follow sequence semantics for
 length and source indices

---
 src/ocgis/variable/dimension.py | 78 ++++++++++++++-------------------
 1 file changed, 34 insertions(+), 44 deletions(-)

diff --git a/src/ocgis/variable/dimension.py b/src/ocgis/variable/dimension.py
index 26454c4..94ef6a5 100644
--- a/src/ocgis/variable/dimension.py
+++ b/src/ocgis/variable/dimension.py
@@ -404,33 +404,14 @@ class Dimension(AbstractNamedObject):
 
     def __getitem_main__(self, ret, slc):
         length_self = len(self)
-        try:
-            length = len(slc)
-        except TypeError:
-            # Likely a slice object.
-            try:
-                length = slc.stop - slc.start
-            except TypeError:
-                # Likely a NoneType slice.
-                if slc.start is None:
-                    if slc.stop is not None and slc.stop > 0:
-                        length = length_self
-                    elif slc.stop is None:
-                        length = length_self
-                    else:
-                        length = length_self + slc.stop
-                elif slc.stop is None:
-                    if slc.start > 0:
-                        length = length_self - slc.start
-                    else:
-                        length = abs(slc.start)
-                else:
-                    raise
+        if isinstance(slc, slice):
+            if slc.step in (None, 1):
+                start, stop = get_contiguous_slice_bounds(slc, length_self)
+                length = stop - start
             else:
-                # If the slice length is greater than the current length, keep the length the same.
-                if length > length_self:
-                    length = length_self
+                length = len(range(*slc.indices(length_self)))
         else:
+            length = len(slc)
             try:
                 # Check for boolean slices.
                 if slc.dtype == bool:
@@ -439,10 +420,6 @@ class Dimension(AbstractNamedObject):
                 # Likely a list/tuple.
                 pass
 
-        if length < 0:
-            # This is using negative indexing. Subtract from the current length.
-            length += length_self
-
         # Slice the source index. If the source index is None, a value of None will be returned by the slice operation.
         src_idx = slice_source_index(slc, ret._src_idx)
 
@@ -502,6 +479,26 @@ def create_src_idx(start, stop, dtype=np.int32, si_type=SourceIndexType.BOUNDS):
     return ret
 
 
+def get_contiguous_slice_bounds(slc, length):
+    """
+    Get the non-negative start and stop indices selected by a slice without a step on a sequence of the given length.
+
+    :param slc: The slice. Its start and stop may be open-ended, negative, or past the end.
+    :type slc: :class:`slice`
+    :param int length: Length of the sequence.
+    :rtype: tuple(int, int)
+    """
+    start = 0 if slc.start is None else slc.start
+    stop = length if slc.stop is None else slc.stop
+    if start < 0:
+        start += length
+    if stop < 0:
+        stop += length
+    start = min(max(start, 0), length)
+    stop = max(min(stop, length), start)
+    return start, stop
+
+
 def identify_source_index_type(src_idx):
     if src_idx is None:
         ret = None
@@ -523,25 +520,18 @@ def slice_source_index(slc, src_idx):
                 src_idx = src_idx.__getitem__(slc)
             else:
                 offset = src_idx[0]
+                length = src_idx[1] - offset
                 if isinstance(slc, np.ndarray):
                     if slc.dtype == bool:
                         slc = np.where(slc)[0]
-                    src_idx = slc + offset
+                    # Negative indices count from the end.
+                    src_idx = np.where(slc < 0, slc + length, slc) + offset
+                elif slc.step in (None, 1):
+                    start, stop = get_contiguous_slice_bounds(slc, length)
+                    src_idx = (offset + start, offset + stop)
                 else:
-                    new_si = np.array(src_idx) - offset
-                    start, stop = slc.start, slc.stop
-
-                    if start < 0:
-                        new_si[0] = new_si[1] + start
-                    elif start > new_si[0]:
-                        new_si[0] = start
-
-                    if stop < 0:
-                        new_si[1] = new_si[1] + stop
-                    elif stop < new_si[1]:
-                        new_si[1] = stop
-                    new_si += offset
-                    src_idx = tuple(new_si)
+                    # Bounds may only describe contiguous source indices.
+                    src_idx = create_src_idx(offset, offset + length, si_type=SourceIndexType.FANCY)[slc]
         else:
             src_idx = None
     return src_idx
-- 
2.43.0


From 4acf79557a76907be9021c5ac2a46bf24039d6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 03/65] fix: last-element and non-consecutive index slices keep
 their selection

---
 src/ocgis/util/helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index d5d76b1..9047257 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -445,7 +445,8 @@ def get_formatted_slice(slc, n_dims):
             pass
 
         if isinstance(single_slc, int):
-            ret = slice(single_slc, single_slc + 1)
+            # The last element has no explicit stop when counting from the end.
+            ret = slice(single_slc, single_slc + 1 if single_slc != -1 else None)
         elif isinstance(single_slc, slice):
             ret = single_slc
         elif isinstance(single_slc, np.ndarray):
@@ -625,7 +626,8 @@ def get_optimal_slice_from_array(arr, check_diff=True):
     if arr.dtype == bool:
         ret = arr
     else:
-        if check_diff and np.any(np.diff(arr) > 1):
+        # Only consecutive, non-negative indices are equivalent to a slice.
+        if check_diff and (np.any(np.diff(arr) != 1) or np.any(arr < 0)):
             ret = arr
         else:
             arr_min, arr_max = arr.min(), arr.max()
-- 
2.43.0


From 2c10f4d9f8aeb1340a1dfa673238b9b8f090e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 04/65] fix: distributed dimension slices accept negative and
 open-ended indices

---
 src/ocgis/variable/dimension.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/dimension.py b/src/ocgis/variable/dimension.py
index 94ef6a5..b53229a 100644
--- a/src/ocgis/variable/dimension.py
+++ b/src/ocgis/variable/dimension.py
@@ -318,7 +318,9 @@ class Dimension(AbstractNamedObject):
             if is_fancy:
                 local_slc = slc
             else:
-                local_slc = get_global_to_local_slice((slc.start, slc.stop), self.bounds_local)
+                # Open-ended and negative indices are relative to the global dimension.
+                start_stop = get_contiguous_slice_bounds(slc, self.size_global)
+                local_slc = get_global_to_local_slice(start_stop, self.bounds_local)
                 if local_slc is not None:
                     local_slc = slice(*local_slc)
             # Slice does not overlap local bounds. The dimension is now empty with size 0.
-- 
2.43.0


From 740434cd3c0102a0174510cfa15e108baa9c8ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 05/65] fix: resolution of unbounded coordinates is right when
 they cross zero

---
 src/ocgis/variable/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 18c061c..a378b98 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -658,7 +658,7 @@ class Variable(AbstractContainer, Attributes):
             res_array = res_bounds[:, 1] - res_bounds[:, 0]
             ret = np.abs(res_array).mean()
         else:
-            res_array = np.diff(np.abs(self.get_value()[0:constants.RESOLUTION_LIMIT]))
+            res_array = np.diff(self.get_value()[0:constants.RESOLUTION_LIMIT])
             ret = np.abs(res_array).mean()
         return ret
 
-- 
2.43.0


From cec1af96984f2dd87d62bee62bec2b26477511c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 06/65] fix: index arrays on more than one dimension select
 along each dimension

---
 src/ocgis/util/helpers.py  | 17 +++++++++++++++++
 src/ocgis/variable/base.py | 12 +++++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 9047257..47171c4 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -622,6 +622,23 @@ def get_esmf_corners_from_ocgis_corners(ocorners, fill=None):
     return fill
 
 
+def get_orthogonal_slice(slc, shape):
+    """
+    Convert a formatted slice to one where every element selects along its own axis only. Array elements in a slice are
+    paired by ``numpy`` when there is more than one of them.
+
+    :param tuple slc: A formatted slice. See :func:`get_formatted_slice`.
+    :param tuple shape: Shape of the array to slice.
+    :rtype: tuple
+    """
+
+    if sum(isinstance(s, ndarray) for s in slc) < 2:
+        ret = slc
+    else:
+        ret = np.ix_(*[np.arange(n)[s] for s, n in zip(slc, shape)])
+    return ret
+
+
 def get_optimal_slice_from_array(arr, check_diff=True):
     if arr.dtype == bool:
         ret = arr
diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index a378b98..e798547 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -19,7 +19,7 @@ from ocgis.exc import VariableInCollectionError, BoundsAlreadyAvailableError, Em
     ResolutionError, NoUnitsError, DimensionsRequiredError, DimensionMismatchError, MaskedDataFound, \
     PayloadProtectedError
 from ocgis.util.helpers import get_iter, get_formatted_slice, get_bounds_from_1d, get_extrapolated_corners_esmf, \
-    create_ocgis_corners_from_esmf_corners, is_crs_variable, arange_from_bool_ndarray, dict_first
+    create_ocgis_corners_from_esmf_corners, is_crs_variable, arange_from_bool_ndarray, dict_first, get_orthogonal_slice
 from ocgis.util.helpers import is_auto_dtype
 from ocgis.util.units import get_units_object, get_conformed_units
 from ocgis.variable.attributes import Attributes
@@ -324,9 +324,10 @@ class Variable(AbstractContainer, Attributes):
         new_mask = None
 
         if ret._value is not None:
-            new_value = ret.get_value().__getitem__(slc)
+            new_value = ret.get_value()
+            new_value = new_value.__getitem__(get_orthogonal_slice(slc, new_value.shape))
         if ret._mask is not None:
-            new_mask = ret._mask.__getitem__(slc)
+            new_mask = ret._mask.__getitem__(get_orthogonal_slice(slc, ret._mask.shape))
 
         if new_value is not None:
             ret._value = new_value
@@ -353,12 +354,13 @@ class Variable(AbstractContainer, Attributes):
             slc = [slc[ii] for ii in self.dimension_names]
 
         slc = get_formatted_slice(slc, self.ndim)
-        self.get_value()[slc] = variable.get_value()
+        orthogonal_slc = get_orthogonal_slice(slc, self.shape)
+        self.get_value()[orthogonal_slc] = variable.get_value()
 
         variable_mask = variable.get_mask()
         if variable_mask is not None:
             new_mask = self.get_mask(create=True)
-            new_mask[slc] = variable_mask
+            new_mask[orthogonal_slc] = variable_mask
 
         if self.has_bounds:
             names_src = get_dimension_names(self.dimensions)
-- 
2.43.0


From 5c478f6fffaf79d48b6609a0a4432734be7310b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 07/65] fix: value-range subsets return indices when the
 selection is one contiguous run

---
 src/ocgis/variable/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index e798547..b7c75e5 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1220,6 +1220,8 @@ class Variable(AbstractContainer, Attributes):
         if not select.any():
             raise EmptySubsetError(origin=self.name)
 
+        indices = np.arange(select.shape[0])[select]
+
         # Allow single-valued dimensions to be subset.
         if self.ndim == 0:
             if select[0]:
@@ -1233,8 +1235,7 @@ class Variable(AbstractContainer, Attributes):
             ret = self[select]
 
         if return_indices:
-            indices = np.arange(select.shape[0])
-            ret = (ret, indices[select])
+            ret = (ret, indices)
 
         return ret
 
-- 
2.43.0


From 22a8e59be575c2eaf5b2a7a77d7fc6737e785b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 08/65] fix: setting masks on shared dimensions does not change
 the masks of shallow copies

---
 src/ocgis/variable/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index b7c75e5..db7c1aa 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2531,6 +2531,9 @@ def set_mask_by_variable(source_variable, target_variable, slice_map=None, updat
             # If the target mask is none, we will need to generate one.
             if mask_target is None:
                 mask_target = np.zeros(target_variable.shape, dtype=bool)
+            else:
+                # Masks may be shared with shallow copies.
+                mask_target = mask_target.copy()
             template = [slice(None)] * target_variable.ndim
             for slc in itertools.product(*[list(range(ii)) for ii in source_variable.shape]):
                 # slc = [slice(s, s + 1) for s in slc]
-- 
2.43.0


From b2fbde962f1f86f178138983e87df2b8e3c19c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 09/65] fix: cascading a grid mask keeps the masks of data
 variables on the grid dimensions

---
 src/ocgis/spatial/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index a22add9..818c522 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -1281,7 +1281,8 @@ def grid_set_geometry_variable_on_parent(func, grid, name, alloc_only=False):
 
 def grid_set_mask_cascade(grid):
     members = grid.get_member_variables(include_bounds=True)
-    grid.parent.set_mask(grid.mask_variable, exclude=members)
+    # Data variables may have masks of their own.
+    grid.parent.set_mask(grid.mask_variable, exclude=members, update=True)
 
 
 def expand_grid(grid):
-- 
2.43.0


From d3db2f0861714c70af59806909f7eb070f791b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 10/65] fix: grid resolution is right when coordinates cross
 zero

---
 src/ocgis/driver/nc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index ddceca1..54fc158 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -359,12 +359,12 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
             resolution_limit = constants.RESOLUTION_LIMIT
             is_vectorized = value.ndim == 1
             if is_vectorized:
-                target = np.abs(np.diff(np.abs(value[0:resolution_limit])))
+                target = np.abs(np.diff(value[0:resolution_limit]))
             else:
                 if axis == 0:
-                    target = np.abs(np.diff(np.abs(value[:, 0:resolution_limit]), axis=axis))
+                    target = np.abs(np.diff(value[:, 0:resolution_limit], axis=axis))
                 elif axis == 1:
-                    target = np.abs(np.diff(np.abs(value[0:resolution_limit, :]), axis=axis))
+                    target = np.abs(np.diff(value[0:resolution_limit, :], axis=axis))
                 else:
                     raise NotImplementedError(axis)
             ret = np.mean(target)
-- 
2.43.0


From c9ec2e648afc019ceba0c0cfa54286a118823744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 11/65] fix: touching points of vectorized grids are found
 column by column

---
 src/ocgis/spatial/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 818c522..7190127 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -1246,7 +1246,7 @@ def get_hint_mask_from_geometry_bounds(grid, bbox, invert=True, no_touching=Fals
             for ii in range(grid.shape[0]):
                 ety[ii, :] = ty[ii]
             for jj in range(grid.shape[1]):
-                etx[:, jj] = tx[ii]
+                etx[:, jj] = tx[jj]
             tx = etx
             ty = ety
         if np.any(np.logical_and(tx, ty)):
-- 
2.43.0


From 58aa775a303d97250ee6e4a5dc664e2032958a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 12/65] fix: optimized bounding box subsets keep the existing
 grid mask

---
 src/ocgis/spatial/grid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 7190127..c545c9f 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -667,7 +667,11 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
         if optimized_bbox_subset:
             if original_mask is not None and original_mask.any():
                 # TODO: OPTIMIZE: Can we avoid the cascade? There is no reason to cascade the mask if it is going to be sliced off anyway.
-                ret.set_mask(original_mask, cascade=True)
+                # Elements masked before the subset stay masked.
+                ret_mask = original_mask
+                if original_grid_has_mask:
+                    ret_mask = np.logical_or(ret.get_mask(), original_mask)
+                ret.set_mask(ret_mask, cascade=True)
             sliced_grid, _, the_slice = get_masking_slice(original_mask, ret, apply_slice=apply_slice)
             sliced_grid_mask = sliced_grid.get_mask()
             if not original_grid_has_mask and sliced_grid_mask is not None and not sliced_grid_mask.any():
-- 
2.43.0


From 8c1092bd8439a9e134a5d0206c23ba746f002ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 13/65] fix: grid subsets consider every cell meeting the
 geometry, however wide

---
 src/ocgis/spatial/grid.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index c545c9f..2dd6d65 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -634,7 +634,7 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
 
         if original_mask is None:
             if not optimized_bbox_subset:
-                buffer_value = self.resolution * 1.25
+                buffer_value = get_hint_buffer(self, use_bounds)
 
             if isinstance(subset_geom, BaseMultipartGeometry):
                 geom_itr = subset_geom
@@ -1235,6 +1235,24 @@ def get_coordinate_boolean_array(grid_target, keep_touches, max_target, min_targ
     return res_target
 
 
+def get_hint_buffer(grid, use_bounds):
+    """
+    Return a distance that, when added around a geometry, contains the representative coordinates of every grid element
+    intersecting the geometry.
+
+    :param grid: The target grid.
+    :type grid: :class:`~ocgis.Grid`
+    :param bool use_bounds: If ``True``, elements are the cells described by the grid's bounds.
+    :rtype: float
+    """
+    if use_bounds and grid.has_bounds:
+        reach = [np.abs(c.bounds.get_value() - np.expand_dims(c.get_value(), -1)).max() for c in (grid.x, grid.y)]
+        ret = max(reach) * 1.25
+    else:
+        ret = grid.resolution * 1.25
+    return ret
+
+
 def get_hint_mask_from_geometry_bounds(grid, bbox, invert=True, no_touching=False):
     grid_x = grid.x.get_value()
     grid_y = grid.y.get_value()
-- 
2.43.0


From aa0579c16624bedc2bcdc0ef9038152fb3714b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 14/65] fix: wrapping a field with inplace=False copies
 coordinate values

---
 src/ocgis/collection/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index 034d41d..92a3ee3 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -1153,7 +1153,7 @@ def wrap_or_unwrap(field, action, inplace=True):
     if field.grid is not None:
         if not inplace:
             x = field.grid.x
-            x.set_value(x.value.copy())
+            x.set_value(x.get_value().copy())
         if action == WrapAction.WRAP:
             field.grid.wrap()
         else:
@@ -1161,7 +1161,7 @@ def wrap_or_unwrap(field, action, inplace=True):
     elif field.geom is not None:
         if not inplace:
             geom = field.geom
-            geom.set_value(geom.value.copy())
+            geom.set_value(geom.get_value().copy())
         if action == WrapAction.WRAP:
             field.geom.wrap()
         else:
-- 
2.43.0


From 84e4e5432a6840879d1bbef9c0fb573402c34126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 15/65] fix: reordering a wrapped grid moves bounds, masks and
 one-dimensional variables with their coordinates

---
 src/ocgis/spatial/grid.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 2dd6d65..37ecbd2 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -772,7 +772,8 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
 
         shift_indices = np.zeros(self.shape[0], dtype=int)
         for row_index in range(wrapped.shape[0]):
-            the_split_index = None
+            # Rows without negative values are already ordered.
+            the_split_index = 0
             for ctr, element in enumerate(wrapped[row_index].flat):
                 if element < 0:
                     the_split_index = ctr
@@ -781,19 +782,30 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
 
         if self.is_vectorized:
             shift_indices[:] = shift_indices[0]
-            reorder_array(shift_indices, self.x.get_value().reshape(1, -1), get_dimension_names(self.dimensions),
-                          reorder_dimension, varying_dimension)
 
-        # Reorder all arrays that have the reorder and varying dimension.
+        # Reorder all arrays that have the reorder dimension. Masks are collected first because setting a mask updates the
+        # mask of the bounds.
+        masks = []
         for var in list(self.parent.values()):
             arr_dimension_names = get_dimension_names(var.dimensions)
-            if reorder_dimension in arr_dimension_names and varying_dimension in arr_dimension_names:
+            if reorder_dimension not in arr_dimension_names:
+                continue
+            mask = var.get_mask().copy() if var.has_masked_values else None
+            if varying_dimension in arr_dimension_names:
                 reorder_array(shift_indices, var.get_value(), arr_dimension_names, reorder_dimension, varying_dimension)
-                if var.has_masked_values:
-                    mask = var.get_mask()
-                    if mask is not None:
-                        reorder_array(shift_indices, mask, arr_dimension_names, reorder_dimension, varying_dimension)
-                        var.set_mask(mask)
+                if mask is not None:
+                    reorder_array(shift_indices, mask, arr_dimension_names, reorder_dimension, varying_dimension)
+            elif self.is_vectorized:
+                # The shift is the same along the varying dimension. This includes the coordinate and its bounds.
+                axis = arr_dimension_names.index(reorder_dimension)
+                value = var.get_value()
+                value[:] = np.roll(value, -shift_indices[0], axis=axis)
+                if mask is not None:
+                    mask = np.roll(mask, -shift_indices[0], axis=axis)
+            if mask is not None:
+                masks.append((var, mask))
+        for var, mask in masks:
+            var.set_mask(mask)
 
     def set_extrapolated_bounds(self, name_x_variable, name_y_variable, name_dimension):
         """
-- 
2.43.0


From 7658bedc993b497cb1eac8e6fb7860348fd02f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 16/65] fix: empty spatial subsets restore the coordinates of
 the target field

---
 src/ocgis/spatial/spatial_subset.py | 111 ++++++++++++++--------------
 1 file changed, 56 insertions(+), 55 deletions(-)

diff --git a/src/ocgis/spatial/spatial_subset.py b/src/ocgis/spatial/spatial_subset.py
index fb53302..9017c55 100644
--- a/src/ocgis/spatial/spatial_subset.py
+++ b/src/ocgis/spatial/spatial_subset.py
@@ -111,63 +111,64 @@ class SpatialSubsetOperation(AbstractOcgisObject):
         # Prepare the target field.
         self._prepare_target_()
 
-        # execute the spatial operation
-        slc = None
-        if operation == 'intersects':
-            if self.field.grid is None:
-                if keep_touches == 'auto':
-                    keep_touches = False
-                ret = self.field.geom.get_intersects(base_geometry, use_spatial_index=use_spatial_index,
-                                                     cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                ret = ret.parent
-            else:
-                ret = self.field.grid.get_intersects(base_geometry, cascade=cascade,
-                                                     optimized_bbox_subset=optimized_bbox_subset,
-                                                     return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                ret = ret.parent
-        elif operation in ('clip', 'intersection'):
-            if self.field.grid is None:
-                ret = self.field.geom.get_intersection(base_geometry, use_spatial_index=use_spatial_index,
-                                                       cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                ret = ret.parent
+        try:
+            # execute the spatial operation
+            slc = None
+            if operation == 'intersects':
+                if self.field.grid is None:
+                    if keep_touches == 'auto':
+                        keep_touches = False
+                    ret = self.field.geom.get_intersects(base_geometry, use_spatial_index=use_spatial_index,
+                                                         cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    ret = ret.parent
+                else:
+                    ret = self.field.grid.get_intersects(base_geometry, cascade=cascade,
+                                                         optimized_bbox_subset=optimized_bbox_subset,
+                                                         return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    ret = ret.parent
+            elif operation in ('clip', 'intersection'):
+                if self.field.grid is None:
+                    ret = self.field.geom.get_intersection(base_geometry, use_spatial_index=use_spatial_index,
+                                                           cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    ret = ret.parent
+                else:
+                    ret = self.field.grid.get_intersection(base_geometry, cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    # An intersection with a grid returns a geometry variable. Set this on the field.
+                    ret.parent.set_geom(ret)
+                    ret = ret.parent
             else:
-                ret = self.field.grid.get_intersection(base_geometry, cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                # An intersection with a grid returns a geometry variable. Set this on the field.
-                ret.parent.set_geom(ret)
-                ret = ret.parent
-        else:
-            msg = 'The spatial operation "{0}" is not supported.'.format(operation)
-            raise ValueError(msg)
-
-        with vm.scoped_by_emptyable('return finalize', ret):
-            if not vm.is_null:
-                # Select the nearest geometry if requested.
-                if select_nearest:
-                    ret.set_abstraction_geom()
-                    ret = ret.geom.get_nearest(base_geometry).parent
-
-                # check for rotated pole and convert back to default CRS
-                if self._original_rotated_pole_state is not None and self.output_crs == 'input':
-                    ret.update_crs(self._original_rotated_pole_state)
-
-                # wrap the data...
-                if self._get_should_wrap_(ret):
-                    ret.wrap()
-
-                # convert the coordinate system if requested...
-                if self.should_update_crs:
-                    ret.update_crs(self.output_crs)
+                msg = 'The spatial operation "{0}" is not supported.'.format(operation)
+                raise ValueError(msg)
 
-        # Return the target field to its original state.
-        self._finalize_target()
+            with vm.scoped_by_emptyable('return finalize', ret):
+                if not vm.is_null:
+                    # Select the nearest geometry if requested.
+                    if select_nearest:
+                        ret.set_abstraction_geom()
+                        ret = ret.geom.get_nearest(base_geometry).parent
+
+                    # check for rotated pole and convert back to default CRS
+                    if self._original_rotated_pole_state is not None and self.output_crs == 'input':
+                        ret.update_crs(self._original_rotated_pole_state)
+
+                    # wrap the data...
+                    if self._get_should_wrap_(ret):
+                        ret.wrap()
+
+                    # convert the coordinate system if requested...
+                    if self.should_update_crs:
+                        ret.update_crs(self.output_crs)
+        finally:
+            # Return the target field to its original state. This is also necessary if the subset is empty.
+            self._finalize_target()
 
         if return_slice:
             ret = (ret, slc)
-- 
2.43.0


From da95a2cbd698c433d5c23f9ced84da570c4eab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 17/65] fix: polygons that only touch the wrapping meridian
 wrap without errors

---
 src/ocgis/spatial/wrap.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ocgis/spatial/wrap.py b/src/ocgis/spatial/wrap.py
index cd716ab..4f966b1 100644
--- a/src/ocgis/spatial/wrap.py
+++ b/src/ocgis/spatial/wrap.py
@@ -209,14 +209,9 @@ class GeometryWrapper(AbstractWrapper):
             # If a polygon crosses the 180 axis, then the polygon will need to be split with intersection and
             # recombined.
             elif bounds[0] <= self.wrap_axis < bounds[2]:
-                left = [poly for poly in iter_exploded_geometries(geom.intersection(self.left_clip))]
-                right = [poly for poly in iter_exploded_geometries(_shift_(geom.intersection(self.right_clip)))]
-                try:
-                    new_geom = MultiPolygon(left + right)
-                except TypeError:
-                    left = [x for x in left if type(x) != LineString]
-                    right = [x for x in right if type(x) != LineString]
-                    new_geom = MultiPolygon(left + right)
+                left = get_polygons(geom.intersection(self.left_clip))
+                right = [_shift_(poly) for poly in get_polygons(geom.intersection(self.right_clip))]
+                new_geom = MultiPolygon(left + right)
             # Otherwise, the polygon coordinates are not affected by wrapping and the geometry may be passed through.
             else:
                 new_geom = geom
@@ -288,6 +283,17 @@ class GeometryWrapper(AbstractWrapper):
         return Polygon(coords)
 
 
+def get_polygons(geom):
+    """
+    Return the single-part polygons of a geometry. Points and lines where a geometry only touches another are left out.
+
+    :param geom: The target geometry.
+    :type geom: :class:`shapely.geometry.base.BaseGeometry`
+    :rtype: list
+    """
+    return [g for g in iter_exploded_geometries(geom) if isinstance(g, Polygon) and not g.is_empty]
+
+
 def apply_wrapping_index_map(imap, to_remap):
     """
     Using the indices map ``imap`` returned from :meth:`~ocgis.util.spatial.wrap.CoordinateArrayWrapper.wrap` or
-- 
2.43.0


From 5c2680b5a92bfa02c39aabc6130ffe8cd063c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 18/65] fix: summarize every isolated occurrence in duration
 calculations

---
 src/ocgis/calc/library/index/duration.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/ocgis/calc/library/index/duration.py b/src/ocgis/calc/library/index/duration.py
index 0daa662..eba7f81 100644
--- a/src/ocgis/calc/library/index/duration.py
+++ b/src/ocgis/calc/library/index/duration.py
@@ -35,16 +35,7 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
 
         # find longest sequence for each geometry across time dimension
         for ii, fill in enumerate(self._iter_consecutive_(values, threshold, operation)):
-            # case of only a singular occurrence
-            if len(fill) > 1:
-                fill = summary_operation(fill)
-            else:
-                try:
-                    fill = fill[0]
-                # value is likely masked
-                except IndexError:
-                    fill = 0
-            store[ii] = fill
+            store[ii] = summary_operation(fill)
 
         store.resize(shp_out)
 
@@ -70,8 +61,8 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
         # find longest sequence for each geometry across time dimension
         for rowidx, colidx in iter_array(values[0, :, :], use_mask=False):
             vec = arr[:, rowidx, colidx].reshape(-1)
-            # check first if there is a longer series than 1
-            if np.any(np.diff(ref[vec]) == 1):
+            # check first if there are any occurrences
+            if np.any(vec):
                 # find locations where the values switch
                 diff_idx = np.diff(vec)
                 if diff_idx.shape != ref.shape:
@@ -79,9 +70,6 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
                 split_idx = ref[diff_idx] + 1
                 splits = np.array_split(vec, split_idx)
                 fill = [a.sum() for a in splits if np.all(a)]
-            # case of only a singular occurrence
-            elif np.any(vec):
-                fill = [1]
             # case for no occurrence
             else:
                 fill = [0]
-- 
2.43.0


From cc825ca958f180598cd560c4aacd85ca7a59540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 19/65] fix: treat masked values as ending a spell in duration
 calculations

---
 src/ocgis/calc/library/index/duration.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/calc/library/index/duration.py b/src/ocgis/calc/library/index/duration.py
index eba7f81..fe8c70c 100644
--- a/src/ocgis/calc/library/index/duration.py
+++ b/src/ocgis/calc/library/index/duration.py
@@ -39,9 +39,8 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
 
         store.resize(shp_out)
 
-        # update the output mask. this only applies to geometries so pick the
-        # first masked time field
-        store = np.ma.array(store, mask=values.mask[0, :, :])
+        # update the output mask. an element without any valid values is masked
+        store = np.ma.array(store, mask=np.ma.getmaskarray(values).all(axis=0))
 
         return store
 
@@ -57,6 +56,8 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
             arr = values >= threshold
         elif operation == 'lte':
             arr = values <= threshold
+        # masked values do not satisfy the logical operation
+        arr = np.ma.filled(arr, False)
 
         # find longest sequence for each geometry across time dimension
         for rowidx, colidx in iter_array(values[0, :, :], use_mask=False):
@@ -107,8 +108,8 @@ class FrequencyDuration(base.AbstractKeyedOutputFunction, Duration):
             store[ii] = summary
         store.resize(shp_out)
 
-        # Update the output mask. this only applies to geometries so pick the first masked time field
-        store = np.ma.array(store, mask=values.mask[0, :, :])
+        # Update the output mask. An element without any valid values is masked.
+        store = np.ma.array(store, mask=np.ma.getmaskarray(values).all(axis=0))
 
         return store
 
-- 
2.43.0


From 865961ea188990a25618e6ffb46e24732ca6dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 20/65] fix: ignore masked values in moving windows and keep
 their masks

---
 src/ocgis/calc/library/statistics.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index 42629ae..a19f6f5 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -43,9 +43,12 @@ class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
         assert values.ndim == 5
         assert operation in self._potential_operations
 
-        operation = getattr(np, operation)
+        # The masked array operations ignore masked values.
+        operation = getattr(np.ma, operation)
 
         fill = values.copy()
+        idx_start = 0
+        origin = -1
 
         # perform the moving average on the time axis
         axes = [0, 2]
@@ -65,8 +68,8 @@ class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
             # slice the field and fill arrays
             # self.field = self.field[:, idx_start:origin + 1, :, :, :]
             # Mask the invalid regions.
-            fill.mask[:] = True
-            fill.mask[:, idx_start:origin + 1, :, :, :] = False
+            fill.mask[:, :idx_start, :, :, :] = True
+            fill.mask[:, origin + 1:, :, :, :] = True
             # self._finalize_slice = [slice(None), slice(idx_start, origin + 1), slice(None), slice(None), slice(None)]
         elif mode == 'same':
             pass
-- 
2.43.0


From bba32ae2431f24eeb909cfe4b5d2865e5f6d4e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 21/65] fix: keep all results of valid convolutions with a
 single-element kernel

---
 src/ocgis/calc/library/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/calc/library/math.py b/src/ocgis/calc/library/math.py
index 310954e..214b006 100644
--- a/src/ocgis/calc/library/math.py
+++ b/src/ocgis/calc/library/math.py
@@ -99,7 +99,7 @@ class Convolve1D(base.AbstractUnivariateFunction, base.AbstractParameterizedFunc
             # identify where the two arrays completely overlap and collect the indices to subset the field object
             # attached to the calculation object
             overlap_mask = np.ones(mask.shape, dtype=bool)
-            overlap_mask[:, slice(0, 0 - (v.shape[0] - 1)), :, :, :] = False
+            overlap_mask[:, slice(0, max(values.shape[1] - (v.shape[0] - 1), 0)), :, :, :] = False
             fill.mask[:] = np.logical_or(fill.mask, overlap_mask)
             # self.field = self.field[:, slice(0, 0-(v.shape[0]-1)), :, :, :]
         else:
-- 
2.43.0


From 14fc5fc164ccbf529307b0ca3b64661f5ecc0360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 22/65] fix: freeze-thaw transitions are never negative

---
 src/ocgis/calc/library/index/freeze_thaw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/calc/library/index/freeze_thaw.py b/src/ocgis/calc/library/index/freeze_thaw.py
index 6f6f730..67ef480 100644
--- a/src/ocgis/calc/library/index/freeze_thaw.py
+++ b/src/ocgis/calc/library/index/freeze_thaw.py
@@ -107,4 +107,5 @@ def freezethaw1d(x, threshold):
                 cycles.append(s * (w + ci))
 
     # Return the number of transitions from frozen to thawed or vice-versa
-    return float(len(cycles) - 2)  # There are two "artificial" transitions
+    # If the threshold is never reached, there are no transitions.
+    return float(max(len(cycles) - 2, 0))  # There are two "artificial" transitions
-- 
2.43.0


From a2043c5e35c9fd250f386acfa702b65d0d08c0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 23/65] fix: store floating point results of integer data
 without truncation

---
 src/ocgis/calc/base.py                   |  5 +++++
 src/ocgis/calc/library/index/duration.py |  1 +
 src/ocgis/calc/library/math.py           |  2 ++
 src/ocgis/calc/library/statistics.py     | 10 ++++++++++
 4 files changed, 18 insertions(+)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index 5285ce7..ed41345 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -80,6 +80,9 @@ class AbstractFunction(AbstractOcgisObject):
     #: The output data type is NumPy's default float representation. This may be overloaded by subclasses.
     dtype_default = 'float'
 
+    #: If ``True``, results for integer input data are stored as floating point numbers (e.g. a mean).
+    integer_to_float = False
+
     #: The calculation's output units. Modify :meth:`get_output_units` for more complex units calculations. If the units
     #: are left as the default '_input_' then the input variable units are maintained. Otherwise, they will be set to
     #: units attribute value. The string flag is used to allow ``None`` units to be applied.
@@ -202,6 +205,8 @@ class AbstractFunction(AbstractOcgisObject):
         if dtype is None:
             if self.dtype is None:
                 dtype = archetype.dtype
+                if self.integer_to_float and np.issubdtype(dtype, np.integer):
+                    dtype = np.dtype(env.NP_FLOAT)
             else:
                 dtype = self.get_default_dtype()
 
diff --git a/src/ocgis/calc/library/index/duration.py b/src/ocgis/calc/library/index/duration.py
index fe8c70c..ea34fc6 100644
--- a/src/ocgis/calc/library/index/duration.py
+++ b/src/ocgis/calc/library/index/duration.py
@@ -9,6 +9,7 @@ from ocgis.util.helpers import iter_array
 
 class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFunction):
     key = 'duration'
+    integer_to_float = True
     parms_definition = {'threshold': float, 'operation': str, 'summary': str}
     # Output data type will vary by the summary operation (e.g. float for mean, int for max)
 
diff --git a/src/ocgis/calc/library/math.py b/src/ocgis/calc/library/math.py
index 214b006..ede9425 100644
--- a/src/ocgis/calc/library/math.py
+++ b/src/ocgis/calc/library/math.py
@@ -6,6 +6,7 @@ from ocgis.util.helpers import iter_array
 
 class Divide(base.AbstractMultivariateFunction):
     key = 'divide'
+    integer_to_float = True
     description = 'Divide arr1 by arr2.'
     required_variables = ['arr1', 'arr2']
 
@@ -18,6 +19,7 @@ class Divide(base.AbstractMultivariateFunction):
 
 class NaturalLogarithm(base.AbstractUnivariateFunction):
     key = 'ln'
+    integer_to_float = True
     description = 'Compute the natural logarithm.'
 
     standard_name = 'natural_logarithm'
diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index a19f6f5..5f95c28 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -4,6 +4,7 @@ from collections import OrderedDict, defaultdict
 from datetime import datetime
 
 import numpy as np
+from ocgis import env
 from ocgis.calc import base
 from ocgis.calc.base import AbstractUnivariateFunction, AbstractParameterizedFunction
 from ocgis.exc import DefinitionValidationError
@@ -11,6 +12,7 @@ from ocgis.exc import DefinitionValidationError
 
 class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
     key = 'moving_window'
+    integer_to_float = True
     parms_definition = {'k': int, 'mode': str, 'operation': str}
     description = ()
 
@@ -47,6 +49,9 @@ class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
         operation = getattr(np.ma, operation)
 
         fill = values.copy()
+        # Integer types may not hold the results of the operation.
+        if np.issubdtype(fill.dtype, np.integer):
+            fill = fill.astype(env.NP_FLOAT)
         idx_start = 0
         origin = -1
 
@@ -140,6 +145,7 @@ class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
 
 class DailyPercentile(base.AbstractUnivariateFunction, base.AbstractParameterizedFunction):
     key = 'daily_perc'
+    integer_to_float = True
     parms_definition = {'percentile': float, 'window_width': int, 'only_leap_years': bool}
     description = ''
 
@@ -357,6 +363,7 @@ class DailyPercentile(base.AbstractUnivariateFunction, base.AbstractParameterize
 
 class FrequencyPercentile(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFunction):
     key = 'freq_perc'
+    integer_to_float = True
     parms_definition = {'percentile': float}
     description = 'The percentile value along the time axis. See: http://docs.scipy.org/doc/numpy-dev/reference/generated/numpy.percentile.html.'
 
@@ -399,6 +406,7 @@ class Min(base.AbstractUnivariateSetFunction):
 class Mean(base.AbstractUnivariateSetFunction):
     description = 'Compute mean value of the set.'
     key = 'mean'
+    integer_to_float = True
     standard_name = 'mean'
     long_name = 'Mean'
 
@@ -409,6 +417,7 @@ class Mean(base.AbstractUnivariateSetFunction):
 class Median(base.AbstractUnivariateSetFunction):
     description = 'Compute median value of the set.'
     key = 'median'
+    integer_to_float = True
 
     standard_name = 'median'
     long_name = 'median'
@@ -420,6 +429,7 @@ class Median(base.AbstractUnivariateSetFunction):
 class StandardDeviation(base.AbstractUnivariateSetFunction):
     description = 'Compute standard deviation of the set.'
     key = 'std'
+    integer_to_float = True
 
     standard_name = 'standard_deviation'
     long_name = 'Standard Deviation'
-- 
2.43.0


From 72e0bc5dc8600f2c326c9fd16952a55059d8a12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 24/65] fix: do not use masked values or masks of other slices
 in convolutions

---
 src/ocgis/calc/library/math.py | 48 +++++++++++-----------------------
 1 file changed, 15 insertions(+), 33 deletions(-)

diff --git a/src/ocgis/calc/library/math.py b/src/ocgis/calc/library/math.py
index ede9425..5e7b58a 100644
--- a/src/ocgis/calc/library/math.py
+++ b/src/ocgis/calc/library/math.py
@@ -1,7 +1,8 @@
+import itertools
+
 import numpy as np
 
 from ocgis.calc import base
-from ocgis.util.helpers import iter_array
 
 
 class Divide(base.AbstractMultivariateFunction):
@@ -74,38 +75,19 @@ class Convolve1D(base.AbstractUnivariateFunction, base.AbstractParameterizedFunc
         # just to be safe, convert the second array to the same input data types as the values
         v = v.astype(values.dtype)
 
-        # valid will have less values than the input as this checks if the two convolved arrays completely overlap
-        shape_fill = list(values.shape)
-        # if mode == 'valid':
-        #     shape_fill[1] = max(values.shape[1], v.shape[0]) - min(values.shape[1], v.shape[0]) + 1
-        fill = np.zeros(shape_fill, dtype=self.dtype)
-
-        # perform the convolution on the time axis
-        itr = iter_array(values)
-        for ie, it, il, ir, ic in itr:
-            a = values[ie, :, il, ir, ic]
-            res_convolve = np.convolve(a, v, mode=mode)
-            if mode == 'valid':
-                time_slice = slice(0, max(values.shape[1], v.shape[0]) - min(values.shape[1], v.shape[0]) + 1)
-                # fill[ie, :, il, ir, ic] = res_convolve
-            else:
-                time_slice = slice(None)
-            fill[ie, time_slice, il, ir, ic] = res_convolve
-
+        # 'valid' has fewer values than the input as this mode requires the two convolved arrays to completely overlap. The
+        # remaining elements at the end of the time axis are masked.
+        size = values.shape[1]
         if mode == 'valid':
-            # generate the mask for the output data and convert the output to a masked array
-            mask = np.empty(fill.shape, dtype=bool)
-            mask[...] = values.mask[0, 0, 0, :, :]
-            fill = np.ma.array(fill, mask=mask)
-
-            # identify where the two arrays completely overlap and collect the indices to subset the field object
-            # attached to the calculation object
-            overlap_mask = np.ones(mask.shape, dtype=bool)
-            overlap_mask[:, slice(0, max(values.shape[1] - (v.shape[0] - 1), 0)), :, :, :] = False
-            fill.mask[:] = np.logical_or(fill.mask, overlap_mask)
-            # self.field = self.field[:, slice(0, 0-(v.shape[0]-1)), :, :, :]
-        else:
-            # same does not modify the output array size
-            fill = np.ma.array(fill, mask=values.mask)
+            size = max(size - (v.shape[0] - 1), 0)
+
+        fill = np.ma.array(np.zeros(values.shape, dtype=self.dtype), mask=np.ones(values.shape, dtype=bool))
+
+        # perform the convolution on the time axis. masked values mask each element they contribute to.
+        if size > 0:
+            for ie, il, ir, ic in itertools.product(*[range(values.shape[axis]) for axis in (0, 2, 3, 4)]):
+                a = values[ie, :, il, ir, ic]
+                if not np.ma.getmaskarray(a).all():
+                    fill[ie, :size, il, ir, ic] = np.ma.convolve(a, v, mode=mode)
 
         return fill
-- 
2.43.0


From 1a8c65e1066b34c902a38c192963dfde26555af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 25/65] fix: heat index does not change the masks of its source
 variables

---
 src/ocgis/calc/library/index/heat_index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/calc/library/index/heat_index.py b/src/ocgis/calc/library/index/heat_index.py
index ea273ca..643baf2 100644
--- a/src/ocgis/calc/library/index/heat_index.py
+++ b/src/ocgis/calc/library/index/heat_index.py
@@ -23,6 +23,9 @@ class HeatIndex(base.AbstractMultivariateFunction):
         c8 = 8.5282e-4
         c9 = -1.99e-6
 
+        # Do not change the masks of the source variables.
+        tas, rhs = tas.copy(), rhs.copy()
+
         idx = tas < 80
         tas.mask = np.logical_or(idx, tas.mask)
         idx = rhs < 40
-- 
2.43.0


From aed4ed1b6c403a0bb36a71a56133477ea8f3950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 26/65] fix: substitute variable names in expressions as whole
 words

---
 src/ocgis/calc/eval_function.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/src/ocgis/calc/eval_function.py b/src/ocgis/calc/eval_function.py
index ecc3b7a..ea0561e 100644
--- a/src/ocgis/calc/eval_function.py
+++ b/src/ocgis/calc/eval_function.py
@@ -120,10 +120,6 @@ class EvalFunction(AbstractUnivariateFunction):
         :raises ValueError:
         """
 
-        # standard arithmetic mathematical operators
-        math_set = '[(\-+*/)]'
-        # regular expressions use to find the variable aliases
-        re_expr_base = ['{1}{0}{1}', '^{0}{1}', '{1}{0}$', '^{0}$', '{1}{0},']
         # attempt to split the expression at the equals sign.
         try:
             out_variable_name, expr = expr.split('=')
@@ -140,25 +136,16 @@ class EvalFunction(AbstractUnivariateFunction):
                 raise ValueError('Unable to parse expression string: "{0}". '
                                  'Ensure the NumPy functions are enabled and appropriate '
                                  'variables have been requested. The problem string value is "{1}".'.format(expr, s))
-        # update the names of the numpy functions to use the module prefix "np"
-        for np_func in constants.ENABLED_NUMPY_UFUNCS:
-            expr = expr.replace(np_func, 'np.' + np_func)
-        # update the variable aliases to match the key-value relationship in "map_vars"
-        max_ctr = len(expr)
-        for k, v in map_vars.items():
-            for r in re_expr_base:
-                re_expr = r.format(k, math_set)
-                ctr = 0
-                while True:
-                    def repl(mo):
-                        return mo.group(0).replace(k, v)
-
-                    expr = re.sub(re_expr, repl, expr)
-                    if re.search(re_expr, expr) is None:
-                        break
-                    ctr += 1
-                    if ctr > max_ctr:
-                        break
+        # update the names of the numpy functions to use the module prefix "np" and the variable aliases to match the
+        # key-value relationship in "map_vars"
+        def repl(mo):
+            name = mo.group(0)
+            if name in constants.ENABLED_NUMPY_UFUNCS:
+                name = 'np.' + name
+            return map_vars.get(name, name)
+
+        expr = re.sub("[A-Za-z0-9_]+", repl, expr).strip()
+        out_variable_name = out_variable_name.strip()
         return expr, out_variable_name
 
     def _set_derived_variable_alias_(self, *args, **kwargs):
-- 
2.43.0


From 66d79077eab0c2229f581c07e88bedf94c4e96b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 27/65] fix: evaluate expressions with the variables they use
 only

---
 src/ocgis/calc/eval_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/calc/eval_function.py b/src/ocgis/calc/eval_function.py
index ea0561e..c703daa 100644
--- a/src/ocgis/calc/eval_function.py
+++ b/src/ocgis/calc/eval_function.py
@@ -50,8 +50,8 @@ class EvalFunction(AbstractUnivariateFunction):
         # update the output alias and key used to create the variable collection later
         self.alias, self.key = out_variable_name, out_variable_name
 
-        # Construct conformed array iterator.
-        keys = list(map_vars.keys())
+        # Construct conformed array iterator. Only the variables used by the expression are needed.
+        keys = [k for k in map_vars.keys() if re.search(r'\b{}\b'.format(re.escape(map_vars[k])), expr)]
         crosswalks = [self._get_dimension_crosswalk_(calculation_targets[k]) for k in keys]
         variable_shapes = [calculation_targets[k].shape for k in keys]
         arrs = [self.get_variable_value(calculation_targets[k]) for k in keys]
-- 
2.43.0


From f6028ebf4dd9106510de2f1fc0490aa5fc891b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:06 +0000
Subject: [PATCH 28/65] fix: expression results take the data type of the
 calculation

---
 src/ocgis/calc/eval_function.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/calc/eval_function.py b/src/ocgis/calc/eval_function.py
index c703daa..45984cf 100644
--- a/src/ocgis/calc/eval_function.py
+++ b/src/ocgis/calc/eval_function.py
@@ -56,8 +56,13 @@ class EvalFunction(AbstractUnivariateFunction):
         variable_shapes = [calculation_targets[k].shape for k in keys]
         arrs = [self.get_variable_value(calculation_targets[k]) for k in keys]
         archetype = calculation_targets[keys[0]]
-        fill = self.get_fill_variable(archetype, self.alias, archetype.dimensions, self.file_only,
-                                      dtype=archetype.dtype)
+        if self.file_only:
+            dtype = archetype.dtype
+        else:
+            # The data type is determined by the calculation. A single element is enough to find it.
+            single = {map_vars[k]: np.ma.ones(1, dtype=calculation_targets[k].dtype) for k in keys}
+            dtype = np.ma.getdata(eval(expr, globals(), single)).dtype
+        fill = self.get_fill_variable(archetype, self.alias, archetype.dimensions, self.file_only, dtype=dtype)
         fill.units = None
 
         if not self.file_only:
-- 
2.43.0


From f1bb5f5076dec83e3610bb1d87c391649c794fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 29/65] fix: keep the masks of expression results

---
 src/ocgis/calc/eval_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/calc/eval_function.py b/src/ocgis/calc/eval_function.py
index 45984cf..d6b04b0 100644
--- a/src/ocgis/calc/eval_function.py
+++ b/src/ocgis/calc/eval_function.py
@@ -79,6 +79,9 @@ class EvalFunction(AbstractUnivariateFunction):
                 carr_fill.data[:] = res.data
                 carr_fill.mask[:] = res.mask
 
+            # Setting the values ensures the mask is updated on the output variable.
+            fill.set_value(arr_fill)
+
         self._add_to_collection_({'fill': fill})
 
     @staticmethod
-- 
2.43.0


From dcb6d5ad8c3900bef8ec5de405f69b590aff5094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 30/65] fix: padded strings read from file can be written again

---
 src/ocgis/driver/nc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 54fc158..733552a 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -159,7 +159,9 @@ class DriverNetcdf(AbstractDriver):
                                 msg = "Variable name is '{}'. Original message: ".format(var.name) + str(e)
                                 raise e.__class__(msg)
                             for sidx, sval in enumerate(curr_value):
-                                ncvar[idx, sidx] = sval
+                                # Masked characters (i.e. padding read from file) are left to the fill value.
+                                if sval is not np.ma.masked:
+                                    ncvar[idx, sidx] = sval
                     elif var.ndim == 0:
                         ncvar[:] = data_value
                     else:
-- 
2.43.0


From f91bec6db0775677d37a8780a6b516056f50e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 31/65] fix: rows of CSV files are read by source index

---
 src/ocgis/driver/csv_.py | 43 ++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/ocgis/driver/csv_.py b/src/ocgis/driver/csv_.py
index 4a8534b..632bf45 100644
--- a/src/ocgis/driver/csv_.py
+++ b/src/ocgis/driver/csv_.py
@@ -1,11 +1,13 @@
 import csv
 from collections import OrderedDict
 
+import numpy as np
 import six
 from ocgis import vm
 from ocgis.base import raise_if_empty
-from ocgis.constants import MPIWriteMode, KeywordArgument, DriverKey
+from ocgis.constants import MPIWriteMode, KeywordArgument, DriverKey, SourceIndexType
 from ocgis.driver.base import driver_scope, AbstractTabularDriver
+from ocgis.variable.base import SourcedVariable
 
 
 class DriverCSV(AbstractTabularDriver):
@@ -18,25 +20,36 @@ class DriverCSV(AbstractTabularDriver):
     common_extension = 'csv'
 
     def get_variable_value(self, variable):
-        # For CSV files, it makes sense to load all variables from source simultaneously.
-        if variable.parent is None:
-            to_load = [variable]
+        # For CSV files, it makes sense to load all variables from source simultaneously. Do not touch variables with
+        # values and variables that do not come from the file.
+        to_load = [variable]
+        if variable.parent is not None:
+            to_load += [v for v in variable.parent.values()
+                        if isinstance(v, SourcedVariable) and v._request_dataset is variable._request_dataset and
+                        v is not variable and not v.has_allocated_value]
+
+        # Rows to load. The same row may be used more than once.
+        dimension = variable.dimensions[0]
+        if dimension._src_idx_type is None:
+            src_idx = np.arange(*dimension.bounds_local)
+        elif dimension._src_idx_type == SourceIndexType.BOUNDS:
+            src_idx = np.arange(*dimension._src_idx)
         else:
-            to_load = list(variable.parent.values())
+            src_idx = np.asarray(dimension._src_idx)
 
         with driver_scope(self) as f:
             reader = csv.DictReader(f)
-            bounds_local = variable.dimensions[0].bounds_local
+            to_load = [v for v in to_load if v.source_name in reader.fieldnames]
+            for v in to_load:
+                if not v.has_allocated_value:
+                    v.allocate_value()
+            last = src_idx.max() if len(src_idx) > 0 else -1
             for idx, row in enumerate(reader):
-                if idx < bounds_local[0]:
-                    continue
-                else:
-                    if idx >= bounds_local[1]:
-                        break
-                for tl in to_load:
-                    if not tl.has_allocated_value:
-                        tl.allocate_value()
-                    tl.get_value()[idx - bounds_local[0]] = row[tl.name]
+                if idx > last:
+                    break
+                for dst in np.flatnonzero(src_idx == idx):
+                    for v in to_load:
+                        v.get_value()[dst] = row[v.source_name]
         return variable.get_value()
 
     def _get_metadata_main_(self):
-- 
2.43.0


From 320672ee987e7754c62101cb4ea55c4c8635c412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 32/65] fix: tiled computations apply subsets and reordering to
 cached fields

---
 src/ocgis/ops/engine.py       | 38 ++++++++++++++++++++++++-----------
 src/ocgis/util/large_array.py |  7 +++++--
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index e008936..138a061 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -238,18 +238,7 @@ class OperationsEngine(AbstractOcgisObject):
                     if field.is_empty:
                         raise ValueError('No empty fields allowed.')
 
-                    # Time, level, etc. subsets.
-                    field = self._get_nonspatial_subset_(field)
-
-                    # Spatially reorder the data.
-                    ocgis_lh(msg='before spatial reorder', logger=self._subset_log, level=logging.DEBUG)
-                    if self.ops.spatial_reorder:
-                        self._update_spatial_order_(field)
-
-                    # Extrapolate the spatial bounds if requested.
-                    # TODO: Rename "interpolate" to "extrapolate".
-                    if self.ops.interpolate_spatial_bounds:
-                        self._update_bounds_extrapolation_(field)
+                    field = self._get_prepared_field_(field)
 
         # This error is related to subsetting by time or level. Spatial subsetting occurs below.
         except EmptySubsetError as e:
@@ -384,6 +373,31 @@ class OperationsEngine(AbstractOcgisObject):
 
             yield coll
 
+    def _get_prepared_field_(self, field):
+        """
+        Apply the operations that come before slicing and spatial subsetting to a field.
+
+        :param field:
+        :type field: :class:`~ocgis.Field`
+        :rtype: :class:`~ocgis.Field`
+        :raises: EmptySubsetError
+        """
+
+        # Time, level, etc. subsets.
+        field = self._get_nonspatial_subset_(field)
+
+        # Spatially reorder the data.
+        ocgis_lh(msg='before spatial reorder', logger=self._subset_log, level=logging.DEBUG)
+        if self.ops.spatial_reorder:
+            self._update_spatial_order_(field)
+
+        # Extrapolate the spatial bounds if requested.
+        # TODO: Rename "interpolate" to "extrapolate".
+        if self.ops.interpolate_spatial_bounds:
+            self._update_bounds_extrapolation_(field)
+
+        return field
+
     def _get_nonspatial_subset_(self, field):
         """
         
diff --git a/src/ocgis/util/large_array.py b/src/ocgis/util/large_array.py
index db2d24c..4c24edb 100644
--- a/src/ocgis/util/large_array.py
+++ b/src/ocgis/util/large_array.py
@@ -9,6 +9,7 @@ from ocgis.calc.base import AbstractMultivariateFunction
 from ocgis.calc.engine import CalculationEngine
 from ocgis.constants import TagName
 from ocgis.ops.core import OcgOperations
+from ocgis.ops.engine import OperationsEngine
 from ocgis.util.helpers import ProgressBar
 
 
@@ -121,12 +122,14 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
         shp = template_field.grid.shape
 
         if use_optimizations:
+            # Optimized fields are used as they are by the operations. Subsets, reordering, etc. must be applied here.
+            engine = OperationsEngine(ops)
             # if there is a calculation grouping, optimize for it. otherwise, pass
             # this value as None.
             try:
                 # tgd_field = ops.dataset.first().get()
                 archetype_dataset = list(ops.dataset)[0]
-                tgd_field = archetype_dataset.get()
+                tgd_field = engine._get_prepared_field_(archetype_dataset.get())
                 template_tgd = tgd_field.temporal.get_grouping(deepcopy(ops.calc_grouping))
                 if not has_multivariate:
                     key = archetype_dataset.field_name
@@ -139,7 +142,7 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
             # load the fields and pass those for optimization
             field_optimizations = {}
             for rd in ops.dataset:
-                gotten_field = rd.get(format_time=ops.format_time)
+                gotten_field = engine._get_prepared_field_(rd.get(format_time=ops.format_time))
                 field_optimizations.update({rd.field_name: gotten_field})
             optimizations = optimizations or {}
             optimizations['fields'] = field_optimizations
-- 
2.43.0


From ad5ff4961af605d5dfaba3456a9718c352553ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 33/65] fix: reordering moves the masks of data that was not
 read yet

---
 src/ocgis/spatial/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 37ecbd2..0091b2c 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -790,7 +790,8 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
             arr_dimension_names = get_dimension_names(var.dimensions)
             if reorder_dimension not in arr_dimension_names:
                 continue
-            mask = var.get_mask().copy() if var.has_masked_values else None
+            mask = var.get_mask()
+            mask = None if mask is None else mask.copy()
             if varying_dimension in arr_dimension_names:
                 reorder_array(shift_indices, var.get_value(), arr_dimension_names, reorder_dimension, varying_dimension)
                 if mask is not None:
-- 
2.43.0


From 7264d568906f38017297b716584e5344502a03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 34/65] fix: spatial averages of fully masked, integer and
 transposed data

---
 src/ocgis/util/helpers.py  |  2 +-
 src/ocgis/variable/geom.py | 52 ++++++++++++++++++++++----------------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 47171c4..ee601f2 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -718,7 +718,7 @@ def get_swap_chain(actual, desired):
     assert set(actual) == set(desired)
     swap_ops = []
 
-    running_archetype = deepcopy(actual)
+    running_archetype = list(actual)
     for swap_src in range(len(actual)):
         if running_archetype[swap_src] != desired[swap_src]:
             swap_dst = running_archetype.index(desired[swap_src])
diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index ab6972b..3cb75b7 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -970,26 +970,31 @@ class GeometryVariable(AbstractSpatialVariable):
                 # Reference the weights on the source geometry variable.
                 weights = self[{nsa: slice(None) for nsa in names_to_slice_all}].weights
 
-                # Path if there are iteration dimensions. Checks for axes ordering in addition.
+                # Swap weight axes to make sure they align with the target variable.
+                weight_names = [dn for dn in self.dimension_names if dn in names_to_slice_all]
+                swap_chain = get_swap_chain(weight_names, names_to_slice_all)
+                if len(swap_chain) > 0:
+                    weights = weights.copy()
+                for sc in swap_chain:
+                    weights = weights.swapaxes(*sc)
+
+                # New dimensions for the spatially averaged variable. Unioned dimension is always last. Remove the
+                # dimensions aggregated by the weighted average.
+                new_dimensions = [dim for dim in var_to_weight.dimensions if dim.name not in dimension_names]
+                new_dimensions.append(union_dimension)
+
+                # Prepare the spatially averaged variable. Averages of integers are floating point values.
+                target = ret.parent[var_to_weight.name]
+                target.set_mask(None)
+                target._value = None
+                if np.issubdtype(var_to_weight.dtype, np.integer):
+                    target.dtype = env.NP_FLOAT
+
+                # Path if there are iteration dimensions.
                 if len(range_to_itr) > 0:
-                    # New dimensions for the spatially averaged variable. Unioned dimension is always last. Remove the
-                    # dimensions aggregated by the weighted average.
-                    new_dimensions = [dim for dim in var_to_weight.dimensions if dim.name not in dimension_names]
-                    new_dimensions.append(union_dimension)
-
-                    # Prepare the spatially averaged variable.
-                    target = ret.parent[var_to_weight.name]
-                    target.set_mask(None)
-                    target._value = None
                     target.set_dimensions(new_dimensions)
                     target.allocate_value()
-
-                    # Swap weight axes to make sure they align with the target variable.
-                    swap_chain = get_swap_chain(dimension_names, names_to_slice_all)
-                    if len(swap_chain) > 0:
-                        weights = weights.copy()
-                    for sc in swap_chain:
-                        weights = weights.swapaxes(*sc)
+                    target_mask = np.zeros(target.shape, dtype=bool)
 
                     # The main weighting loop. Can get quite intensive with many, large iteration dimensions.
                     len_names_to_itr = len(names_to_itr)
@@ -1006,8 +1011,14 @@ class GeometryVariable(AbstractSpatialVariable):
                         data_to_weight = var_to_weight[w_slc].get_masked_value()
                         if should_squeeze:
                             data_to_weight = np_squeeze(data_to_weight, axis=tuple(squeeze_out))
-                        weighted_value = np_atleast_1d(np_ma_average(data_to_weight, weights=weights))
-                        target[w_slc].get_value()[:] = weighted_value
+                        weighted_value = np_ma_average(data_to_weight, weights=weights)
+                        # Nothing to average if all values are masked.
+                        if weighted_value is np.ma.masked:
+                            target_mask[nonweighted_indices] = True
+                        else:
+                            target[w_slc].get_value()[:] = np_atleast_1d(weighted_value)
+                    if target_mask.any():
+                        target.set_mask(target_mask)
                 else:
                     target_to_weight = var_to_weight.get_masked_value()
                     # Sort to minimize floating point sum errors.
@@ -1018,9 +1029,6 @@ class GeometryVariable(AbstractSpatialVariable):
                     weights = weights[sindices]
 
                     weighted_value = np.atleast_1d(np.ma.average(target_to_weight, weights=weights))
-                    target = ret.parent[var_to_weight.name]
-                    target.set_mask(None)
-                    target._value = None
                     target.set_dimensions(new_dimensions)
                     target.set_value(weighted_value)
 
-- 
2.43.0


From a8fd7bcaa7fe49d17f735081d9d04e7ebed0bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 35/65] fix: operations with raw calculations, several
 expressions or allowed empties

---
 src/ocgis/calc/base.py   | 27 ++++++++++++++-------------
 src/ocgis/calc/engine.py |  4 ++--
 src/ocgis/ops/engine.py  |  2 +-
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index ed41345..edc81e4 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -117,7 +117,9 @@ class AbstractFunction(AbstractOcgisObject):
 
     def aggregate_spatial(self, values, weights):
         """
-        Optional method overload for spatial aggregation.
+        Optional method overload for spatial aggregation. By default, values are not modified and are left to the
+        area-weighted spatial average applied after the calculation.
+
         :param values: The input array with dimensions `(m, n)`.
         :type values: :class:`numpy.ma.core.MaskedArray`
         :param weights: The input weights array with dimension matching ``value``.
@@ -125,8 +127,7 @@ class AbstractFunction(AbstractOcgisObject):
         :rtype: :class:`numpy.ma.core.MaskedArray`
         """
 
-        ret = np.ma.average(np.squeeze(values), weights=weights)
-        return ret
+        return values
 
     def aggregate_temporal(self, values, **kwargs):
         """
@@ -502,17 +503,17 @@ class AbstractFunction(AbstractOcgisObject):
                     assert calculation_value.ndim == 3
                     res = f(calculation_value, **parms)
                     if self.spatial_aggregation:
-                        # Weights are not currently conformed so should not be used.
-                        res = self.aggregate_spatial(res, None)
-                        carr_fill.data[ir, it, il, :, :] = res
+                        # Weights are not currently conformed so should not be used. Scalars (maybe masked) are
+                        # acceptable.
+                        res = np.ma.array(self.aggregate_spatial(res, None))
+
+                    try:
+                        carr_fill.data[ir, it, il, :, :] = res.data
+                    except ValueError:
+                        if not hasattr(res, 'mask'):
+                            raise ValueError('Array return from calculation is not a masked array.')
                     else:
-                        try:
-                            carr_fill.data[ir, it, il, :, :] = res.data
-                        except ValueError:
-                            if not hasattr(res, 'mask'):
-                                raise ValueError('Array return from calculation is not a masked array.')
-                        else:
-                            carr_fill.mask[ir, it, il, :, :] = res.mask
+                        carr_fill.mask[ir, it, il, :, :] = res.mask
 
                     if self.calc_sample_size:
                         ss = self.get_sample_size(calculation_value)
diff --git a/src/ocgis/calc/engine.py b/src/ocgis/calc/engine.py
index 29ee0c7..bd73adb 100644
--- a/src/ocgis/calc/engine.py
+++ b/src/ocgis/calc/engine.py
@@ -104,8 +104,8 @@ class CalculationEngine(object):
                             new_temporal = function.tgd.extract()
                     except KeyError:
                         # Likely an eval function which does not have the name key.
-                        function = EvalFunction(field=field, file_only=file_only, vc=out_vc, expr=self.funcs[0]['func'],
-                                                meta_attrs=self.funcs[0].get('meta_attrs'))
+                        function = EvalFunction(field=field, file_only=file_only, vc=out_vc, expr=f['func'],
+                                                meta_attrs=f.get('meta_attrs'))
 
                     ocgis_lh('calculation initialized', logger='calc.engine', level=logging.DEBUG)
 
diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index 138a061..fa3c773 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -342,7 +342,7 @@ class OperationsEngine(AbstractOcgisObject):
                 vm.create_subcomm_by_emptyable(SubcommName.FIELD_SUBSET, sfield, is_current=True, clobber=True)
 
                 if not vm.is_null:
-                    if not sfield.is_empty and not self.ops.allow_empty:
+                    if not sfield.is_empty:
                         raise_if_empty(sfield)
 
                         # If the base size is being requested, bypass the rest of the operations.
-- 
2.43.0


From 6f6664944db010ad293ddcb0156f09820a62b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 36/65] fix: wrapping with several selection geometries and
 calculations with allowed empties

---
 src/ocgis/calc/engine.py      |  6 ++++++
 src/ocgis/collection/field.py | 13 +++++++++----
 src/ocgis/ops/engine.py       | 10 +++++++---
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/calc/engine.py b/src/ocgis/calc/engine.py
index bd73adb..fa83a18 100644
--- a/src/ocgis/calc/engine.py
+++ b/src/ocgis/calc/engine.py
@@ -65,6 +65,8 @@ class CalculationEngine(object):
         if self.grouping is not None:
             ocgis_lh('Setting temporal groups: {0}'.format(self.grouping), 'calc.engine')
             for field in coll.iter_fields():
+                if field.is_empty:
+                    continue
                 if tgds_overloaded:
                     assert field.name in tgds_to_use
                 else:
@@ -74,6 +76,10 @@ class CalculationEngine(object):
         # Iterate over functions.
         for ugid, container in list(coll.children.items()):
             for field_name, field in list(container.children.items()):
+                # Empty selections may be allowed. There is nothing to calculate for those.
+                if field.is_empty:
+                    continue
+
                 new_temporal = tgds_to_use.get(field_name)
                 if new_temporal is not None:
                     new_temporal = new_temporal.copy()
diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index 92a3ee3..9029e9d 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -1000,7 +1000,7 @@ class Field(VariableCollection):
             ret = decode_cf(ret)
         return ret
 
-    def unwrap(self):
+    def unwrap(self, inplace=True):
         """
         Unwrap the field's coordinates contained in its grid and/or geometry.
         
@@ -1009,7 +1009,7 @@ class Field(VariableCollection):
 
         raise_if_empty(self)
 
-        wrap_or_unwrap(self, WrapAction.UNWRAP)
+        wrap_or_unwrap(self, WrapAction.UNWRAP, inplace=inplace)
 
     def update_crs(self, to_crs, from_crs=None):
         """
@@ -1152,8 +1152,13 @@ def wrap_or_unwrap(field, action, inplace=True):
 
     if field.grid is not None:
         if not inplace:
-            x = field.grid.x
-            x.set_value(x.get_value().copy())
+            targets = [field.grid.x]
+            if field.grid.has_allocated_point:
+                targets.append(field.grid.get_point())
+            if field.grid.has_allocated_polygon:
+                targets.append(field.grid.get_polygon())
+            for target in targets:
+                target.set_value(target.get_value().copy())
         if action == WrapAction.WRAP:
             field.grid.wrap()
         else:
diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index fa3c773..f333066 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -126,7 +126,8 @@ class OperationsEngine(AbstractOcgisObject):
                 # If there are calculations, do those now and return a collection.
                 if not vm.is_null and self.cengine is not None:
                     ocgis_lh('Starting calculations.', self._subset_log)
-                    raise_if_empty(coll)
+                    if not self.ops.allow_empty:
+                        raise_if_empty(coll)
 
                     # Look for any temporal grouping optimizations.
                     if self.ops.optimizations is None:
@@ -142,6 +143,8 @@ class OperationsEngine(AbstractOcgisObject):
                     if self.ops.aggregate and self.ops.calc_raw:
                         coll_to_itr = coll.copy()
                         for sfield, container in coll_to_itr.iter_fields(yield_container=True):
+                            if sfield.is_empty:
+                                continue
                             sfield = _update_aggregation_wrapping_crs_(self, None, sfield, container, None)
                             coll.add_field(sfield, container, force=True)
                 else:
@@ -703,10 +706,11 @@ def _update_wrapping_(obj, field_object):
         if field_object.crs is not None and field_object.crs.is_geographic:
             as_enum = obj.ops._get_object_('spatial_wrapping').as_enum
             if field_object.wrapped_state != as_enum:
+                # The coordinates may be shared with a field needed for additional subsets.
                 if as_enum == WrapAction.WRAP:
-                    field_object.wrap()
+                    field_object.wrap(inplace=False)
                 else:
-                    field_object.unwrap()
+                    field_object.unwrap(inplace=False)
 
 
 def get_data_model(ops):
-- 
2.43.0


From d7b4ae31b2af0bf3cae7c3f3d7253b4bbeda4c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:23 +0000
Subject: [PATCH 37/65] fix: seasons without members, incomplete seasons,
 seasons ending in December and steps over the turn of the year

---
 src/ocgis/util/helpers.py      |  7 ++++---
 src/ocgis/variable/temporal.py | 29 ++++++++++++++---------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index ee601f2..210df3e 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -513,9 +513,10 @@ def get_is_date_between(lower, upper, month=None, year=None):
     part_lower, part_upper = getattr(lower, attr), getattr(upper, attr)
     if part_lower != part_upper:
         if part_lower > part_upper:
-            # in the case of a year overlap, increment the upper into another year by adding 12 months
-            part_upper += 12
-        ret = np.logical_and(to_test >= part_lower, to_test < part_upper)
+            # in the case of a year overlap, the months wrap around the end of the year
+            ret = np.logical_or(to_test >= part_lower, to_test < part_upper)
+        else:
+            ret = np.logical_and(to_test >= part_lower, to_test < part_upper)
     else:
         ret = np.logical_and(to_test >= part_lower, to_test <= part_upper)
 
diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 24471f6..722eb40 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -565,8 +565,10 @@ class TemporalVariable(SourcedVariable):
                     else:
                         if parts[idx, 1] in season:
                             subgroup[idx] = True
-                dgroups.append(subgroup)
-                grouping_season.append([season, year])
+                # There may be no time steps for the season (and year).
+                if subgroup.any():
+                    dgroups.append(subgroup)
+                    grouping_season.append([season, year])
             dtype = [('months', object), ('year', int)]
             grouping = grouping_season
 
@@ -642,17 +644,14 @@ class TemporalVariable(SourcedVariable):
                 raise NotImplementedError('grouping: {0}'.format(grouping))
         # Likely a seasonal aggregation.
         except TypeError:
-            # Set for testing if seasonal group crosses the end of a year.
-            cross_months_set = set([12, 1])
             for idx in range(ret.shape[0]):
                 r_bounds = bounds[idx, :]
-                # The season crosses into a new year, find the middles differently.
+                # Use the center month of the season.
                 r_value_months = value[idx]['months']
-                if cross_months_set.issubset(r_value_months):
-                    middle_index = int(np.floor(len(r_value_months) / 2))
-                    center_month = r_value_months[middle_index]
-                else:
-                    center_month = int(np.floor(np.mean([r_bounds[0].month, r_bounds[1].month])))
+                if not get_is_interannual(r_value_months):
+                    r_value_months = sorted(r_value_months)
+                middle_index = int(np.floor(len(r_value_months) / 2))
+                center_month = r_value_months[middle_index]
                 center_year = int(np.floor(np.mean([r_bounds[0].year, r_bounds[1].year])))
                 fill = get_datetime_or_netcdftime(center_year, center_month, constants.CALC_MONTH_CENTROID)
                 ret[idx] = fill
@@ -1025,7 +1024,7 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
         interannual_check = [False]
     if any(interannual_check):
         # loop over years first to ensure each year is accounted for in the time region output
-        for ii_year, year in enumerate(years):
+        for year in years:
             # the interannual flag is used internally for simple optimization
             for ic, cg in zip(interannual_check, seasons):
                 # if no exception is raised for an incomplete season, this flag indicate whether to append to the output
@@ -1043,12 +1042,12 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
                     # will hold the sub-element time regions
                     sub_time_region = []
                     for ii_split, s in enumerate(split):
-                        try:
-                            to_append_sub = {'year': [years[ii_year + ii_split]], 'month': s.tolist()}
+                        if year + ii_split in years:
+                            to_append_sub = {'year': [year + ii_split], 'month': s.tolist()}
                             sub_time_region.append(to_append_sub)
                         # there may not be another year of data for an interannual season. we DO NOT keep incomplete
                         # seasons.
-                        except IndexError:
+                        else:
                             # don't just blow through an incomplete season unless asked to
                             if raise_if_incomplete:
                                 raise IncompleteSeasonError(None, None, None)
@@ -1073,7 +1072,7 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
                 td.get_time_region(sub_time_region)
         except EmptySubsetError:
             remove.append(idx)
-    for xx in remove:
+    for xx in reversed(remove):
         time_regions.pop(xx)
 
     return time_regions
-- 
2.43.0


From 569265b8db4d9938e89f7e26a31dd56658cdbebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 38/65] fix: dates of month units before the origin, out of
 order or with bounds

---
 src/ocgis/variable/temporal.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 722eb40..82d5afb 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -798,25 +798,12 @@ def get_datetime_from_months_time_units(vec, units, month_centroid=16):
     # only work with integer inputs
     vec = np.array(vec, dtype=int)
 
-    def _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid):
-        return datetime.datetime(current_year, (origin_month + offset_month) - current_month_correction, month_centroid)
-
     origin = get_origin_datetime_from_months_units(units)
-    origin_month = origin.month
-    current_year = origin.year
-    current_month_correction = 0
-    if vec[0] >= 12:
-        current_year += int(vec[0] / 12)
-        vec = vec - (int(vec[0] / 12) * 12)
-    ret = np.ones(len(vec), dtype=object)
-    for ii, offset_month in enumerate(vec):
-        try:
-            fill = _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid)
-        except ValueError:
-            current_month_correction += 12
-            current_year += 1
-            fill = _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid)
-        ret[ii] = fill
+    ret = np.ones(vec.shape, dtype=object)
+    for idx, offset_month in iter_array(vec, return_value=True):
+        # Months since January of the year zero.
+        months = origin.year * 12 + (origin.month - 1) + offset_month
+        ret[idx] = datetime.datetime(months // 12, months % 12 + 1, month_centroid)
     return ret
 
 
@@ -946,8 +933,9 @@ def get_num_from_months_time_units(vec, units, dtype=None):
     """
 
     origin = get_origin_datetime_from_months_units(units)
-    ret = [get_difference_in_months(origin, target) for target in vec]
-    return np.array(ret, dtype=dtype)
+    vec = np.array(vec, dtype=object)
+    ret = [get_difference_in_months(origin, target) for target in vec.flat]
+    return np.array(ret, dtype=dtype).reshape(vec.shape)
 
 
 def get_origin_datetime_from_months_units(units):
-- 
2.43.0


From 3ae7a211e8076d86ac6b5fc67f16e6fcd2f98d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 39/65] fix: distributed slices with open-ended or negative
 indices, scatter and gather with a root other than the first rank

---
 src/ocgis/variable/base.py | 11 +++++++----
 src/ocgis/vmachine/mpi.py  |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index db7c1aa..4c69e2d 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -23,7 +23,7 @@ from ocgis.util.helpers import get_iter, get_formatted_slice, get_bounds_from_1d
 from ocgis.util.helpers import is_auto_dtype
 from ocgis.util.units import get_units_object, get_conformed_units
 from ocgis.variable.attributes import Attributes
-from ocgis.variable.dimension import Dimension
+from ocgis.variable.dimension import Dimension, get_contiguous_slice_bounds
 from ocgis.variable.iterator import Iterator
 from ocgis.vmachine.mpi import create_nd_slices, get_global_to_local_slice
 
@@ -1266,9 +1266,12 @@ class Variable(AbstractContainer, Attributes):
             for idx in range(self.ndim):
                 slc_idx = slc[idx]
                 if isinstance(slc_idx, slice):
-                    if slc_idx != slice(None):
-                        local_slc_args = get_global_to_local_slice([slc_idx.start, slc_idx.stop],
-                                                                   dimensions[idx].bounds_local)
+                    if not dimensions[idx].dist:
+                        local_slc[idx] = slc_idx
+                    elif slc_idx != slice(None):
+                        # Open-ended and negative indices are relative to the global dimension.
+                        start_stop = get_contiguous_slice_bounds(slc_idx, dimensions[idx].size_global)
+                        local_slc_args = get_global_to_local_slice(start_stop, dimensions[idx].bounds_local)
                         local_slc[idx] = slice(*local_slc_args)
                 else:
                     # Allow for fancy slicing.
diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 04c2354..bda555a 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -783,7 +783,7 @@ def variable_gather(variable, root=0):
 
         for idx, dim in enumerate(variable.dimensions):
             if dim.dist:
-                parts = vm.gather(dim)
+                parts = vm.gather(dim, root=root)
             if vm.rank == root:
                 new_dim = dim.copy()
                 if dim.dist:
@@ -813,7 +813,7 @@ def variable_gather(variable, root=0):
         if vm.rank == root:
             new_variable.set_dimensions(new_dimensions, force=True)
 
-        gathered_variables = vm.gather(variable)
+        gathered_variables = vm.gather(variable, root=root)
 
         if vm.rank == root:
             for idx, gv in enumerate(gathered_variables):
@@ -851,7 +851,7 @@ def variable_scatter(variable, dest_dist, root=0, strict=False):
     # processes to more flexibly add undistributed dimensions. Distributed dimensions should be part of the destination
     # distribution already.
     not_in_dist = {}
-    if vm.rank == 0:
+    if vm.rank == root:
         for dest_dimension_name in dimension_names:
             try:
                 _ = dest_dist.get_dimension(dest_dimension_name, group=group)
@@ -860,7 +860,7 @@ def variable_scatter(variable, dest_dist, root=0, strict=False):
                     raise
                 else:
                     not_in_dist[dest_dimension_name] = variable.parent.dimensions[dest_dimension_name]
-    not_in_dist = vm.bcast(not_in_dist)
+    not_in_dist = vm.bcast(not_in_dist, root=root)
 
     # Synchronize the processes with the MPI distribution and the group containing the dimensions.
     dest_dist = vm.bcast(dest_dist, root=root)
-- 
2.43.0


From 2505913c83a31b6f037b2b4d4bbe8d76d2dc2227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 40/65] fix: trimming a 1-D geometry mask without masked
 elements no longer fails on several workers

---
 src/ocgis/variable/geom.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 3cb75b7..970f0cc 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1255,8 +1255,7 @@ def get_masking_slice(intersects_mask_value, target, apply_slice=True):
         if intersects_mask_value.all():
             local_slice = None
         elif not intersects_mask_value.any():
-            shp = intersects_mask_value.shape
-            local_slice = [(0, shp[0]), (0, shp[1])]
+            local_slice = [(0, length) for length in intersects_mask_value.shape]
         else:
             _, local_slice = get_trimmed_array_by_mask(intersects_mask_value, return_adjustments=True)
             local_slice = [(l.start, l.stop) for l in local_slice]
-- 
2.43.0


From f2ec5a7ea3cfd4a1f20b3c4e52964b50e3b6f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 41/65] fix: broadcasting a masked array without a mask no
 longer fails

---
 src/ocgis/util/broadcaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/util/broadcaster.py b/src/ocgis/util/broadcaster.py
index 1335596..7045780 100644
--- a/src/ocgis/util/broadcaster.py
+++ b/src/ocgis/util/broadcaster.py
@@ -21,7 +21,7 @@ def broadcast_array_by_dimension_names(arr, src_names, dst_names):
     swap_chain = get_swap_chain(src_names, matching_dst_names)
     for sc in swap_chain:
         new_mask = None
-        if hasattr(arr, 'mask'):
+        if np.ma.getmask(arr) is not np.ma.nomask:
             new_mask = arr.__dict__['_mask'].swapaxes(*sc)
         arr = arr.swapaxes(*sc)
         if new_mask is not None:
-- 
2.43.0


From 48e1fd49685b6dcf9ca9099033e83cd6812233cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 42/65] fix: iterating a variable with bounds and no bounds
 requested, and repeating records doubled in place

---
 src/ocgis/variable/base.py     | 9 +++------
 src/ocgis/variable/iterator.py | 3 ++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 4c69e2d..7f540b0 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1350,10 +1350,7 @@ class Variable(AbstractContainer, Attributes):
         else:
             followers = None
 
-        if repeaters is None and self.repeat_record is not None:
-            repeaters = self.repeat_record
-        elif repeaters is not None and self.repeat_record is not None:
-            repeaters = repeaters + self.repeat_record
+        # The iterator appends the variable's own repeating record.
         kwargs[KeywordArgument.REPEATERS] = repeaters
 
         kwargs[KeywordArgument.VALUE] = self._get_iter_value_()
@@ -1362,7 +1359,7 @@ class Variable(AbstractContainer, Attributes):
 
         itr = Iterator(self, **kwargs)
 
-        if self.has_bounds:
+        if followers is not None:
             for f in itr.followers:
                 f.formatter = formatter
 
@@ -1650,7 +1647,7 @@ class SourcedVariable(Variable):
             if repeaters is None:
                 ret.repeaters = [did_record]
             else:
-                repeaters.insert(did_record)
+                ret.repeaters = [did_record] + repeaters
 
         return ret
 
diff --git a/src/ocgis/variable/iterator.py b/src/ocgis/variable/iterator.py
index 03039b2..e3450fd 100644
--- a/src/ocgis/variable/iterator.py
+++ b/src/ocgis/variable/iterator.py
@@ -25,7 +25,8 @@ class Iterator(AbstractOcgisObject):
             if repeaters is None:
                 repeaters = variable.repeat_record
             else:
-                repeaters += variable.repeat_record
+                # Do not modify the incoming sequences in place.
+                repeaters = list(repeaters) + list(variable.repeat_record)
         self.repeaters = repeaters
 
         self._is_lead = True
-- 
2.43.0


From 9143b4b1b649739200557091158944395cd40338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 43/65] fix: assigning an unmasked variable unmasks the
 assigned elements

---
 src/ocgis/variable/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 7f540b0..49c042b 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -358,9 +358,10 @@ class Variable(AbstractContainer, Attributes):
         self.get_value()[orthogonal_slc] = variable.get_value()
 
         variable_mask = variable.get_mask()
-        if variable_mask is not None:
-            new_mask = self.get_mask(create=True)
-            new_mask[orthogonal_slc] = variable_mask
+        new_mask = self.get_mask(create=variable_mask is not None)
+        if new_mask is not None:
+            # An unmasked source unmasks the elements it is assigned to.
+            new_mask[orthogonal_slc] = False if variable_mask is None else variable_mask
 
         if self.has_bounds:
             names_src = get_dimension_names(self.dimensions)
@@ -368,7 +369,7 @@ class Variable(AbstractContainer, Attributes):
             slc = get_mapped_slice(slc, names_src, names_dst)
             self.bounds[slc] = variable.bounds
 
-        if variable_mask is not None:
+        if new_mask is not None:
             self.set_mask(new_mask)
 
     @property
-- 
2.43.0


From e6b4ddcad477bf199e851315b49630589fe449d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 44/65] fix: stacking keeps bounds and the type of time
 variables

---
 src/ocgis/variable/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 49c042b..2746d1f 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2633,6 +2633,17 @@ def stack(targets, stack_dim):
             # Set the data using variable set item capabilities.
             new_var[slc] = var
 
+        # Time variables remain time variables.
+        from ocgis.variable.temporal import TemporalVariable
+        if isinstance(arch, TemporalVariable):
+            new_var = TemporalVariable(name=arch.name, value=new_var.get_value(), mask=new_var.get_mask(),
+                                       dtype=arch.dtype, dimensions=new_dimensions, attrs=new_var.attrs,
+                                       fill_value=arch.fill_value, format_time=arch.format_time)
+
+        # Bounds are stacked with their variables.
+        if all([var.has_bounds for var in targets]):
+            new_var.set_bounds(stack([var.bounds for var in targets], stack_dim), force=True)
+
         ret = new_var
 
     return ret
-- 
2.43.0


From f020449ef7519523cc64915788f798a1024af360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 45/65] fix: looking for a topology leaves the dimension map
 unchanged

---
 src/ocgis/driver/dimension_map.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index f64903a..b1c38e8 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -274,7 +274,9 @@ class DimensionMap(AbstractOcgisObject):
 
         if ret is not None:
             ret = self._storage[DMK.TOPOLOGY].get(topology, default)
-            self._storage[DMK.TOPOLOGY][topology] = ret
+            # Only store child dimension maps. Looking for a topology does not change the dimension map.
+            if ret is not None:
+                self._storage[DMK.TOPOLOGY][topology] = ret
 
         # if ret is None:
         #     ret = GridAbstraction.AUTO
-- 
2.43.0


From 8f5da0f53667a2eb4283718c4bb4dfb00256da38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 46/65] fix: dimension maps from dictionaries keep topologies,
 properties and spatial mask attributes

---
 src/ocgis/driver/dimension_map.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index b1c38e8..e6fdf22 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -72,6 +72,10 @@ class DimensionMap(AbstractOcgisObject):
                 has_groups = True
             elif k == DMK.DRIVER:
                 d.set_driver(v)
+            elif k == DMK.TOPOLOGY:
+                d._storage[k] = {topology: cls.from_dict(topology_dct) for topology, topology_dct in v.items()}
+            elif k in (DMK.GRID_ABSTRACTION, DMK.IS_ISOMORPHIC):
+                d.set_property(k, v)
             else:
                 try:
                     variable = v.pop(DMK.VARIABLE)
@@ -80,8 +84,9 @@ class DimensionMap(AbstractOcgisObject):
                 if k == DMK.CRS:
                     d.set_crs(variable)
                 elif k == DMK.SPATIAL_MASK:
-                    if v != {}:
-                        d.set_spatial_mask(variable)
+                    # Reading from a dimension map may leave an entry without a variable.
+                    if variable is not None:
+                        d.set_spatial_mask(variable, attrs=v.get(DMK.ATTRS))
                 else:
                     d.set_variable(k, variable, **v)
         if has_groups:
-- 
2.43.0


From 0773e446bd81e60fee52e30ab1f5dce41ce12285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:14 +0000
Subject: [PATCH 47/65] fix: nested groups of dimension maps

---
 src/ocgis/driver/dimension_map.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index e6fdf22..77272a2 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -112,7 +112,7 @@ class DimensionMap(AbstractOcgisObject):
             curr.set_group(group_name, dimension_map)
         if DMK.GROUPS in group_metadata:
             for group_name, sub_group_metadata in group_metadata[DMK.GROUPS].items():
-                cls.from_metadata(driver, sub_group_metadata, curr=curr, group_name=group_name)
+                curr.set_group(group_name, cls.from_metadata(driver, sub_group_metadata))
 
         return curr
 
@@ -623,9 +623,6 @@ def get_variable_from_field(name, field, nullable):
 
 def get_dmap_group(dmap, keyseq, create=False, last=None):
     keyseq = deepcopy(keyseq)
-    if last is None:
-        last = {}
-
     if keyseq is None:
         keyseq = [None]
     elif isinstance(keyseq, six.string_types):
@@ -639,17 +636,17 @@ def get_dmap_group(dmap, keyseq, create=False, last=None):
     for ctr, key in enumerate(keyseq, start=1):
         if key is None:
             continue
+        elif last is not None and ctr == len_keyseq:
+            # Insert the provided dimension map at the end of the key sequence.
+            get_or_create_dict(curr._storage, DMK.GROUPS, {})[key] = last
+            curr = last
         else:
             try:
                 curr = curr._storage[DMK.GROUPS][key]
             except KeyError:
                 if create:
                     curr_dct = get_or_create_dict(curr._storage, DMK.GROUPS, {})
-                    if ctr == len_keyseq:
-                        default = last
-                    else:
-                        default = {}
-                    curr = get_or_create_dict(curr_dct, key, default)
+                    curr = get_or_create_dict(curr_dct, key, DimensionMap())
                 else:
                     raise
     return curr
-- 
2.43.0


From ae1f25e11f515b0afc44e1c1bd1f0e2aedf03e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:14 +0000
Subject: [PATCH 48/65] fix: updating dimensions from metadata keeps bounds

---
 src/ocgis/driver/dimension_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 77272a2..8f01c99 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -593,7 +593,7 @@ class DimensionMap(AbstractOcgisObject):
             if variable_name is not None and len(dimension_names) == 0:
                 metadata_dimensions = metadata.get('variables', {}).get(variable_name, {}).get('dimensions', [])
                 if len(metadata_dimensions) > 0:
-                    self.set_variable(k, variable_name, dimension=metadata_dimensions)
+                    self.set_variable(k, variable_name, dimension=metadata_dimensions, bounds=self.get_bounds(k))
 
     def _get_element_(self, entry_key, element_key, default):
         if entry_key == DMK.CRS:
-- 
2.43.0


From 63c583c21ebb585b83c17cadf4aa167c5c23214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:27 +0000
Subject: [PATCH 49/65] fix: converted times follow changes of value, mask,
 units and calendar

---
 src/ocgis/variable/temporal.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 82d5afb..065917f 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -52,6 +52,10 @@ class TemporalVariable(SourcedVariable):
         if self.units is None:
             self.units = constants.DEFAULT_TEMPORAL_UNITS
 
+    def __setitem__(self, slc, variable):
+        super(TemporalVariable, self).__setitem__(slc, variable)
+        self._clear_converted_values_()
+
     def _getitem_finalize_(self, ret, slc):
         if isinstance(slc, dict):
             slc = slc[self.dimensions[0].name]
@@ -70,8 +74,10 @@ class TemporalVariable(SourcedVariable):
     @calendar.setter
     def calendar(self, value):
         set_attribute_property(self, 'calendar', value)
+        self._clear_converted_values_()
         if self.has_bounds:
             set_attribute_property(self.bounds, 'calendar', value)
+            clear_converted_values(self.bounds)
 
     @property
     def cfunits(self):
@@ -144,6 +150,11 @@ class TemporalVariable(SourcedVariable):
             ret = False
         return ret
 
+    def _clear_converted_values_(self):
+        # Converted values are valid for the current value, mask, units, and calendar only.
+        self._value_datetime = None
+        self._value_numtime = None
+
     def _as_record_(self, *args, **kwargs):
         add_parts = kwargs.pop('add_parts', True)
         pytype_primitives = kwargs.get('pytype_primitives', False)
@@ -730,6 +741,13 @@ class TemporalVariable(SourcedVariable):
         if 'calendar=' in value:
             value = value.split('calendar=')[0].strip()
         super(TemporalVariable, self)._set_units_(value)
+        self._clear_converted_values_()
+        if self.bounds is not None:
+            clear_converted_values(self.bounds)
+
+    def set_mask(self, *args, **kwargs):
+        super(TemporalVariable, self).set_mask(*args, **kwargs)
+        self._clear_converted_values_()
 
     def set_value(self, value, **kwargs):
         # Special handling for template units.
@@ -738,6 +756,7 @@ class TemporalVariable(SourcedVariable):
             # Update the units.
             self.units = constants.DEFAULT_TEMPORAL_UNITS
         super(TemporalVariable, self).set_value(value, **kwargs)
+        self._clear_converted_values_()
 
 
 class TemporalGroupVariable(TemporalVariable):
@@ -764,6 +783,12 @@ class TemporalGroupVariable(TemporalVariable):
         super(TemporalGroupVariable, self).__init__(*args, **kwargs)
 
 
+def clear_converted_values(bounds):
+    # Bounds may be standard variables.
+    if isinstance(bounds, TemporalVariable):
+        bounds._clear_converted_values_()
+
+
 def get_datetime_conversion_state(archetype):
     """
     :param archetype: The object to test for conversion to datetime.
-- 
2.43.0


From 6b5bae987a215764b3c05473743762b83a94b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:27 +0000
Subject: [PATCH 50/65] fix: a spatial decomposition yields the requested part

---
 src/ocgis/spatial/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/base.py b/src/ocgis/spatial/base.py
index 2ff36b3..fc0d5e5 100644
--- a/src/ocgis/spatial/base.py
+++ b/src/ocgis/spatial/base.py
@@ -787,7 +787,7 @@ def iter_spatial_decomposition(sobj, splits, **kwargs):
         if yield_idx is not None:
             if ctr < yield_idx:
                 continue
-            else:
+            elif ctr > yield_idx:
                 break
         yield sobj.get_intersects(sp, **kwargs)
     # ------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 7f2fd3138fb29a5bfafd745dd6e7cc921045b35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:27 +0000
Subject: [PATCH 51/65] fix: no empty destination chunks for short dimensions

---
 src/ocgis/driver/nc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 733552a..227d3c9 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -463,7 +463,8 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
         for idx in range(grid_chunker.dst_grid.ndim):
             splits = grid_chunker.nchunks_dst[idx]
             size = dst_grid_shape_global[idx]
-            slices = create_slices_for_dimension(size, splits)
+            # Short dimensions may be exhausted before the last split. There is nothing to chunk in the empty remainder.
+            slices = [s for s in create_slices_for_dimension(size, splits) if s[0] < s[1]]
             slice_store.append(slices)
         for ctr, (slice_y, slice_x) in enumerate(itertools.product(*slice_store)):
             if yield_idx is not None and yield_idx != ctr:
-- 
2.43.0


From f56d28fbdc6b183f2cbd49633f6b71a6f928c60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:27 +0000
Subject: [PATCH 52/65] fix: inserting chunk results keeps masked elements
 masked

---
 src/ocgis/spatial/grid_chunker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/spatial/grid_chunker.py b/src/ocgis/spatial/grid_chunker.py
index 5c08f8f..a357efe 100644
--- a/src/ocgis/spatial/grid_chunker.py
+++ b/src/ocgis/spatial/grid_chunker.py
@@ -446,7 +446,7 @@ class GridChunker(AbstractOcgisObject):
                         assert not source_data.has_allocated_value
                         with nc.Dataset(dst_master_path, 'a') as ds:
                             ds.variables[data_variable.name][time_index, y_bounds[vidx][0]:y_bounds[vidx][1],
-                            x_bounds[vidx][0]:x_bounds[vidx][1]] = source_data.get_value()
+                            x_bounds[vidx][0]:x_bounds[vidx][1]] = source_data.get_masked_value()
             elif data_variable.ndim == 2:
                 for vidx, source_path in enumerate(joined):
                     source_path = os.path.join(dst_wd, source_path)
@@ -454,7 +454,7 @@ class GridChunker(AbstractOcgisObject):
                     assert not source_data.has_allocated_value
                     with nc.Dataset(dst_master_path, 'a') as ds:
                         ds.variables[data_variable.name][y_bounds[vidx][0]:y_bounds[vidx][1],
-                        x_bounds[vidx][0]:x_bounds[vidx][1]] = source_data.get_value()
+                        x_bounds[vidx][0]:x_bounds[vidx][1]] = source_data.get_masked_value()
             else:
                 raise NotImplementedError(data_variable.ndim)
 
-- 
2.43.0


From ebdeef35d8b875556641319ee96ee5cba4bb1f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:55 +0000
Subject: [PATCH 53/65] fix: conform time bounds when they are loaded

Bounds loaded before the time values kept their source units while declaring the destination units, so bounds and extents were wrong until the values were loaded.
---
 src/ocgis/driver/base.py   | 11 +++++++++--
 src/ocgis/variable/base.py |  5 +++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 2d57377..744c5b0 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -12,7 +12,8 @@ from ocgis import vm
 from ocgis.base import AbstractOcgisObject, raise_if_empty
 from ocgis.base import get_variable_names
 from ocgis.collection.field import Field
-from ocgis.constants import MPIWriteMode, TagName, KeywordArgument, OcgisConvention, VariableName, DecompositionType
+from ocgis.constants import MPIWriteMode, TagName, KeywordArgument, OcgisConvention, VariableName, DecompositionType, \
+    DimensionMapKey
 from ocgis.driver.dimension_map import DimensionMap
 from ocgis.exc import DefinitionValidationError, NoDataVariablesFound, DimensionMapError, VariableMissingMetadataError, \
     GridDeficientError, OcgWarning
@@ -631,6 +632,11 @@ class AbstractDriver(AbstractOcgisObject):
         # Conform the units if requested. Need to check if this variable is inside a group to find the appropriate
         # metadata.
         meta = get_variable_metadata_from_request_dataset(self, variable)
+        # Time bounds are in the units of the time variable and may be loaded before it.
+        dimension_map = self.rd.dimension_map
+        variables_metadata = self.metadata_source['variables']
+        if meta is variables_metadata.get(dimension_map.get_bounds(DimensionMapKey.TIME)):
+            meta = variables_metadata[dimension_map.get_variable(DimensionMapKey.TIME)]
         conform_units_to = meta.get('conform_units_to')
         if conform_units_to is not None:
             # The initialized units for the variable are overloaded by the destination / conform to units.
@@ -640,7 +646,8 @@ class AbstractDriver(AbstractOcgisObject):
                 from_units = from_units.cfunits
             else:
                 from_units = meta['attrs']['units']
-            variable.cfunits_conform(conform_units_to, from_units=from_units)
+            # Bounds are conformed when they are loaded.
+            variable.cfunits_conform(conform_units_to, from_units=from_units, bounds=False)
 
     @staticmethod
     def inquire_opened_state(opened_or_path):
diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 2746d1f..4f34c3d 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -883,7 +883,7 @@ class Variable(AbstractContainer, Attributes):
 
         return deepcopied
 
-    def cfunits_conform(self, to_units, from_units=None):
+    def cfunits_conform(self, to_units, from_units=None, bounds=True):
         """
         Conform value units in-place. If there are scale or offset parameters in the attribute dictionary, they will
         be removed.
@@ -892,6 +892,7 @@ class Variable(AbstractContainer, Attributes):
         :type to_units: str or units object
         :param from_units: Overload source units.
         :type from_units: str or units object
+        :param bool bounds: If ``False``, do not conform the bounds.
         :raises: NoUnitsError
         """
         if from_units is None and self.units is None:
@@ -916,7 +917,7 @@ class Variable(AbstractContainer, Attributes):
         self._dtype = 'auto'
         self._fill_value = 'auto'
 
-        if self.has_bounds:
+        if bounds and self.has_bounds:
             self.bounds.cfunits_conform(to_units, from_units=from_units)
 
     def convert_to_empty(self):
-- 
2.43.0


From 23d282e3a984f264cf11c5a6de947c62ccda9147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:24 +0000
Subject: [PATCH 54/65] fix: element node connectivity with a start index

The start index was subtracted before splitting on the multi break value, so multi-part elements were not split, and it was
subtracted in place, so reading an ESMF unstructured connectivity changed it.
---
 src/ocgis/spatial/geomc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index e2850e0..ef46b97 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -375,8 +375,6 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
             if not is_masked:
                 if cindex is not None:
                     ec_idx = get_element_node_connectivity_by_index(cindex, idx)
-                    if start_index > 0:
-                        ec_idx -= start_index
                 else:
                     ec_idx = idx
 
@@ -387,6 +385,10 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
                     mitr = [ec_idx]
 
                 for comp_coords in mitr:
+                    # Adjust for the start index after splitting on the break value. Do not modify the connectivity, the
+                    # index may be a view.
+                    if cindex is not None and start_index > 0:
+                        comp_coords = comp_coords - start_index
                     z = None
                     if use_memory_optimizations:
                         x = xvar[comp_coords].get_value()[0]
-- 
2.43.0


From 948578c3e8f11079303eca171e36f0d6679d8c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:10 +0000
Subject: [PATCH 55/65] fix: keep start index and break values when reducing
 coordinates

The start index and break value attributes were lost, so a mesh with another start index than the default of its driver referred to other
coordinates after the reduction, and break values were renumbered as if they were coordinate indices.
---
 src/ocgis/spatial/geomc.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index ef46b97..248aacb 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -655,10 +655,18 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
             raise ValueError('A coordinate index is required to reduce coordinates.')
 
         ocgis_lh(msg='starting reduce_reindex_coordinate_index', logger='geomc', level=logging.DEBUG)
-        new_cindex, uidx = reduce_reindex_coordinate_index(self.cindex, start_index=self.start_index)
+        if self.has_multi:
+            # Break values are not coordinate indices.
+            new_cindex = self.cindex.get_value().copy()
+            select = new_cindex != self.multi_break_value
+            new_cindex[select], uidx = reduce_reindex_coordinate_index(new_cindex[select], start_index=self.start_index)
+        else:
+            new_cindex, uidx = reduce_reindex_coordinate_index(self.cindex, start_index=self.start_index)
         ocgis_lh(msg='finished reduce_reindex_coordinate_index', logger='geomc', level=logging.DEBUG)
 
-        new_cindex = Variable(name=self.cindex.name, value=new_cindex, dimensions=self.cindex.dimensions)
+        # Keep the start index and the break value.
+        new_cindex = Variable(name=self.cindex.name, value=new_cindex, dimensions=self.cindex.dimensions,
+                              attrs=self.cindex.attrs)
 
         ret = self.copy()
         if self.start_index == 1:
-- 
2.43.0


From 18807573057a1a56c10bdcd8ea6cb23077fcf3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 56/65] fix: ranks searching for new coordinate indices could
 wait for each other

---
 src/ocgis/spatial/geomc.py | 44 +++++++++++++-------------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index 248aacb..6d1f679 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -20,7 +20,6 @@ from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.variable.base import get_dslice, Variable
 from ocgis.variable.dimension import create_distributed_dimension
 from ocgis.variable.geom import GeometryProcessor, GeometryVariable
-from ocgis.vmachine.mpi import cancel_free_requests
 
 
 def format_gridunstruct_return(func):
@@ -1026,33 +1025,24 @@ def run_rr_nonroot(new_cindex, cindex, uidx, destinations, has_u, overlaps, tag_
             # for s in search_reqs:
             #     s.Test()
 
-            # vm.rank_print('receiving from:', destinations)
-            sent = search_for_destinations(destinations, uidx, tag_found, tag_search)
+            # Answer requests of other ranks until the answers of the overlap ranks are there. The other ranks may be
+            # waiting for an answer from this rank.
+            found_reqs = [create_Irecv(orank, tag_found) for orank in overlaps]
+            pending = found_reqs
+            sent = []
+            while len(pending) > 0:
+                sent += search_for_destinations(destinations, uidx, tag_found, tag_search)
+                pending = [p for p in pending if not p[1].Test()]
 
-            for s in search_reqs:
-                # vm.rank_print('waiting for search request', 'idx', idx, s[0])
-                s[1].wait()
-
-            # vm.rank_print('overlaps', overlaps, 'destinations', destinations)
-            # time.sleep(100)
-
-            for overlap_rank in overlaps:
-                data, req = create_Irecv(overlap_rank, tag_found)
-                req.wait()
-                # if req.Test():
+            for data, _ in found_reqs:
                 if data[0] != MPI_EMPTY_VALUE:
                     new_cindex_value = data[0]
 
+            for s in search_reqs:
+                s[1].wait()
             for s in sent:
                 s[1].wait()
 
-                # for s in search_reqs:
-                #     s.wait()
-
-                # Free the search requests to avoid any race conditions in data buffers.
-
-                # cancel_free_requests(search_reqs)
-
         # Fill the new coordinate index array with the found value.
         assert new_cindex_value is not None
         new_cindex[idx] = new_cindex_value
@@ -1107,12 +1097,10 @@ def search_for_destinations(dest_ranks, uidx, tag_found, tag_search):
     assert isinstance(dest_ranks, list)
     sent = []
     for dest_rank in dest_ranks:
-        data, req = create_Irecv(dest_rank, tag_search)
-        # data = np.array([MPI_EMPTY_VALUE], dtype='i')
-        # buf = [data, MPI.INT]
-        # req = vm.comm.Irecv(buf, source=dest_rank, tag=tag_search)
-        # req.wait()
-        if req.Test():
+        # Only receive a request that is there. A receive may be matched before it can be cancelled.
+        if vm.comm.Iprobe(source=dest_rank, tag=tag_search):
+            data, req = create_Irecv(dest_rank, tag_search)
+            req.wait()
             search_value = data[0]
             # if data == MPI_EMPTY_VALUE:
             #     print('rank=', vm.rank, 'bad data from rank:', dest_rank)
@@ -1123,6 +1111,4 @@ def search_for_destinations(dest_ranks, uidx, tag_found, tag_search):
             local_uidx = uidx.get(search_value, MPI_EMPTY_VALUE)
             send_res = create_Isend(dest_rank, tag_found, value=local_uidx)
             sent.append(send_res)
-        else:
-            cancel_free_requests([req])
     return sent
-- 
2.43.0


From f14cf615964c75097f5375c897642270b716b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 57/65] fix: reduce coordinates on ranks without coordinates of
 their own

---
 src/ocgis/spatial/geomc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index 6d1f679..b2156e3 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -670,7 +670,8 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
         ret = self.copy()
         if self.start_index == 1:
             uidx -= 1
-        new_parent = self.x[uidx].parent
+        # The coordinates of a rank may all belong to other ranks.
+        new_parent = self.x[uidx if len(uidx) > 0 else slice(0, 0)].parent
 
         cdim = new_parent[self.x.name].dimensions[0]
         new_node_dimension = create_distributed_dimension(cdim.size, name=cdim.name, src_idx=cdim._src_idx)
-- 
2.43.0


From d55c7d4f6e48027f21e2d63f7bdf1881e2b313ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 58/65] fix: subset points with an element node connectivity

---
 src/ocgis/spatial/geomc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index b2156e3..8ab1562 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -558,6 +558,13 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
 
             hint_mask = np.invert(hint_mask)
 
+            # The hint mask is on coordinates. Masks are on elements.
+            if self.cindex is not None:
+                cindex = self.cindex.get_value()
+                select = [self.get_element_node_connectivity_by_index(cindex, idx) for idx in
+                          range(len(self.element_dim))]
+                hint_mask = hint_mask[np.array(select) - self.start_index]
+
             original_mask = hint_mask
             if not optimized_bbox_subset:
                 mask = self.get_mask()
-- 
2.43.0


From b4c9e0cf45f46c7e8d9243cf004534d7851a05d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 59/65] fix: iterating unstructured geometries is not
 collective

---
 src/ocgis/spatial/geomc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index 8ab1562..b419460 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -360,7 +360,8 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
                 mask_value = np.logical_or(mask_value, hint_mask)
 
         has_mask = self.has_mask
-        has_masked_values = self.has_masked_values_global
+        # Iteration is not collective. Ranks without candidate geometries do not iterate.
+        has_masked_values = self.has_masked_values
         has_z = self.has_z
         get_shapely_geometry = self.get_shapely_geometry
         get_element_node_connectivity_by_index = self.get_element_node_connectivity_by_index
-- 
2.43.0


From 795f6e5cbadfff0fc0fe5a28e927efcfd7729e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:04 +0000
Subject: [PATCH 60/65] fix: spatial averages over several ranks

---
 src/ocgis/variable/geom.py | 81 ++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 43 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 970f0cc..08fe9eb 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -952,6 +952,13 @@ class GeometryVariable(AbstractSpatialVariable):
 
         # Spatial average shared dimensions.
         if spatial_average is not None:
+            # In parallel, the sum of the weights used for each averaged value.
+            rank_weights = {}
+            if vm.size > 1:
+                # Weights are relative to the largest area on the rank.
+                area = self.area
+                area.data[area.data == 0] = 1.0
+                rank_scale = np.ma.filled(area.max(), 0.0)
             # Get source data to weight.
             for var_to_weight in filter(lambda ii: ii.name in variable_names_to_weight, list(self.parent.values())):
                 # Holds sizes of dimensions to iterate. These dimension are not squeezed by the weighted averaging.
@@ -995,6 +1002,7 @@ class GeometryVariable(AbstractSpatialVariable):
                     target.set_dimensions(new_dimensions)
                     target.allocate_value()
                     target_mask = np.zeros(target.shape, dtype=bool)
+                    target_weights = np.zeros(target.shape, dtype=env.NP_FLOAT)
 
                     # The main weighting loop. Can get quite intensive with many, large iteration dimensions.
                     len_names_to_itr = len(names_to_itr)
@@ -1017,8 +1025,12 @@ class GeometryVariable(AbstractSpatialVariable):
                             target_mask[nonweighted_indices] = True
                         else:
                             target[w_slc].get_value()[:] = np_atleast_1d(weighted_value)
+                            if vm.size > 1:
+                                unmasked_weights = get_unmasked_weights(data_to_weight, weights)
+                                target_weights[nonweighted_indices] = unmasked_weights.sum() * rank_scale
                     if target_mask.any():
                         target.set_mask(target_mask)
+                    rank_weights[target.name] = target_weights
                 else:
                     target_to_weight = var_to_weight.get_masked_value()
                     # Sort to minimize floating point sum errors.
@@ -1031,52 +1043,24 @@ class GeometryVariable(AbstractSpatialVariable):
                     weighted_value = np.atleast_1d(np.ma.average(target_to_weight, weights=weights))
                     target.set_dimensions(new_dimensions)
                     target.set_value(weighted_value)
+                    if vm.size > 1:
+                        unmasked_weights = get_unmasked_weights(target_to_weight, weights)
+                        rank_weights[target.name] = np.atleast_1d(unmasked_weights.sum() * rank_scale)
 
-            # Collect areas of live ranks and convert to weights.
+            # Average the averages of the live ranks using the sums of the weights.
             if vm.size > 1:
-                # If there is no area information (points for example, we need to use counts).
-                if ret.area.data[0].max() == 0:
-                    weight_or_proxy = float(self.size)
-                else:
-                    weight_or_proxy = ret.area.data[0]
-
-                if vm.rank != root:
-                    vm.comm.send(weight_or_proxy, dest=root)
-                else:
-                    live_rank_areas = [weight_or_proxy]
-                    for tner in vm.ranks:
-                        if tner != vm.rank:
-                            recv_area = vm.comm.recv(source=tner)
-                            live_rank_areas.append(recv_area)
-                    live_rank_areas = np.array(live_rank_areas)
-
-                    rank_weights = live_rank_areas / np.max(live_rank_areas)
-
                 for var_to_weight in filter(lambda ii: ii.name in variable_names_to_weight, list(ret.parent.values())):
-                    dimensions_to_itr = [dim.name for dim in var_to_weight.dimensions if
-                                         dim.name != union_dimension.name]
-                    slc = {union_dimension.name: 0}
-                    for idx_slc in var_to_weight.iter_dict_slices(dimensions=dimensions_to_itr):
-                        idx_slc.update(slc)
-                        to_weight = var_to_weight[idx_slc].get_value().flatten()[0]
-                        if vm.rank == root:
-                            collected_to_weight = [to_weight]
-                        if not vm.rank == root:
-                            vm.comm.send(to_weight, dest=root)
-                        else:
-                            for tner in vm.ranks:
-                                if not tner == root:
-                                    recv_to_weight = vm.comm.recv(source=tner)
-                                    collected_to_weight.append(recv_to_weight)
-
-                            # Sort to minimize floating point sum errors.
-                            collected_to_weight = np.array(collected_to_weight)
-                            sindices = np.argsort(collected_to_weight)
-                            collected_to_weight = collected_to_weight[sindices]
-                            rank_weights = rank_weights[sindices]
-
-                            weighted = np.atleast_1d(np.ma.average(collected_to_weight, weights=rank_weights))
-                            var_to_weight[idx_slc].get_value()[:] = weighted
+                    collected = vm.gather((var_to_weight.get_value(), rank_weights[var_to_weight.name]), root=root)
+                    if vm.rank == root:
+                        # Nothing contributes to the average where everything is masked.
+                        total = np.sum([w for _, w in collected], axis=0)
+                        weighted = np.sum([np.where(w > 0, v, 0) * w for v, w in collected], axis=0)
+                        weighted_mask = total == 0
+                        weighted[~weighted_mask] = weighted[~weighted_mask] / total[~weighted_mask]
+                        var_to_weight.set_mask(None)
+                        var_to_weight.set_value(weighted)
+                        if weighted_mask.any():
+                            var_to_weight.set_mask(weighted_mask)
         if vm.rank == root:
             return ret
         else:
@@ -1359,6 +1343,17 @@ def get_node_count(geom):
     return node_count
 
 
+def get_unmasked_weights(data, weights):
+    """
+    :param data: The masked array to weight.
+    :param weights: Masked array of weights with the same shape as ``data``.
+    :return: A one-dimensional array containing weights of unmasked elements.
+    :rtype: :class:`numpy.ndarray`
+    """
+    mask = np.logical_or(np.ma.getmaskarray(data), np.ma.getmaskarray(weights))
+    return weights.data[~mask]
+
+
 def get_split_polygon_by_node_threshold(geom, node_threshold):
     """Split a polygon by a node threshold."""
     node_schema = get_node_schema(geom)
-- 
2.43.0


From 63ca8ee2786c44fdf165c85184a31003870ce479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:51 +0000
Subject: [PATCH 61/65] fix: union of geometries gathered on another rank than
 the first

---
 src/ocgis/variable/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 08fe9eb..e8b3820 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -942,7 +942,7 @@ class GeometryVariable(AbstractSpatialVariable):
 
             # Pull unioned geometries and union again for the final unioned geometry.
             if vm.size > 1:
-                unioned_gathered = vm.gather(unioned)
+                unioned_gathered = vm.gather(unioned, root=root)
                 if vm.rank == root:
                     unioned = cascaded_union(unioned_gathered)
 
-- 
2.43.0


From 458a3ac9326383bc96d0689741541ae35705b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:40 +0000
Subject: [PATCH 62/65] fix: subset by several geometries or of several
 datasets over several ranks

---
 src/ocgis/conv/base.py  | 48 ++++++++++++++++++++++++-----------------
 src/ocgis/ops/engine.py | 12 +++++++----
 2 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index 5ab9891..f164007 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -116,11 +116,21 @@ class AbstractCollectionConverter(AbstractFileConverter):
         super(AbstractCollectionConverter, self).__init__(**kwargs)
 
     def __iter__(self):
+        original_subcomm = vm.current_comm_name
+        self._is_first = True
         for coll in self.colls:
             assert isinstance(coll, SpatialCollection)
-            if not self._allow_empty and coll.is_empty:
-                continue
-            yield coll
+            should_yield = self._allow_empty or not coll.is_empty
+            if should_yield:
+                yield coll
+            # All ranks need to know if another rank used the collection.
+            with vm.scoped_by_name(original_subcomm):
+                is_used = vm.gather(should_yield)
+                if vm.rank == 0:
+                    is_used = any(is_used)
+                is_used = vm.bcast(is_used)
+            if is_used:
+                self._is_first = False
 
     @property
     def geom_uid(self):
@@ -166,32 +176,30 @@ class AbstractCollectionConverter(AbstractFileConverter):
         # Path to the output object.
         f = {KeywordArgument.PATH: self.path}
 
-        build = True
         for i, coll in enumerate(self):
             # This will be changed to "write" if we are on the build loop.
             write_mode = MPIWriteMode.APPEND
 
-            if build:
+            if self._is_first:
                 # During a build loop, create the file and write the first series of records. Let the drivers determine
                 # the appropriate write modes for handling parallelism.
                 write_mode = None
 
-                # Write the user geometries if selected and there is one present on the incoming collection.
-                if self._add_ugeom and coll.has_container_geometries:
-                    write_ugeom = True
-
-                if write_ugeom:
-                    if vm.rank == 0:
-                        # The output file name for the user geometries.
-                        ugid_shp_name = self.prefix + '_ugid.shp'
-                        if self._add_ugeom_nest:
-                            ugeom_fiona_path = os.path.join(self._get_or_create_shp_folder_(), ugid_shp_name)
-                        else:
-                            ugeom_fiona_path = os.path.join(self.outdir, ugid_shp_name)
-                    else:
-                        ugeom_fiona_path = None
+            # Write the user geometries if selected and there is one present on the incoming collection.
+            if self._add_ugeom and coll.has_container_geometries:
+                write_ugeom = True
 
-                build = False
+            if write_ugeom:
+                # The live ranks may differ for each collection.
+                if vm.rank == 0:
+                    # The output file name for the user geometries.
+                    ugid_shp_name = self.prefix + '_ugid.shp'
+                    if self._add_ugeom_nest:
+                        ugeom_fiona_path = os.path.join(self._get_or_create_shp_folder_(), ugid_shp_name)
+                    else:
+                        ugeom_fiona_path = os.path.join(self.outdir, ugid_shp_name)
+                else:
+                    ugeom_fiona_path = None
 
             f[KeywordArgument.WRITE_MODE] = write_mode
 
diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index f333066..cd08d86 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -106,6 +106,8 @@ class OperationsEngine(AbstractOcgisObject):
 
         # Process the incoming datasets. Convert from request datasets to fields as needed.
         for rds in itr_rd:
+            # Each dataset starts with all ranks. Subsets create subcommunicators for their live ranks.
+            vm.set_comm(self._original_subcomm)
 
             try:
                 msg = 'Processing URI(s): {0}'.format([rd.uri for rd in rds])
@@ -288,18 +290,20 @@ class OperationsEngine(AbstractOcgisObject):
         assert isinstance(field, Field)
 
         ocgis_lh('processing geometries', self._subset_log, level=logging.DEBUG)
+        field_subcomm = vm.current_comm_name
         # Process each geometry.
         for subset_field in itr:
+            # Each subset starts with all of the field's ranks.
+            vm.set_comm(field_subcomm)
 
             # Initialize the collection storage.
             coll = self._get_initialized_collection_()
+            # Always work with a copy of the subset geometry. This gets twisted in interesting ways depending on the
+            # subset target with wrapping, coordinate system conversion, etc.
+            subset_field = deepcopy(subset_field)
             if vm.is_null:
                 sfield = field
             else:
-                # Always work with a copy of the subset geometry. This gets twisted in interesting ways depending on the
-                # subset target with wrapping, coordinate system conversion, etc.
-                subset_field = deepcopy(subset_field)
-
                 if self.ops.regrid_destination is not None:
                     # If there is regridding, make another copy as this geometry may be manipulated during subsetting of
                     # sources.
-- 
2.43.0


From bc1924b3e66dead736f3008678867db3856901bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:19 +0000
Subject: [PATCH 63/65] fix: time range and region of short ranges were not
 compared by their months

---
 src/ocgis/util/helpers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 210df3e..97a787e 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -1195,14 +1195,14 @@ def validate_time_subset(time_range, time_region):
                 copy_time_region[key] = None
         # Pull basic date information from the time range.
         min_range_year, max_range_year = time_range[0].year, time_range[1].year
-        delta = datetime.timedelta(days=29, hours=12)
+        # Collect the months in the time range including its first and last month.
         months = set()
-        current = time_range[0]
-        while current <= time_range[1]:
-            current += delta
-            months.update([current.month])
+        year, month = time_range[0].year, time_range[0].month
+        while (year, month) <= (time_range[1].year, time_range[1].month):
+            months.add(month)
             if len(months) == 12:
                 break
+            year, month = (year, month + 1) if month < 12 else (year + 1, 1)
         # Construct boundaries from time region. first, the case of only months.
         if copy_time_region['month'] is not None and copy_time_region['year'] is None:
             month_bounds = min(copy_time_region['month']), max(copy_time_region['month'])
-- 
2.43.0


From fdc7a99e1cfd6be82c21f30c86a1dacb44e746f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:19 +0000
Subject: [PATCH 64/65] fix: functions selecting no times raise the empty
 subset error

---
 src/ocgis/variable/temporal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 065917f..1d26dac 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -383,6 +383,9 @@ class TemporalVariable(SourcedVariable):
             bounds = None
 
         indices = np.array(func(self.value_datetime, bounds=bounds))
+        # Sequences of indices and of flags may select nothing.
+        if not (indices.any() if indices.dtype == bool else indices.size):
+            raise EmptySubsetError(origin='temporal')
         ret = self[indices]
         if return_indices:
             ret = (ret, indices)
-- 
2.43.0


From 2d4936d19dc3612b9974661930e83b5d2a813ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:36 +0000
Subject: [PATCH 65/65] fix: percentiles counted masked values

---
 src/ocgis/calc/library/statistics.py | 31 ++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index 5f95c28..b2ee326 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -175,8 +175,6 @@ class DailyPercentile(base.AbstractUnivariateFunction, base.AbstractParameterize
         month_day_map = {(dt.month, dt.day): ii for ii, dt in enumerate(self.tgd.value_datetime)}
         for key, value in dp.items():
             fill[0, month_day_map[key], 0, :, :] = value
-        for idx in range(fill.shape[1]):
-            fill.mask[0, idx, 0, :, :] = values.mask[0, 0, 0, :, :]
         return fill
 
     @staticmethod
@@ -238,10 +236,7 @@ class DailyPercentile(base.AbstractUnivariateFunction, base.AbstractParameterize
                 arr_subset = arr[indices_non_masked, :, :]
 
                 # step5: we compute the percentile for current arr_subset
-                ############## WARNING: type(arr_subset) = numpy.ndarray. Numpy.percentile does not work with masked arrays,
-                ############## so if arr_subset has aberrant values like 999999 or 1e+20, the result will be wrong.
-                ############## Check with numpy.nanpercentile (Numpy version 1.9) !!!
-                arr_percentille_current_calday = np.percentile(arr_subset, percentile, axis=0)
+                arr_percentille_current_calday = get_masked_percentile(arr_subset, percentile)
 
                 # step6: we add to the dictionnary...
                 percentile_dict[month, day] = arr_percentille_current_calday
@@ -376,9 +371,7 @@ class FrequencyPercentile(base.AbstractUnivariateSetFunction, base.AbstractParam
         :type percentile: float on the interval [0,100]
         """
 
-        ret = np.percentile(values, percentile, axis=0)
-        ret = np.ma.array(ret, mask=values.mask[0, :, :])
-        return ret
+        return get_masked_percentile(values, percentile)
 
 
 class Max(base.AbstractUnivariateSetFunction):
@@ -436,3 +429,23 @@ class StandardDeviation(base.AbstractUnivariateSetFunction):
 
     def calculate(self, values):
         return np.ma.std(values, axis=0)
+
+
+def get_masked_percentile(values, percentile):
+    """
+    Compute the percentile along the first axis using unmasked values only.
+
+    :param values: The values to use.
+    :type values: :class:`numpy.ma.core.MaskedArray`
+    :param float percentile: Percentile to compute on the interval [0,100].
+    :returns: An array with the first axis removed. Elements without any unmasked values are masked.
+    :rtype: :class:`numpy.ma.core.MaskedArray`
+    """
+
+    mask = np.ma.getmaskarray(values)
+    all_masked = mask.all(axis=0)
+    ret = np.ma.array(np.percentile(np.ma.getdata(values), percentile, axis=0), mask=all_masked)
+    # NumPy does not account for the mask.
+    for idx in zip(*np.where(np.logical_and(mask.any(axis=0), np.invert(all_masked)))):
+        ret[idx] = np.percentile(values[(slice(None),) + idx].compressed(), percentile)
+    return ret
-- 
2.43.0

