From 1fd60fe2728b628e20094891ab3ac3e6d2ef5f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 001/162] fix: address exactly the requested elements for
 negative, stepped, unsorted and repeated indices

---
 src/ocgis/util/helpers.py       | 14 ++++++++------
 src/ocgis/variable/dimension.py | 15 ++++++++++++++-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index d5d76b1..b634ffe 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -445,16 +445,17 @@ def get_formatted_slice(slc, n_dims):
             pass
 
         if isinstance(single_slc, int):
-            ret = slice(single_slc, single_slc + 1)
+            # The stop index is open for the last element addressed from the end. A stop of zero selects nothing.
+            ret = slice(single_slc, None if single_slc == -1 else single_slc + 1)
         elif isinstance(single_slc, slice):
             ret = single_slc
         elif isinstance(single_slc, np.ndarray):
             ret = get_optimal_slice_from_array(single_slc)
         elif isinstance(single_slc, (list, tuple)):
-            if len(single_slc) == 1 and isinstance(single_slc[0], slice):
-                ret = single_slc[0]
-            elif len(single_slc) == 1 and isinstance(single_slc[0], ndarray):
-                ret = get_optimal_slice_from_array(single_slc[0])
+            # A sequence holding the slice for a single dimension.
+            if len(single_slc) == 1 and (single_slc[0] is None or
+                                         isinstance(single_slc[0], (slice, ndarray, list, tuple))):
+                ret = _format_singleton_(single_slc[0])
             else:
                 ret = get_optimal_slice_from_array(np.array(single_slc, ndmin=1))
         elif single_slc is None:
@@ -625,7 +626,8 @@ def get_optimal_slice_from_array(arr, check_diff=True):
     if arr.dtype == bool:
         ret = arr
     else:
-        if check_diff and np.any(np.diff(arr) > 1):
+        # Only a contiguous, increasing sequence of non-negative indices may be converted to a slice.
+        if check_diff and (np.any(np.diff(arr) != 1) or arr.min() < 0):
             ret = arr
         else:
             arr_min, arr_max = arr.min(), arr.max()
diff --git a/src/ocgis/variable/dimension.py b/src/ocgis/variable/dimension.py
index 26454c4..8ab6617 100644
--- a/src/ocgis/variable/dimension.py
+++ b/src/ocgis/variable/dimension.py
@@ -88,7 +88,7 @@ class Dimension(AbstractNamedObject):
         if len(self) == 0:
             raise IndexError('Zero-length dimensions are not slicable.')
 
-        slc = get_formatted_slice(slc, 1)[0]
+        slc = self._get_normalized_slice_(get_formatted_slice(slc, 1)[0])
         ret = self.copy()
 
         # Slicing work is done here.
@@ -402,6 +402,19 @@ class Dimension(AbstractNamedObject):
         """
         return self.name
 
+    def _get_normalized_slice_(self, slc):
+        # Express the slice using non-negative indices inside the dimension. Steps are converted to fancy indices.
+        if isinstance(slc, slice):
+            if slc != slice(None):
+                start, stop, step = slc.indices(len(self))
+                if step == 1:
+                    slc = slice(start, max(start, stop))
+                else:
+                    slc = np.arange(start, stop, step)
+        elif isinstance(slc, np.ndarray) and slc.dtype != bool:
+            slc = np.where(slc < 0, slc + len(self), slc)
+        return slc
+
     def __getitem_main__(self, ret, slc):
         length_self = len(self)
         try:
-- 
2.43.0


From 7b5029978de6a6acbc2477a4bb46d825ddf0db44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 002/162] fix: keep the dimension of a level coordinate when a
 grid is created on two-dimensional coordinates

---
 src/ocgis/spatial/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/base.py b/src/ocgis/spatial/base.py
index 2ff36b3..7f8b5c4 100644
--- a/src/ocgis/spatial/base.py
+++ b/src/ocgis/spatial/base.py
@@ -638,7 +638,9 @@ class AbstractXYZSpatialContainer(AbstractSpatialContainer):
         else:
             x_pos, y_pos = [None, None]
 
-        if z is not None and x.ndim == 2:
+        # A vertical coordinate with its own dimension keeps that dimension. Only a z-coordinate spanning the horizontal
+        # dimensions has no canonical dimension.
+        if z is not None and x.ndim == 2 and z.ndim > 1:
             dimensionless = True
         else:
             dimensionless = False
-- 
2.43.0


From 51b028f7236998bf25d7bd7fcfcb228160310eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 003/162] fix: read time bounds without units and calendar from
 several files

---
 src/ocgis/driver/nc.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index ddceca1..78ee982 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -641,10 +641,31 @@ def get_value_from_request_dataset(variable):
             except TypeError:
                 # Older versions of netcdf4-python do not support the calendar argument.
                 ncvar = MFTime(ncvar, units=variable.units)
+            except AttributeError:
+                # Time bounds do not need their own units and calendar. They share them with their coordinate. If these
+                # are the same for all files, there is nothing to convert.
+                if not is_uniform_time_bounds(source, desired_name):
+                    raise
         ret = get_variable_value(ncvar, variable.dimensions)
     return ret
 
 
+def is_uniform_time_bounds(source, name):
+    """
+    Return ``True`` if the variable is the bounds of a time coordinate having the same units and calendar in all files.
+
+    :param source: The multi-file dataset.
+    :type source: :class:`netCDF4.MFDataset`
+    :param str name: Name of the bounds variable.
+    :rtype: bool
+    """
+    for ncvar in source.variables.values():
+        if getattr(ncvar, 'bounds', None) == name and hasattr(ncvar, '_recVar'):
+            found = set([(getattr(r, 'units', None), getattr(r, 'calendar', None)) for r in ncvar._recVar])
+            return len(found) == 1
+    return False
+
+
 def get_variables_to_write(vc):
     from ocgis.variable.geom import GeometryVariable
     ret = []
-- 
2.43.0


From e1048efa64ea8d244a0129e2a795bce9f1f1129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 004/162] fix: read variables in netCDF groups nested more than
 one level deep

---
 src/ocgis/driver/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 2d57377..de51d8b 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -348,10 +348,11 @@ class AbstractDriver(AbstractOcgisObject):
             group_metadata = self.rd.metadata
 
         field = Field(name=name, source_name=source_name, uid=uid, attrs=group_metadata.get('global_attributes'))
-        for var in self.create_variables(group_metadata, parent=field).values():
-            field.add_variable(var, force=True)
         if parent is not None:
+            # Variables find their group through the parents. Hence, the hierarchy must be complete before they are created.
             parent.add_child(field)
+        for var in self.create_variables(group_metadata, parent=field).values():
+            field.add_variable(var, force=True)
         for k, v in group_metadata.get('groups', {}).items():
             _ = self.create_raw_field(v, name=k, parent=field, group_name=k)
         return field
-- 
2.43.0


From b99fc7c7695111e8b118e76603b3816d7daa2795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 005/162] fix: name the projection coordinates when a field on
 a CF projection is written

---
 src/ocgis/variable/crs.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index d4f3fe3..7183d7f 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -941,6 +941,21 @@ class CFCoordinateReferenceSystem(CoordinateReferenceSystem):
     def proj_name(self):
         str
 
+    def format_spatial_object(self, spatial_obj, is_transform=False):
+        super(CFCoordinateReferenceSystem, self).format_spatial_object(spatial_obj, is_transform=is_transform)
+
+        # The projection coordinates must be identified in the output. Otherwise, the coordinate system may not be read.
+        should_name = self._find_projection_coordinates and self._cf_attributes is None and not is_transform
+        if should_name and hasattr(spatial_obj, 'coordinate_variables'):
+            standard_names = {DMK.X: 'projection_x_coordinate', DMK.Y: 'projection_y_coordinate'}
+            for c in spatial_obj.coordinate_variables:
+                standard_name = standard_names.get(spatial_obj.dimension_map.inquire_is_xyz(c))
+                if standard_name is not None and CFName.STANDARD_NAME not in c.attrs:
+                    c.attrs[CFName.STANDARD_NAME] = standard_name
+                    units = self.map_parameters_values.get(CFName.UNITS)
+                    if units is not None and CFName.UNITS not in c.attrs:
+                        c.attrs[CFName.UNITS] = units
+
     def format_standard_parallel(self, value):
         if isinstance(value, np.ndarray):
             value = value.tolist()
-- 
2.43.0


From 00a720ff0ba30704ea8c1ef61c0e62f03414bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 006/162] fix: write several ragged variables that share a
 dimension

---
 src/ocgis/driver/nc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 78ee982..d484d03 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -96,7 +96,11 @@ class DriverNetcdf(AbstractDriver):
 
             dtype = cls.get_variable_write_dtype(var)
             if isinstance(dtype, ObjectType):
-                dtype = dtype.create_vltype(dataset, dimensions[0].name + '_VLType')
+                vltype_name = dimensions[0].name + '_VLType'
+                # Variable length types must have unique names in a group. The dimension may have other ragged variables.
+                if vltype_name in dataset.vltypes:
+                    vltype_name = var.name + '_' + vltype_name
+                dtype = dtype.create_vltype(dataset, vltype_name)
             # Assume we are writing string data if the data type is object.
             elif dtype == str or var.is_string_object:
                 dtype = 'S1'
-- 
2.43.0


From 67628162c3a094ca509322811673e07cda9a609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 007/162] fix: do not add output attributes and masks to a
 field in memory when it is written

---
 src/ocgis/driver/nc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index d484d03..5555e79 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -481,6 +481,11 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
         """Collective!"""
         ocgis_lh(level=10, logger="driver.nc", msg="entering _get_field_write_target_")
 
+        # Formatting for the output adds attributes and masks. These should not appear on the field in memory. Load the
+        # grid first to ensure its coordinate variables are instrumented on the incoming field.
+        _ = field.grid
+        field = field.copy()
+
         if field.crs is not None:
             field.crs.format_spatial_object(field)
 
@@ -501,13 +506,11 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
 
             # Putting units on bounds for netCDF-CF can confuse some parsers.
             if grid.has_bounds:
-                field = field.copy()
                 field.x.bounds.attrs.pop('units', None)
                 field.y.bounds.attrs.pop('units', None)
 
         # Remove the current coordinate system if this is a dummy coordinate system.
         if env.COORDSYS_ACTUAL is not None:
-            field = field.copy()
             field.set_crs(env.COORDSYS_ACTUAL, should_add=True)
 
         return field
-- 
2.43.0


From ec30928402e592acdd340402ac994ca313edff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 008/162] fix: renaming bounds keeps the linkage to the
 variable they bound

---
 src/ocgis/variable/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 18c061c..86ffbc9 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -161,7 +161,14 @@ class AbstractContainer(AbstractNamedObject):
         """
         parent = self._parent
         if parent is not None and self.name in parent:
-            parent[name] = parent.pop(self.name)
+            old_name = self.name
+            parent[name] = parent.pop(old_name)
+            # Other members of the parent may reference this object by name as their bounds.
+            if name != old_name:
+                for variable in list(parent.values()):
+                    if getattr(variable, '_bounds_name', None) == old_name:
+                        variable._bounds_name = name
+                        variable.attrs[variable._bounds_attribute_name] = name
         super(AbstractContainer, self).set_name(name, aliases=aliases)
 
     @abstractmethod
-- 
2.43.0


From 6ab32a21f464c5f3b36b3a6fde5bb8d7e256575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 009/162] fix: extract with a clean break works for variables
 with bounds

---
 src/ocgis/variable/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 86ffbc9..9deaa8f 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1132,7 +1132,9 @@ class Variable(AbstractContainer, Attributes):
                 new_parent = ret.parent
                 to_pop_in_new = set(original_parent.keys()).difference(set(to_keep))
                 for tk in to_keep:
-                    original_parent.remove_variable(tk)
+                    # Removing a variable also removes its bounds.
+                    if tk in original_parent:
+                        original_parent.remove_variable(tk)
                 for tp in to_pop_in_new:
                     new_parent.pop(tp)
             else:
-- 
2.43.0


From 40ab9152bf8321a48e29d7052762e3811b5f2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 010/162] fix: extract drops tags of variables left behind

---
 src/ocgis/variable/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 9deaa8f..beb60da 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1142,6 +1142,10 @@ class Variable(AbstractContainer, Attributes):
                     if var.name not in to_keep:
                         ret.parent.pop(var.name)
 
+            # Tags may only reference variables which are still in the collection.
+            for tag, names in list(ret.parent._tags.items()):
+                ret.parent._tags[tag] = [n for n in names if n in to_keep]
+
         ret = ret.parent[self.name]
 
         # Remove any dimensions not associated with the extracted variable from its parent collection.
-- 
2.43.0


From bb71cdf51519db57e3aeb831a65a88d2cd424fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 011/162] fix: renaming a dimension does not rename it on
 shallow copies

---
 src/ocgis/variable/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index beb60da..4e519e6 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2243,7 +2243,8 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
         :param str old_name: The dimension's original name.
         :param str new_name: The dimension's new name.
         """
-        target_dimension = self.dimensions.pop(old_name)
+        # The dimension object may be shared with other collections.
+        target_dimension = self.dimensions.pop(old_name).copy()
         target_dimension.set_name(new_name)
         self.dimensions[new_name] = target_dimension
         for var in self.values():
-- 
2.43.0


From 7d0cca3f950c11fe881ca623c739ae523d91adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 012/162] fix: cascading a mask does not modify mask arrays
 shared with other objects

---
 src/ocgis/variable/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 4e519e6..37bc946 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2542,6 +2542,9 @@ def set_mask_by_variable(source_variable, target_variable, slice_map=None, updat
             # If the target mask is none, we will need to generate one.
             if mask_target is None:
                 mask_target = np.zeros(target_variable.shape, dtype=bool)
+            else:
+                # The mask array may be shared with other objects (shallow copies, slices).
+                mask_target = mask_target.copy()
             template = [slice(None)] * target_variable.ndim
             for slc in itertools.product(*[list(range(ii)) for ii in source_variable.shape]):
                 # slc = [slice(s, s + 1) for s in slc]
-- 
2.43.0


From 3169ef0cfcc741020ccf114370d92f498efb855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 013/162] fix: a spatial mask does not unmask missing data on
 variables having the grid's dimensions

---
 src/ocgis/spatial/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index a22add9..1f3b141 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -1281,7 +1281,8 @@ def grid_set_geometry_variable_on_parent(func, grid, name, alloc_only=False):
 
 def grid_set_mask_cascade(grid):
     members = grid.get_member_variables(include_bounds=True)
-    grid.parent.set_mask(grid.mask_variable, exclude=members)
+    # Elements which are already masked on the target variables stay masked.
+    grid.parent.set_mask(grid.mask_variable, exclude=members, update=True)
 
 
 def expand_grid(grid):
-- 
2.43.0


From 0aa267aa69b7a012fd47a76782344be78c85ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 014/162] fix: setting part of a variable clears the mask where
 the source is not masked

---
 src/ocgis/variable/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 37bc946..f6cd64a 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -363,9 +363,11 @@ class Variable(AbstractContainer, Attributes):
         self.get_value()[slc] = variable.get_value()
 
         variable_mask = variable.get_mask()
-        if variable_mask is not None:
-            new_mask = self.get_mask(create=True)
-            new_mask[slc] = variable_mask
+        new_mask = self.get_mask(create=variable_mask is not None)
+        if new_mask is not None:
+            new_mask = new_mask.copy()
+            # If there is no mask on the source, then nothing is masked.
+            new_mask[slc] = False if variable_mask is None else variable_mask
 
         if self.has_bounds:
             names_src = get_dimension_names(self.dimensions)
@@ -373,7 +375,7 @@ class Variable(AbstractContainer, Attributes):
             slc = get_mapped_slice(slc, names_src, names_dst)
             self.bounds[slc] = variable.bounds
 
-        if variable_mask is not None:
+        if new_mask is not None:
             self.set_mask(new_mask)
 
     @property
-- 
2.43.0


From 066767aec33882c0b55efc463137bd61eff8216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 015/162] fix: deep copying a bounded variable keeps it the
 member of its parent

---
 src/ocgis/variable/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index f6cd64a..5b9613d 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -885,7 +885,12 @@ class Variable(AbstractContainer, Attributes):
                 deepcopied.__dict__ = deepcopy(deepcopied.__dict__)
             deepcopied.parent.add_variable(deepcopied, force=True)
             if deepcopied.has_bounds:
-                deepcopied.set_bounds(deepcopied.bounds.deepcopy(), force=True)
+                # Copy orphaned bounds to avoid adding copies of the other parent variables to the new parent.
+                bounds = deepcopied.bounds.copy()
+                with orphaned(bounds):
+                    bounds.__dict__ = deepcopy(bounds.__dict__)
+                bounds.parent = None
+                deepcopied.set_bounds(bounds, force=True)
 
         return deepcopied
 
-- 
2.43.0


From ba0409df9a626287cab08d048c0a6e893d00d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 016/162] fix: resolution of coordinates which change sign

---
 src/ocgis/variable/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 5b9613d..6880069 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -667,7 +667,7 @@ class Variable(AbstractContainer, Attributes):
             res_array = res_bounds[:, 1] - res_bounds[:, 0]
             ret = np.abs(res_array).mean()
         else:
-            res_array = np.diff(np.abs(self.get_value()[0:constants.RESOLUTION_LIMIT]))
+            res_array = np.diff(self.get_value()[0:constants.RESOLUTION_LIMIT])
             ret = np.abs(res_array).mean()
         return ret
 
-- 
2.43.0


From c6824ddaaff4948905f13f893d5828ed01a8342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 017/162] fix: cached dates and numeric times follow changes of
 the value and mask

---
 src/ocgis/variable/temporal.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 24471f6..3805f8f 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -732,7 +732,16 @@ class TemporalVariable(SourcedVariable):
             value = value.split('calendar=')[0].strip()
         super(TemporalVariable, self)._set_units_(value)
 
+    def set_mask(self, mask, **kwargs):
+        # The converted values carry the mask.
+        self._value_numtime = None
+        self._value_datetime = None
+        super(TemporalVariable, self).set_mask(mask, **kwargs)
+
     def set_value(self, value, **kwargs):
+        # Wipe values converted from the previous value.
+        self._value_numtime = None
+        self._value_datetime = None
         # Special handling for template units.
         if str(self.units) == 'day as %Y%m%d.%f' and self.format_time:
             value = get_datetime_from_template_time_units(value)
-- 
2.43.0


From 7200865fe53d65f749c7ace3366d9f32049945b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 018/162] fix: months-since times for any offset, order, shape
 and calendar

---
 src/ocgis/variable/temporal.py | 51 +++++++++++++---------------------
 1 file changed, 19 insertions(+), 32 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 3805f8f..7cae7bd 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -289,21 +289,20 @@ class TemporalVariable(SourcedVariable):
         """
 
         arr = np.atleast_1d(arr)
+        if self._has_months_units:
+            # Special behavior for conversion of time units with months.
+            return get_num_from_months_time_units(arr, self.units, dtype=None)
         try:
             ret = nc.date2num(arr, str(self.units), calendar=self.calendar)
         except (ValueError, TypeError):
-            # Special behavior for conversion of time units with months.
-            if self._has_months_units:
-                ret = get_num_from_months_time_units(arr, self.units, dtype=None)
-            else:
-                # Odd behavior in netcdftime objects? Try with datetime objects.
-                flat_arr = arr.flatten()
-                fill = np.zeros(flat_arr.shape, dtype=object)
-                for idx, element in enumerate(flat_arr):
-                    fill[idx] = datetime.datetime(element.year, element.month, element.day, element.hour,
-                                                  element.minute, element.second, element.microsecond)
-                fill = fill.reshape(arr.shape)
-                ret = np.atleast_1d(nc.date2num(fill, str(self.units), calendar=self.calendar))
+            # Odd behavior in netcdftime objects? Try with datetime objects.
+            flat_arr = arr.flatten()
+            fill = np.zeros(flat_arr.shape, dtype=object)
+            for idx, element in enumerate(flat_arr):
+                fill[idx] = datetime.datetime(element.year, element.month, element.day, element.hour,
+                                              element.minute, element.second, element.microsecond)
+            fill = fill.reshape(arr.shape)
+            ret = np.atleast_1d(nc.date2num(fill, str(self.units), calendar=self.calendar))
         return ret
 
     def get_report(self):
@@ -808,25 +807,12 @@ def get_datetime_from_months_time_units(vec, units, month_centroid=16):
     # only work with integer inputs
     vec = np.array(vec, dtype=int)
 
-    def _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid):
-        return datetime.datetime(current_year, (origin_month + offset_month) - current_month_correction, month_centroid)
-
     origin = get_origin_datetime_from_months_units(units)
-    origin_month = origin.month
-    current_year = origin.year
-    current_month_correction = 0
-    if vec[0] >= 12:
-        current_year += int(vec[0] / 12)
-        vec = vec - (int(vec[0] / 12) * 12)
-    ret = np.ones(len(vec), dtype=object)
-    for ii, offset_month in enumerate(vec):
-        try:
-            fill = _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid)
-        except ValueError:
-            current_month_correction += 12
-            current_year += 1
-            fill = _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid)
-        ret[ii] = fill
+    # Count months from year zero to account for offsets in any order and with any magnitude or sign.
+    months = origin.year * 12 + (origin.month - 1) + vec
+    ret = np.empty(vec.shape, dtype=object)
+    for idx, month in np.ndenumerate(months):
+        ret[idx] = datetime.datetime(int(month // 12), int(month % 12) + 1, month_centroid)
     return ret
 
 
@@ -956,8 +942,9 @@ def get_num_from_months_time_units(vec, units, dtype=None):
     """
 
     origin = get_origin_datetime_from_months_units(units)
-    ret = [get_difference_in_months(origin, target) for target in vec]
-    return np.array(ret, dtype=dtype)
+    vec = np.asarray(vec, dtype=object)
+    ret = [get_difference_in_months(origin, target) for target in vec.flat]
+    return np.array(ret, dtype=dtype).reshape(vec.shape)
 
 
 def get_origin_datetime_from_months_units(units):
-- 
2.43.0


From 47fccf7cdddb588e9d927c12c8e6e22a28e27652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 019/162] fix: get_between with return_indices failed for
 contiguous selections

---
 src/ocgis/variable/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 6880069..62d140a 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1238,6 +1238,9 @@ class Variable(AbstractContainer, Attributes):
         if not select.any():
             raise EmptySubsetError(origin=self.name)
 
+        # The selection may be converted to a slice when it is contiguous.
+        indices = np.flatnonzero(select)
+
         # Allow single-valued dimensions to be subset.
         if self.ndim == 0:
             if select[0]:
@@ -1251,8 +1254,7 @@ class Variable(AbstractContainer, Attributes):
             ret = self[select]
 
         if return_indices:
-            indices = np.arange(select.shape[0])
-            ret = (ret, indices[select])
+            ret = (ret, indices)
 
         return ret
 
-- 
2.43.0


From 64f55a9bbcd20925dda58715e0c23e747c9cc226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 020/162] fix: time regions missed months in bounds crossing a
 year end

---
 src/ocgis/util/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index b634ffe..18ee8f1 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -515,6 +515,9 @@ def get_is_date_between(lower, upper, month=None, year=None):
         if part_lower > part_upper:
             # in the case of a year overlap, increment the upper into another year by adding 12 months
             part_upper += 12
+            # months before the lower boundary's month are in the overlapped year
+            if to_test < part_lower:
+                to_test += 12
         ret = np.logical_and(to_test >= part_lower, to_test < part_upper)
     else:
         ret = np.logical_and(to_test >= part_lower, to_test <= part_upper)
-- 
2.43.0


From 29131fcad78a04316da420227c71fe030c7a6b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 021/162] fix: time range and region validation skipped months
 the range touches

---
 src/ocgis/util/helpers.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 18ee8f1..54cc622 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -1180,14 +1180,9 @@ def validate_time_subset(time_range, time_region):
                 copy_time_region[key] = None
         # Pull basic date information from the time range.
         min_range_year, max_range_year = time_range[0].year, time_range[1].year
-        delta = datetime.timedelta(days=29, hours=12)
-        months = set()
-        current = time_range[0]
-        while current <= time_range[1]:
-            current += delta
-            months.update([current.month])
-            if len(months) == 12:
-                break
+        # Collect the calendar months the time range touches.
+        first, last = [t.year * 12 + t.month - 1 for t in time_range]
+        months = set([ii % 12 + 1 for ii in range(first, min(last, first + 11) + 1)])
         # Construct boundaries from time region. first, the case of only months.
         if copy_time_region['month'] is not None and copy_time_region['year'] is None:
             month_bounds = min(copy_time_region['month']), max(copy_time_region['month'])
-- 
2.43.0


From 47c88eab6152326181921cb339eee9130099d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 022/162] fix: subset by function with nothing selected did not
 raise EmptySubsetError

---
 src/ocgis/variable/temporal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 7cae7bd..f47c38e 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -371,6 +371,10 @@ class TemporalVariable(SourcedVariable):
             bounds = None
 
         indices = np.array(func(self.value_datetime, bounds=bounds))
+        if indices.dtype == bool:
+            indices = np.flatnonzero(indices)
+        if indices.size == 0:
+            raise EmptySubsetError(origin='temporal')
         ret = self[indices]
         if return_indices:
             ret = (ret, indices)
-- 
2.43.0


From 47f7ac3b060989a4fa71d8dfc96c146a90f47699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 023/162] fix: seasons without data broke the seasonal grouping

---
 src/ocgis/variable/temporal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index f47c38e..f81d278 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -568,8 +568,13 @@ class TemporalVariable(SourcedVariable):
                     else:
                         if parts[idx, 1] in season:
                             subgroup[idx] = True
+                # There may be no data for the season.
+                if not subgroup.any():
+                    continue
                 dgroups.append(subgroup)
                 grouping_season.append([season, year])
+            if len(dgroups) == 0:
+                raise EmptySubsetError(origin='temporal')
             dtype = [('months', object), ('year', int)]
             grouping = grouping_season
 
-- 
2.43.0


From ab431a9ecff4ccc1563748079779d327f3956e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 024/162] fix: representative dates of seasons were outside the
 season or its years

---
 src/ocgis/variable/temporal.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index f81d278..9d35d97 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -659,9 +659,22 @@ class TemporalVariable(SourcedVariable):
                 if cross_months_set.issubset(r_value_months):
                     middle_index = int(np.floor(len(r_value_months) / 2))
                     center_month = r_value_months[middle_index]
+                    # The months of the season before the turn of the year. The years are the ones the season ends in.
+                    late_months = [m for m in r_value_months if set(range(m, 13)).issubset(r_value_months)]
                 else:
-                    center_month = int(np.floor(np.mean([r_bounds[0].month, r_bounds[1].month])))
-                center_year = int(np.floor(np.mean([r_bounds[0].year, r_bounds[1].year])))
+                    center_month = int(np.floor(np.mean([min(r_value_months), max(r_value_months)])))
+                    late_months = []
+                # Use the year of the group when grouped by season and year.
+                if grouping[idx][1] is not None:
+                    center_year = grouping[idx][1]
+                else:
+                    years = [b.year + (1 if b.month in late_months else 0) for b in r_bounds]
+                    # An upper bound at the turn of the year is the end of the previous year's season.
+                    if years[1] > years[0] and r_bounds[1].month < min(r_value_months):
+                        years[1] -= 1
+                    center_year = int(np.floor(np.mean(years)))
+                    if center_month in late_months:
+                        center_year -= 1
                 fill = get_datetime_or_netcdftime(center_year, center_month, constants.CALC_MONTH_CENTROID)
                 ret[idx] = fill
         return ret
-- 
2.43.0


From 6863a2a821957273d0eab561d89d07cf75b9b70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 025/162] fix: unique season groups ignored time bounds

---
 src/ocgis/variable/temporal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 9d35d97..9d0e73c 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -705,7 +705,8 @@ class TemporalVariable(SourcedVariable):
                                                                  raise_if_incomplete=False):
             dgroups.append(dgroup)
             sub_value_datetime = sub.value_datetime
-            new_bounds = np.vstack((new_bounds, [min(sub_value_datetime), max(sub_value_datetime)]))
+            # Bounds are given preference.
+            new_bounds = np.vstack((new_bounds, sub.extent_datetime))
             repr_dt = np.append(repr_dt, sub_value_datetime[int(sub.shape[0] / 2)])
         # no date parts yet...
         date_parts = None
-- 
2.43.0


From af3013d5d812f30d6c6ecd3c4c8ae8d097c77cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 026/162] fix: unique seasons joined non-consecutive years and
 removed the wrong regions

---
 src/ocgis/variable/temporal.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 9d0e73c..ea5b7c4 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -1044,7 +1044,7 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
         interannual_check = [False]
     if any(interannual_check):
         # loop over years first to ensure each year is accounted for in the time region output
-        for ii_year, year in enumerate(years):
+        for year in years:
             # the interannual flag is used internally for simple optimization
             for ic, cg in zip(interannual_check, seasons):
                 # if no exception is raised for an incomplete season, this flag indicate whether to append to the output
@@ -1062,12 +1062,12 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
                     # will hold the sub-element time regions
                     sub_time_region = []
                     for ii_split, s in enumerate(split):
-                        try:
-                            to_append_sub = {'year': [years[ii_year + ii_split]], 'month': s.tolist()}
+                        if year + ii_split in years:
+                            to_append_sub = {'year': [year + ii_split], 'month': s.tolist()}
                             sub_time_region.append(to_append_sub)
                         # there may not be another year of data for an interannual season. we DO NOT keep incomplete
                         # seasons.
-                        except IndexError:
+                        else:
                             # don't just blow through an incomplete season unless asked to
                             if raise_if_incomplete:
                                 raise IncompleteSeasonError(None, None, None)
@@ -1092,8 +1092,7 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
                 td.get_time_region(sub_time_region)
         except EmptySubsetError:
             remove.append(idx)
-    for xx in remove:
-        time_regions.pop(xx)
+    time_regions = [tr for idx, tr in enumerate(time_regions) if idx not in remove]
 
     return time_regions
 
-- 
2.43.0


From b83b4722f60c935a4c7cffab17007a9797d611ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 027/162] fix: time regions ignored steps whose bounds are in
 descending order

---
 src/ocgis/variable/temporal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index ea5b7c4..4a85391 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -419,7 +419,8 @@ class TemporalVariable(SourcedVariable):
         for idx_row in range(select.shape[0]):
             # do the comparison for each time_region element.
             if use_bounds:
-                row = bounds[idx_row, :]
+                # The earlier date is not always the first.
+                row = sorted(bounds[idx_row, :])
             else:
                 row = value[idx_row]
             for ii, (k, v) in enumerate(time_region.items()):
-- 
2.43.0


From ab64e9f246864bf23f360c571241dbddcc5dbbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 028/162] fix: spatial averages of all masked data were
 unmasked and integers truncated

---
 src/ocgis/variable/geom.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index ab6972b..ec3f85c 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -981,6 +981,9 @@ class GeometryVariable(AbstractSpatialVariable):
                     target = ret.parent[var_to_weight.name]
                     target.set_mask(None)
                     target._value = None
+                    if np.issubdtype(target.dtype, np.integer):
+                        # Averages of integers are not integers.
+                        target.dtype = float
                     target.set_dimensions(new_dimensions)
                     target.allocate_value()
 
@@ -1007,7 +1010,13 @@ class GeometryVariable(AbstractSpatialVariable):
                         if should_squeeze:
                             data_to_weight = np_squeeze(data_to_weight, axis=tuple(squeeze_out))
                         weighted_value = np_atleast_1d(np_ma_average(data_to_weight, weights=weights))
-                        target[w_slc].get_value()[:] = weighted_value
+                        target_sub = target[w_slc]
+                        target_sub.get_value()[:] = np.ma.getdata(weighted_value)
+                        if np.ma.is_masked(weighted_value):
+                            # There is no data to average.
+                            target_mask = target.get_mask(create=True)
+                            target_mask[tuple(w_slc.get(dim.name, slice_none) for dim in new_dimensions)] = True
+                            target.set_mask(target_mask)
                 else:
                     target_to_weight = var_to_weight.get_masked_value()
                     # Sort to minimize floating point sum errors.
@@ -1021,6 +1030,8 @@ class GeometryVariable(AbstractSpatialVariable):
                     target = ret.parent[var_to_weight.name]
                     target.set_mask(None)
                     target._value = None
+                    if np.issubdtype(target.dtype, np.integer):
+                        target.dtype = float
                     target.set_dimensions(new_dimensions)
                     target.set_value(weighted_value)
 
-- 
2.43.0


From f82946c77c685b1b88422a34f20d9adf9ec03655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 029/162] fix: percentiles used the data under the mask

---
 src/ocgis/calc/library/statistics.py | 34 ++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index 42629ae..0375d20 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -9,6 +9,31 @@ from ocgis.calc.base import AbstractUnivariateFunction, AbstractParameterizedFun
 from ocgis.exc import DefinitionValidationError
 
 
+def get_percentile(values, percentile):
+    """
+    Compute the percentile along the first axis ignoring masked elements. Elements without data are masked.
+
+    :param values: Array containing variable values.
+    :type values: :class:`numpy.ma.core.MaskedArray`
+    :param float percentile: Percentile to compute.
+    :rtype: :class:`numpy.ma.core.MaskedArray`
+    """
+    mask = np.ma.getmaskarray(values)
+    data = np.ma.getdata(values)
+    if data.dtype.kind != 'f':
+        # Avoid overflow when interpolating.
+        data = data.astype(float)
+    no_data = mask.all(axis=0)
+    if mask.any():
+        data = np.where(mask, np.nan, data)
+        # Avoid empty slices.
+        data[:, no_data] = 0
+        ret = np.nanpercentile(data, percentile, axis=0)
+    else:
+        ret = np.percentile(data, percentile, axis=0)
+    return np.ma.array(ret, mask=no_data)
+
+
 class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
     key = 'moving_window'
     parms_definition = {'k': int, 'mode': str, 'operation': str}
@@ -229,10 +254,7 @@ class DailyPercentile(base.AbstractUnivariateFunction, base.AbstractParameterize
                 arr_subset = arr[indices_non_masked, :, :]
 
                 # step5: we compute the percentile for current arr_subset
-                ############## WARNING: type(arr_subset) = numpy.ndarray. Numpy.percentile does not work with masked arrays,
-                ############## so if arr_subset has aberrant values like 999999 or 1e+20, the result will be wrong.
-                ############## Check with numpy.nanpercentile (Numpy version 1.9) !!!
-                arr_percentille_current_calday = np.percentile(arr_subset, percentile, axis=0)
+                arr_percentille_current_calday = get_percentile(arr_subset, percentile)
 
                 # step6: we add to the dictionnary...
                 percentile_dict[month, day] = arr_percentille_current_calday
@@ -366,9 +388,7 @@ class FrequencyPercentile(base.AbstractUnivariateSetFunction, base.AbstractParam
         :type percentile: float on the interval [0,100]
         """
 
-        ret = np.percentile(values, percentile, axis=0)
-        ret = np.ma.array(ret, mask=values.mask[0, :, :])
-        return ret
+        return get_percentile(values, percentile)
 
 
 class Max(base.AbstractUnivariateSetFunction):
-- 
2.43.0


From 7d97a3ffbf6d3a124dcc38b75308bb3d1a70b348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 030/162] fix: moving windows lost masks and truncated integers

---
 src/ocgis/calc/library/statistics.py | 29 +++++++---------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index 0375d20..96a3019 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -68,36 +68,23 @@ class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
         assert values.ndim == 5
         assert operation in self._potential_operations
 
-        operation = getattr(np, operation)
+        operation = getattr(np.ma, operation)
 
-        fill = values.copy()
+        if np.issubdtype(values.dtype, np.floating):
+            dtype = values.dtype
+        else:
+            dtype = float
+        # Steps without a window are masked.
+        fill = np.ma.array(np.zeros(values.shape, dtype=dtype), mask=True)
 
         # perform the moving average on the time axis
         axes = [0, 2]
         itrs = [list(range(values.shape[axis])) for axis in axes]
         for ie, il in itertools.product(*itrs):
             values_slice = values[ie, :, il, :, :]
-            build = True
             for origin, values_kernel in self._iter_kernel_values_(values_slice, k, mode=mode):
-                if build:
-                    # if only the valid region is returned, this index will determine where the start index for the
-                    # field/fill slice is
-                    idx_start = origin
-                    build = False
                 fill[ie, origin, il, :, :] = operation(values_kernel, axis=0)
 
-        if mode == 'valid':
-            # slice the field and fill arrays
-            # self.field = self.field[:, idx_start:origin + 1, :, :, :]
-            # Mask the invalid regions.
-            fill.mask[:] = True
-            fill.mask[:, idx_start:origin + 1, :, :, :] = False
-            # self._finalize_slice = [slice(None), slice(idx_start, origin + 1), slice(None), slice(None), slice(None)]
-        elif mode == 'same':
-            pass
-        else:
-            raise NotImplementedError(mode)
-
         return fill
 
     @classmethod
@@ -191,8 +178,6 @@ class DailyPercentile(base.AbstractUnivariateFunction, base.AbstractParameterize
         month_day_map = {(dt.month, dt.day): ii for ii, dt in enumerate(self.tgd.value_datetime)}
         for key, value in dp.items():
             fill[0, month_day_map[key], 0, :, :] = value
-        for idx in range(fill.shape[1]):
-            fill.mask[0, idx, 0, :, :] = values.mask[0, 0, 0, :, :]
         return fill
 
     @staticmethod
-- 
2.43.0


From ea1a1fb0f6ecb1630e7328f04faca47de6700a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 031/162] fix: convolution lost masks and cast its weights

---
 src/ocgis/calc/library/math.py | 49 ++++++++++------------------------
 1 file changed, 14 insertions(+), 35 deletions(-)

diff --git a/src/ocgis/calc/library/math.py b/src/ocgis/calc/library/math.py
index 310954e..8a14505 100644
--- a/src/ocgis/calc/library/math.py
+++ b/src/ocgis/calc/library/math.py
@@ -1,7 +1,8 @@
+import itertools
+
 import numpy as np
 
 from ocgis.calc import base
-from ocgis.util.helpers import iter_array
 
 
 class Divide(base.AbstractMultivariateFunction):
@@ -69,41 +70,19 @@ class Convolve1D(base.AbstractUnivariateFunction, base.AbstractParameterizedFunc
         assert (mode in ('same', 'valid'))
         assert (len(values.shape) == 5)
 
-        # just to be safe, convert the second array to the same input data types as the values
-        v = v.astype(values.dtype)
-
-        # valid will have less values than the input as this checks if the two convolved arrays completely overlap
-        shape_fill = list(values.shape)
-        # if mode == 'valid':
-        #     shape_fill[1] = max(values.shape[1], v.shape[0]) - min(values.shape[1], v.shape[0]) + 1
-        fill = np.zeros(shape_fill, dtype=self.dtype)
-
-        # perform the convolution on the time axis
-        itr = iter_array(values)
-        for ie, it, il, ir, ic in itr:
-            a = values[ie, :, il, ir, ic]
-            res_convolve = np.convolve(a, v, mode=mode)
-            if mode == 'valid':
-                time_slice = slice(0, max(values.shape[1], v.shape[0]) - min(values.shape[1], v.shape[0]) + 1)
-                # fill[ie, :, il, ir, ic] = res_convolve
-            else:
-                time_slice = slice(None)
-            fill[ie, time_slice, il, ir, ic] = res_convolve
-
+        # valid will have less values than the input as the two convolved arrays completely overlap. the remaining
+        # elements are masked.
         if mode == 'valid':
-            # generate the mask for the output data and convert the output to a masked array
-            mask = np.empty(fill.shape, dtype=bool)
-            mask[...] = values.mask[0, 0, 0, :, :]
-            fill = np.ma.array(fill, mask=mask)
-
-            # identify where the two arrays completely overlap and collect the indices to subset the field object
-            # attached to the calculation object
-            overlap_mask = np.ones(mask.shape, dtype=bool)
-            overlap_mask[:, slice(0, 0 - (v.shape[0] - 1)), :, :, :] = False
-            fill.mask[:] = np.logical_or(fill.mask, overlap_mask)
-            # self.field = self.field[:, slice(0, 0-(v.shape[0]-1)), :, :, :]
+            time_slice = slice(0, max(values.shape[1] - v.shape[0] + 1, 0))
         else:
-            # same does not modify the output array size
-            fill = np.ma.array(fill, mask=values.mask)
+            time_slice = slice(None)
+        fill = np.ma.array(np.zeros(values.shape, dtype=self.dtype), mask=True)
+
+        # perform the convolution on the time axis
+        for ie, il, ir, ic in itertools.product(*[list(range(values.shape[ii])) for ii in (0, 2, 3, 4)]):
+            if fill[ie, time_slice, il, ir, ic].size > 0:
+                # masked elements are propagated
+                res = np.ma.convolve(values[ie, :, il, ir, ic], v, mode=mode)
+                fill[ie, time_slice, il, ir, ic] = np.ma.array(res.filled(0), mask=np.ma.getmaskarray(res))
 
         return fill
-- 
2.43.0


From 5f2af01b63362d276d481a777ddd131c8088e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 032/162] fix: the heat index modified the masks of its inputs

---
 src/ocgis/calc/library/index/heat_index.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/calc/library/index/heat_index.py b/src/ocgis/calc/library/index/heat_index.py
index ea273ca..f2dc20d 100644
--- a/src/ocgis/calc/library/index/heat_index.py
+++ b/src/ocgis/calc/library/index/heat_index.py
@@ -23,10 +23,9 @@ class HeatIndex(base.AbstractMultivariateFunction):
         c8 = 8.5282e-4
         c9 = -1.99e-6
 
-        idx = tas < 80
-        tas.mask = np.logical_or(idx, tas.mask)
-        idx = rhs < 40
-        rhs.mask = np.logical_or(idx, rhs.mask)
+        # The input arrays must not be modified.
+        tas = np.ma.masked_where(tas < 80, tas)
+        rhs = np.ma.masked_where(rhs < 40, rhs)
 
         tas_sq = np.square(tas)
         rhs_sq = np.square(rhs)
-- 
2.43.0


From af82516b546542b54c42cbcea44d28536f28329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 033/162] fix: freeze-thaw assumed the name of the time
 variable and one unit for all variables

---
 src/ocgis/calc/library/index/freeze_thaw.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/calc/library/index/freeze_thaw.py b/src/ocgis/calc/library/index/freeze_thaw.py
index 6f6f730..fcd0049 100644
--- a/src/ocgis/calc/library/index/freeze_thaw.py
+++ b/src/ocgis/calc/library/index/freeze_thaw.py
@@ -26,18 +26,18 @@ class FreezeThaw(base.AbstractUnivariateSetFunction, base.AbstractParameterizedF
         assert (len(values.shape) == 3)
 
         # Check temporal resolution
-        t = self.field['time'].get_value()[:2]
+        t = self.field.time.get_value()[:2]
         step = t[1] - t[0]
         if type(step) == dt.timedelta:
             assert step == dt.timedelta(days=1)
         else:
-            if self.field['time'].units.startswith('days'):
+            if self.field.time.units.startswith('days'):
                 assert step == 1
             else:
                 raise NotImplementedError
 
         # Unit conversion
-        units = self.field.data_variables[0].units
+        units = self._curr_variable.units
         if get_are_units_equal_by_string_or_cfunits(units, 'C',
                                                     try_cfunits=env.USE_CFUNITS):
             tas = values
-- 
2.43.0


From de8f61e74d2c61edb9a9776fe164bc1c0f7a84e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 034/162] fix: durations counted masked steps and ignored part
 of the runs

---
 src/ocgis/calc/library/index/duration.py | 44 +++++++-----------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/src/ocgis/calc/library/index/duration.py b/src/ocgis/calc/library/index/duration.py
index 0daa662..6232b6b 100644
--- a/src/ocgis/calc/library/index/duration.py
+++ b/src/ocgis/calc/library/index/duration.py
@@ -35,28 +35,16 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
 
         # find longest sequence for each geometry across time dimension
         for ii, fill in enumerate(self._iter_consecutive_(values, threshold, operation)):
-            # case of only a singular occurrence
-            if len(fill) > 1:
-                fill = summary_operation(fill)
-            else:
-                try:
-                    fill = fill[0]
-                # value is likely masked
-                except IndexError:
-                    fill = 0
-            store[ii] = fill
+            store[ii] = summary_operation(fill)
 
         store.resize(shp_out)
 
-        # update the output mask. this only applies to geometries so pick the
-        # first masked time field
-        store = np.ma.array(store, mask=values.mask[0, :, :])
+        # elements without any data are masked
+        store = np.ma.array(store, mask=np.ma.getmaskarray(values).all(axis=0))
 
         return store
 
     def _iter_consecutive_(self, values, threshold, operation):
-        # time index reference
-        ref = np.arange(0, values.shape[0])
         # perform requested logical operation
         if operation == 'gt':
             arr = values > threshold
@@ -67,23 +55,17 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
         elif operation == 'lte':
             arr = values <= threshold
 
+        # masked elements are not an occurrence
+        arr = np.ma.filled(arr, False)
+
         # find longest sequence for each geometry across time dimension
         for rowidx, colidx in iter_array(values[0, :, :], use_mask=False):
-            vec = arr[:, rowidx, colidx].reshape(-1)
-            # check first if there is a longer series than 1
-            if np.any(np.diff(ref[vec]) == 1):
-                # find locations where the values switch
-                diff_idx = np.diff(vec)
-                if diff_idx.shape != ref.shape:
-                    diff_idx = np.append(diff_idx, [False])
-                split_idx = ref[diff_idx] + 1
-                splits = np.array_split(vec, split_idx)
-                fill = [a.sum() for a in splits if np.all(a)]
-            # case of only a singular occurrence
-            elif np.any(vec):
-                fill = [1]
+            vec = arr[:, rowidx, colidx].astype(int)
+            # find locations where the values switch
+            switch = np.diff(np.concatenate([[0], vec, [0]]))
+            fill = (np.where(switch == -1)[0] - np.where(switch == 1)[0]).tolist()
             # case for no occurrence
-            else:
+            if len(fill) == 0:
                 fill = [0]
 
             yield (fill)
@@ -119,8 +101,8 @@ class FrequencyDuration(base.AbstractKeyedOutputFunction, Duration):
             store[ii] = summary
         store.resize(shp_out)
 
-        # Update the output mask. this only applies to geometries so pick the first masked time field
-        store = np.ma.array(store, mask=values.mask[0, :, :])
+        # Elements without any data are masked
+        store = np.ma.array(store, mask=np.ma.getmaskarray(values).all(axis=0))
 
         return store
 
-- 
2.43.0


From 05c5ae53b79939655caca4f3751c807aa0254e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 035/162] fix: calendar day percentiles changed the time groups
 of other functions

---
 src/ocgis/calc/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/calc/engine.py b/src/ocgis/calc/engine.py
index 29ee0c7..7995c46 100644
--- a/src/ocgis/calc/engine.py
+++ b/src/ocgis/calc/engine.py
@@ -89,6 +89,8 @@ class CalculationEngine(object):
                               'optimizations are incorrect?'
                         ocgis_lh(logger='calc.engine', exc=ValueError(msg))
 
+                # Functions creating their own temporal aggregation must not affect the other functions.
+                function_tgd = new_temporal
                 out_vc = VariableCollection()
 
                 for f in self.funcs:
@@ -96,7 +98,7 @@ class CalculationEngine(object):
                         ocgis_lh('Calculating: {0}'.format(f['func']), logger='calc.engine')
                         # Initialize the function.
                         function = f['ref'](alias=f['name'], dtype=None, field=field, file_only=file_only, vc=out_vc,
-                                            parms=f['kwds'], tgd=new_temporal, calc_sample_size=self.calc_sample_size,
+                                            parms=f['kwds'], tgd=function_tgd, calc_sample_size=self.calc_sample_size,
                                             meta_attrs=f.get('meta_attrs'),
                                             spatial_aggregation=self.spatial_aggregation)
                         # Allow a calculation to create a temporal aggregation after initialization.
-- 
2.43.0


From e77223f06709c89b4995a135121eb1aaf22edb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 036/162] fix: spatially aggregated groups without data were
 unmasked

---
 src/ocgis/calc/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index 5285ce7..0d2ea5f 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -499,7 +499,8 @@ class AbstractFunction(AbstractOcgisObject):
                     if self.spatial_aggregation:
                         # Weights are not currently conformed so should not be used.
                         res = self.aggregate_spatial(res, None)
-                        carr_fill.data[ir, it, il, :, :] = res
+                        carr_fill.data[ir, it, il, :, :] = np.ma.getdata(res)
+                        carr_fill.mask[ir, it, il, :, :] = np.ma.getmaskarray(res)
                     else:
                         try:
                             carr_fill.data[ir, it, il, :, :] = res.data
-- 
2.43.0


From 517e86e2beecd5674030de75f9f14c36c6c65928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 037/162] fix: calculations on integers were truncated or
 overflowed

---
 src/ocgis/calc/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index 0d2ea5f..ddcfd3c 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -200,7 +200,8 @@ class AbstractFunction(AbstractOcgisObject):
         # If a default data type was provided at initialization, use this value otherwise use the data type from the
         # input value.
         if dtype is None:
-            if self.dtype is None:
+            # Results of calculations on integers are not necessarily integers or may not fit the input type.
+            if self.dtype is None and not np.issubdtype(archetype.dtype, np.integer):
                 dtype = archetype.dtype
             else:
                 dtype = self.get_default_dtype()
-- 
2.43.0


From 240228290435eb2190f1091a23760e5270fa7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 038/162] fix: string expressions next to functions were
 validated by the order of the list

---
 src/ocgis/ops/core.py             | 13 +++++++------
 src/ocgis/ops/parms/definition.py | 30 ++++++++++++++++--------------
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/ocgis/ops/core.py b/src/ocgis/ops/core.py
index 3168c7b..bc17c5c 100644
--- a/src/ocgis/ops/core.py
+++ b/src/ocgis/ops/core.py
@@ -3,6 +3,7 @@ from ocgis.base import AbstractOcgisObject
 from ocgis.conv.meta import MetaOCGISConverter
 from ocgis.ops.engine import OperationsEngine
 from ocgis.ops.interpreter import OcgInterpreter
+from ocgis.calc.eval_function import EvalFunction
 from ocgis.ops.parms.base import AbstractParameter
 from ocgis.ops.parms.definition import *
 from ocgis.util.addict import Dict
@@ -407,10 +408,10 @@ class OcgOperations(AbstractOcgisObject):
         # validate any calculations against the operations object. if the calculation is a string eval function do not
         # validate.
         if self.calc is not None:
-            if self._get_object_('calc')._is_eval_function:
-                if self.calc_grouping is not None:
-                    msg = 'Calculation groups are not applicable for string function expressions.'
-                    _raise_(msg, obj=CalcGrouping)
-            else:
-                for c in self.calc:
+            for c in self.calc:
+                if issubclass(c['ref'], EvalFunction):
+                    if self.calc_grouping is not None:
+                        msg = 'Calculation groups are not applicable for string function expressions.'
+                        _raise_(msg, obj=CalcGrouping)
+                else:
                     c['ref'].validate(self)
diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 11c9cf0..eb44571 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -277,20 +277,22 @@ class Calc(base.IterableParameter, base.AbstractParameter):
         return ret
 
     def _validate_(self, value):
-        if not self._is_eval_function:
-            # get the aliases of the calculations
-            aliases = [ii['name'] for ii in value]
-
-            if len(aliases) != len(set(aliases)):
-                raise DefinitionValidationError(self, 'User-provided calculation aliases must be unique: {0}'.format(
-                    aliases))
-
-            for v in value:
-                if set(v.keys()) != self._required_keys_final:
-                    msg = 'Required keys are: {0}'.format(self._required_keys_final)
-                    raise DefinitionValidationError(self, msg)
-                # run class-level definition
-                v[constants.CALC_KEY_CLASS_REFERENCE].validate_definition(v)
+        # string expressions do not have an alias
+        value = [ii for ii in value if not issubclass(ii['ref'], EvalFunction)]
+
+        # get the aliases of the calculations
+        aliases = [ii['name'] for ii in value]
+
+        if len(aliases) != len(set(aliases)):
+            raise DefinitionValidationError(self, 'User-provided calculation aliases must be unique: {0}'.format(
+                aliases))
+
+        for v in value:
+            if set(v.keys()) != self._required_keys_final:
+                msg = 'Required keys are: {0}'.format(self._required_keys_final)
+                raise DefinitionValidationError(self, msg)
+            # run class-level definition
+            v[constants.CALC_KEY_CLASS_REFERENCE].validate_definition(v)
 
 
 class CalcGrouping(base.IterableParameter, base.AbstractParameter):
-- 
2.43.0


From e467f00919ab0f51bf5befe9afeb74af484cb59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 039/162] fix: strings in calculation lists were not parsed

---
 src/ocgis/ops/parms/definition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index eb44571..83bbf8e 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -159,6 +159,10 @@ class Calc(base.IterableParameter, base.AbstractParameter):
         return ret
 
     def _parse_(self, value):
+        # strings in sequences are not parsed yet
+        if isinstance(value, six.string_types):
+            value = self._parse_string_(value)
+
         # test if the value is an eval function and set internal flag
         if '=' in value:
             self._is_eval_function = True
-- 
2.43.0


From 2620f36a213e1fbbdf21f49bc75ade85a17e8516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 040/162] fix: multivariate expressions failed for datasets
 sharing a file

---
 src/ocgis/ops/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index e008936..b97945f 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -223,7 +223,9 @@ class OperationsEngine(AbstractOcgisObject):
                         is_data = False
                     for mvar in vitr:
                         mvar = mvar.extract()
-                        field[0].add_variable(mvar, is_data=is_data)
+                        # The variable may be an auxiliary variable in the target if the datasets share a file.
+                        force = is_data and mvar.name not in [dv.name for dv in field[0].data_variables]
+                        field[0].add_variable(mvar, is_data=is_data, force=force)
                     new_field_name = '_'.join([str(f.name) for f in field])
                     field[0].set_name(new_field_name)
 
-- 
2.43.0


From 57b247bd2491c654a2b534caf8cd3cc0997b63d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 041/162] fix: expressions rewrote names inside other names

---
 src/ocgis/calc/eval_function.py | 87 +++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 36 deletions(-)

diff --git a/src/ocgis/calc/eval_function.py b/src/ocgis/calc/eval_function.py
index ecc3b7a..fe4b383 100644
--- a/src/ocgis/calc/eval_function.py
+++ b/src/ocgis/calc/eval_function.py
@@ -6,6 +6,23 @@ from ocgis import constants
 from ocgis.calc.base import AbstractUnivariateFunction
 
 
+# Matches numbers (including exponents), variable aliases and function names in expressions.
+_RE_OPERAND = re.compile(r'(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?(?![A-Za-z0-9_])|[A-Za-z0-9_]+')
+
+
+def _is_number(operand):
+    try:
+        float(operand)
+    except ValueError:
+        return False
+    else:
+        return operand[0] in '.0123456789'
+
+
+def _get_expression_names(expr):
+    return set([s for s in _RE_OPERAND.findall(expr) if not _is_number(s)])
+
+
 class EvalFunction(AbstractUnivariateFunction):
     """
     A function that parses and evaluates string representations of calculations. If ``file_only`` is ``True``, the
@@ -47,17 +64,26 @@ class EvalFunction(AbstractUnivariateFunction):
             # map_vars[variable.alias] = '_exec_' + variable.alias + '.value'
         # parse the string filling in the local variable names
         expr, out_variable_name = self._get_eval_string_(self.expr, map_vars)
+        expr_names = _get_expression_names(expr)
         # update the output alias and key used to create the variable collection later
         self.alias, self.key = out_variable_name, out_variable_name
 
+        # Only the variables in the expression are needed.
+        keys = [k for k in map_vars.keys() if map_vars[k] in expr_names]
+        if len(keys) == 0:
+            keys = list(map_vars.keys())
+
         # Construct conformed array iterator.
-        keys = list(map_vars.keys())
         crosswalks = [self._get_dimension_crosswalk_(calculation_targets[k]) for k in keys]
         variable_shapes = [calculation_targets[k].shape for k in keys]
         arrs = [self.get_variable_value(calculation_targets[k]) for k in keys]
         archetype = calculation_targets[keys[0]]
-        fill = self.get_fill_variable(archetype, self.alias, archetype.dimensions, self.file_only,
-                                      dtype=archetype.dtype)
+        # The data type is determined by the NumPy operations. Integers may not hold fill values.
+        dtypes = {map_vars[k]: np.ma.zeros((0,), dtype=calculation_targets[k].dtype) for k in keys}
+        dtype = np.ma.getdata(eval(expr, {'np': np}, dtypes)).dtype
+        if not np.issubdtype(dtype, np.floating):
+            dtype = self.get_default_dtype()
+        fill = self.get_fill_variable(archetype, self.alias, archetype.dimensions, self.file_only, dtype=dtype)
         fill.units = None
 
         if not self.file_only:
@@ -67,12 +93,12 @@ class EvalFunction(AbstractUnivariateFunction):
                     for idx in range(len(crosswalks))]
 
             for yld in zip(*itrs):
-                for idx in range(len(keys)):
-                    locals()[map_vars[keys[idx]]] = yld[idx][0]
-                res = eval(expr)
+                to_exec = {map_vars[keys[idx]]: yld[idx][0] for idx in range(len(keys))}
+                res = eval(expr, {'np': np}, to_exec)
                 carr_fill = yld[0][1]
-                carr_fill.data[:] = res.data
-                carr_fill.mask[:] = res.mask
+                carr_fill.data[:] = np.ma.getdata(res)
+                carr_fill.mask[:] = np.ma.getmaskarray(res)
+            fill.set_value(arr_fill)
 
         self._add_to_collection_({'fill': fill})
 
@@ -90,8 +116,7 @@ class EvalFunction(AbstractUnivariateFunction):
         # do not count the output variable name
         expr = expr.split('=')[1]
         # count the number of variable names in the right hand side of the string expression.
-        strings = set(re.findall("[A-Za-z0-9_]+", expr))
-        strings = set([s for s in strings if re.search("[A-Za-z]", s) is not None])
+        strings = _get_expression_names(expr)
         strings_left = deepcopy(strings)
         for s in strings:
             if s in constants.ENABLED_NUMPY_UFUNCS:
@@ -120,10 +145,6 @@ class EvalFunction(AbstractUnivariateFunction):
         :raises ValueError:
         """
 
-        # standard arithmetic mathematical operators
-        math_set = '[(\-+*/)]'
-        # regular expressions use to find the variable aliases
-        re_expr_base = ['{1}{0}{1}', '^{0}{1}', '{1}{0}$', '^{0}$', '{1}{0},']
         # attempt to split the expression at the equals sign.
         try:
             out_variable_name, expr = expr.split('=')
@@ -131,8 +152,7 @@ class EvalFunction(AbstractUnivariateFunction):
             msg = 'Unable to parse expression string: "{0}". The equals sign is likely missing.'
             raise ValueError(msg.format(expr))
         # find the variable aliases and function names in the string expression
-        strings = set(re.findall("[A-Za-z0-9_]+", expr))
-        strings = set([s for s in strings if re.search("[A-Za-z]", s) is not None])
+        strings = _get_expression_names(expr)
         # "strings" must be entirely composed of enabled numpy functions and the variable aliases originating from the
         # keys in "map_vars"
         for s in strings:
@@ -140,26 +160,21 @@ class EvalFunction(AbstractUnivariateFunction):
                 raise ValueError('Unable to parse expression string: "{0}". '
                                  'Ensure the NumPy functions are enabled and appropriate '
                                  'variables have been requested. The problem string value is "{1}".'.format(expr, s))
-        # update the names of the numpy functions to use the module prefix "np"
-        for np_func in constants.ENABLED_NUMPY_UFUNCS:
-            expr = expr.replace(np_func, 'np.' + np_func)
-        # update the variable aliases to match the key-value relationship in "map_vars"
-        max_ctr = len(expr)
-        for k, v in map_vars.items():
-            for r in re_expr_base:
-                re_expr = r.format(k, math_set)
-                ctr = 0
-                while True:
-                    def repl(mo):
-                        return mo.group(0).replace(k, v)
-
-                    expr = re.sub(re_expr, repl, expr)
-                    if re.search(re_expr, expr) is None:
-                        break
-                    ctr += 1
-                    if ctr > max_ctr:
-                        break
-        return expr, out_variable_name
+
+        def repl(mo):
+            name = mo.group(0)
+            if _is_number(name):
+                ret = name
+            elif name in map_vars:
+                # update the variable aliases to match the key-value relationship in "map_vars"
+                ret = map_vars[name]
+            else:
+                # update the names of the numpy functions to use the module prefix "np"
+                ret = 'np.' + name
+            return ret
+
+        expr = _RE_OPERAND.sub(repl, expr)
+        return expr, out_variable_name.strip()
 
     def _set_derived_variable_alias_(self, *args, **kwargs):
         pass
-- 
2.43.0


From cbcd3143a31356334b3032be0d8a3f708c66359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 042/162] fix: every string expression computed the first one

---
 src/ocgis/calc/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/calc/engine.py b/src/ocgis/calc/engine.py
index 7995c46..cd2fb01 100644
--- a/src/ocgis/calc/engine.py
+++ b/src/ocgis/calc/engine.py
@@ -106,8 +106,8 @@ class CalculationEngine(object):
                             new_temporal = function.tgd.extract()
                     except KeyError:
                         # Likely an eval function which does not have the name key.
-                        function = EvalFunction(field=field, file_only=file_only, vc=out_vc, expr=self.funcs[0]['func'],
-                                                meta_attrs=self.funcs[0].get('meta_attrs'))
+                        function = EvalFunction(field=field, file_only=file_only, vc=out_vc, expr=f['func'],
+                                                meta_attrs=f.get('meta_attrs'))
 
                     ocgis_lh('calculation initialized', logger='calc.engine', level=logging.DEBUG)
 
-- 
2.43.0


From 84c4ae598e9c2ebb4b6bd3cb56510108ced1b603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 043/162] fix: tiled computation failed for calculations on
 several variables

---
 src/ocgis/util/large_array.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ocgis/util/large_array.py b/src/ocgis/util/large_array.py
index db2d24c..0d693d9 100644
--- a/src/ocgis/util/large_array.py
+++ b/src/ocgis/util/large_array.py
@@ -112,11 +112,7 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
         # get the shape for the tile schema
         if verbose:
             print('getting tile schema shape inputs...')
-        if ops.calc is not None:
-            shp_variable = ops.calc[0]['name']
-        else:
-            shp_variable = None
-        template_rd = ocgis.RequestDataset(uri=fill_file, variable=shp_variable)
+        template_rd = ocgis.RequestDataset(uri=fill_file)
         template_field = template_rd.get()
         shp = template_field.grid.shape
 
-- 
2.43.0


From 4a280975e24d11d06915a3589c784fdaa34321d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 044/162] fix: grid subsets missed cells larger than the
 average resolution or failed for one cell

---
 src/ocgis/spatial/grid.py | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 1f3b141..5a4a563 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -630,22 +630,18 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
             else:
                 keep_touches = False
 
-        buffer_value = None
-
         if original_mask is None:
-            if not optimized_bbox_subset:
-                buffer_value = self.resolution * 1.25
-
             if isinstance(subset_geom, BaseMultipartGeometry):
                 geom_itr = subset_geom
             else:
                 geom_itr = [subset_geom]
 
             for ctr, geom in enumerate(geom_itr):
-                if not optimized_bbox_subset:
-                    geom = geom.buffer(buffer_value).envelope
-                single_hint_mask = get_hint_mask_from_geometry_bounds(self, geom.bounds, invert=False,
-                                                                      no_touching=no_touching)
+                if optimized_bbox_subset:
+                    single_hint_mask = get_hint_mask_from_geometry_bounds(self, geom.bounds, invert=False,
+                                                                          no_touching=no_touching)
+                else:
+                    single_hint_mask = get_hint_mask_from_elements(self, geom.bounds, use_bounds=use_bounds)
 
                 if ctr == 0:
                     hint_mask = single_hint_mask
@@ -1246,7 +1242,7 @@ def get_hint_mask_from_geometry_bounds(grid, bbox, invert=True, no_touching=Fals
             for ii in range(grid.shape[0]):
                 ety[ii, :] = ty[ii]
             for jj in range(grid.shape[1]):
-                etx[:, jj] = tx[ii]
+                etx[:, jj] = tx[jj]
             tx = etx
             ty = ety
         if np.any(np.logical_and(tx, ty)):
@@ -1272,6 +1268,28 @@ def get_hint_mask_from_geometry_bounds(grid, bbox, invert=True, no_touching=Fals
     return select
 
 
+def get_hint_mask_from_elements(grid, bbox, use_bounds=True):
+    """
+    Get a boolean array which is ``True`` for every grid element (polygon or point) with an envelope intersecting the
+    bounding box.
+    """
+    minx, miny, maxx, maxy = bbox
+
+    select = []
+    for coordinate, lower, upper in [(grid.y, miny, maxy), (grid.x, minx, maxx)]:
+        if use_bounds and grid.abstraction == Topology.POLYGON and grid.has_bounds:
+            bounds = coordinate.bounds.get_value()
+            element_min, element_max = bounds.min(axis=-1), bounds.max(axis=-1)
+        else:
+            element_min = element_max = coordinate.get_value()
+        select.append(np.logical_and(element_max >= lower, element_min <= upper))
+
+    select_y, select_x = select
+    if grid.is_vectorized:
+        select_y, select_x = select_y.reshape(-1, 1), select_x.reshape(1, -1)
+    return np.logical_and(select_y, select_x)
+
+
 def grid_set_geometry_variable_on_parent(func, grid, name, alloc_only=False):
     dimensions = [d.name for d in grid.dimensions]
     ret = get_geometry_variable(func, grid, name=name, attrs={'axis': 'geom'}, alloc_only=alloc_only,
-- 
2.43.0


From 78eeddc69c95cb8692a5af07dbe4068e6d735f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 045/162] fix: the resolution of grids straddling zero was
 wrong

---
 src/ocgis/driver/nc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 5555e79..0ea652b 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -363,12 +363,12 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
             resolution_limit = constants.RESOLUTION_LIMIT
             is_vectorized = value.ndim == 1
             if is_vectorized:
-                target = np.abs(np.diff(np.abs(value[0:resolution_limit])))
+                target = np.abs(np.diff(value[0:resolution_limit]))
             else:
                 if axis == 0:
-                    target = np.abs(np.diff(np.abs(value[:, 0:resolution_limit]), axis=axis))
+                    target = np.abs(np.diff(value[:, 0:resolution_limit], axis=axis))
                 elif axis == 1:
-                    target = np.abs(np.diff(np.abs(value[0:resolution_limit, :]), axis=axis))
+                    target = np.abs(np.diff(value[0:resolution_limit, :], axis=axis))
                 else:
                     raise NotImplementedError(axis)
             ret = np.mean(target)
-- 
2.43.0


From 73ad120828bdd513c27b10479220abb11342a916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 046/162] fix: file only multivariate functions loaded all data

---
 src/ocgis/calc/base.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index ddcfd3c..75dcb58 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -843,24 +843,25 @@ class AbstractMultivariateFunction(AbstractFunction):
         fill = self.get_fill_variable(archetype, self.alias, archetype.dimensions, self.file_only,
                                       add_repeat_record_archetype_name=False)
         fill.units = self.get_output_units()
-        arr_fill = self.get_variable_value(fill)
-
-        itrs = [self._iter_conformed_arrays_(crosswalks[idx], variable_shapes[idx], arrs[idx], arr_fill, None)
-                for idx in range(len(crosswalks))]
-
-        for yld in zip(*itrs):
-            parms = {}
-            for idx in range(len(keys)):
-                parms[keys[idx]] = yld[idx][0]
-            for k, v in self.parms.items():
-                if k not in self.required_variables:
-                    parms.update({k: v})
-            res = self.calculate(**parms)
-            carr_fill = yld[0][1]
-            carr_fill.data[:] = res.data
-            carr_fill.mask[:] = res.mask
 
         if not self.file_only:
+            arr_fill = self.get_variable_value(fill)
+
+            itrs = [self._iter_conformed_arrays_(crosswalks[idx], variable_shapes[idx], arrs[idx], arr_fill, None)
+                    for idx in range(len(crosswalks))]
+
+            for yld in zip(*itrs):
+                parms = {}
+                for idx in range(len(keys)):
+                    parms[keys[idx]] = yld[idx][0]
+                for k, v in self.parms.items():
+                    if k not in self.required_variables:
+                        parms.update({k: v})
+                res = self.calculate(**parms)
+                carr_fill = yld[0][1]
+                carr_fill.data[:] = res.data
+                carr_fill.mask[:] = res.mask
+
             fill.set_value(arr_fill)
 
         if self.tgd is not None:
-- 
2.43.0


From ce8572685219289ea1b437dd9e8865174b516195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:45 +0000
Subject: [PATCH 047/162] fix: failed unit conversions changed the units

---
 src/ocgis/variable/base.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 62d140a..3b3c862 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -911,16 +911,13 @@ class Variable(AbstractContainer, Attributes):
         # Use overloaded value for source units.
         from_units = self.cfunits if from_units is None else from_units
 
-        # Get the conform value before swapping the units. Conversion inside time dimensions may be negatively affected
-        # otherwise.
-        to_conform_value = self._get_to_conform_value_()
+        # Convert the values before swapping the units. Conversion inside time dimensions may be negatively affected
+        # otherwise. Nothing is changed if the units are not compatible.
+        new_value = get_conformed_units(self._get_to_conform_value_(), from_units, to_units)
 
-        # Update the units attribute with the destination units. Do this before conversion to not enter recursion when
-        # setting the new value.
+        # Update the units attribute with the destination units. Do this before setting the new value to not enter
+        # recursion.
         self.units = to_units
-
-        # Conform the units.
-        new_value = get_conformed_units(to_conform_value, from_units, to_units)
         self._set_to_conform_value_(new_value)
 
         # Let the data type and fill value load from the value array.
-- 
2.43.0


From 43029f7b467f427ded7ae664213b4b703994d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:45 +0000
Subject: [PATCH 048/162] fix: unit conversions kept packing attributes

---
 src/ocgis/variable/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 3b3c862..f72d8af 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -924,6 +924,10 @@ class Variable(AbstractContainer, Attributes):
         self._dtype = 'auto'
         self._fill_value = 'auto'
 
+        # Packing does not apply to the conformed values.
+        for name in ('scale_factor', 'add_offset'):
+            self.attrs.pop(name, None)
+
         if self.has_bounds:
             self.bounds.cfunits_conform(to_units, from_units=from_units)
 
-- 
2.43.0


From d841c3953a6141812e1ca3f657491318e65db2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 049/162] fix: unknown units in requests raised AttributeError

---
 src/ocgis/driver/request/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/driver/request/core.py b/src/ocgis/driver/request/core.py
index 10667d2..436a6d2 100644
--- a/src/ocgis/driver/request/core.py
+++ b/src/ocgis/driver/request/core.py
@@ -554,7 +554,7 @@ def validate_units(keyword, sequence):
     try:
         list(map(get_units_object, sequence))
     except ValueError as e:
-        raise RequestValidationError(keyword, e.message)
+        raise RequestValidationError(keyword, str(e))
 
 
 def validate_unit_equivalence(src_units, dst_units):
-- 
2.43.0


From 40dfd7ab49585d3cdd1dbfde2d79f9fb438d358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 050/162] fix: units objects were not accepted for
 conform_units_to

---
 src/ocgis/driver/request/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/request/core.py b/src/ocgis/driver/request/core.py
index 436a6d2..371d957 100644
--- a/src/ocgis/driver/request/core.py
+++ b/src/ocgis/driver/request/core.py
@@ -264,7 +264,8 @@ class RequestDataset(AbstractRequestObject):
     @conform_units_to.setter
     def conform_units_to(self, value):
         if value is not None:
-            value = get_tuple(value)
+            # Units objects are not iterable.
+            value = tuple(get_iter(value))
             if len(value) != len(get_tuple(self.variable)):
                 msg = 'Must match "variable" element-wise. The sequence lengths differ.'
                 raise RequestValidationError('units', msg)
-- 
2.43.0


From 2a6508947a3db3cb40c99e07d3996592b41bb3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 051/162] fix: requested units were an object until the data
 was loaded

---
 src/ocgis/driver/nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 0ea652b..02efd39 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -606,7 +606,7 @@ def init_variable_using_metadata_for_netcdf(variable, metadata):
         # The conform units to value should be the default units value. Units will be converted on variable load.
         conform_units_to = var.get('conform_units_to')
         if conform_units_to is not None:
-            variable_attrs['units'] = conform_units_to
+            variable_attrs['units'] = str(conform_units_to)
 
 
 def get_coordinate_system_variable_name(driver_object, group_metadata):
-- 
2.43.0


From 2231de48e4878f0e03f4b40d517756dae588b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 052/162] fix: attributes of in-memory coordinates were reset
 on access

---
 src/ocgis/driver/dimension_map.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index f64903a..7bfedf1 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -541,9 +541,10 @@ class DimensionMap(AbstractOcgisObject):
                 # Default attributes are empty.
                 attrs = self._storage.__class__()
 
-        # Allow for any variable attributes.
+        # Variable attributes take precedence over the defaults. The other attributes stay with the variable only where
+        # they may change.
         if hasattr(variable, 'attrs'):
-            attrs.update(variable.attrs)
+            attrs.update([(k, v) for k, v in variable.attrs.items() if k in attrs])
 
         # Dimension map attributes always take precedence. Dimension map attrs > Variable Attributes > Default Attributes
         current_attrs = self.get_attrs(entry_key)
-- 
2.43.0


From b2eda9a7d6b978ee57b0ebd84235a1d153b25a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 053/162] fix: bounds loaded before their conformed variable
 were not conformed

---
 src/ocgis/driver/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index de51d8b..87c55e2 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -642,6 +642,14 @@ class AbstractDriver(AbstractOcgisObject):
             else:
                 from_units = meta['attrs']['units']
             variable.cfunits_conform(conform_units_to, from_units=from_units)
+        elif variable.has_initialized_parent:
+            # Bounds are conformed with the variable they belong to. Loading that variable converts its bounds.
+            for bounded in list(variable.parent.values()):
+                is_sourced = getattr(bounded, '_request_dataset', None) is not None
+                if is_sourced and bounded._bounds_name == variable.name:
+                    meta = get_variable_metadata_from_request_dataset(self, bounded)
+                    if meta.get('conform_units_to') is not None:
+                        bounded.load()
 
     @staticmethod
     def inquire_opened_state(opened_or_path):
-- 
2.43.0


From f183c2b4d2f61a4aa4bf85ce8312cd1f97ce6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 054/162] fix: selecting all geometries of a one-dimensional
 array failed

---
 src/ocgis/variable/geom.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index ec3f85c..d1dcd88 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1258,8 +1258,7 @@ def get_masking_slice(intersects_mask_value, target, apply_slice=True):
         if intersects_mask_value.all():
             local_slice = None
         elif not intersects_mask_value.any():
-            shp = intersects_mask_value.shape
-            local_slice = [(0, shp[0]), (0, shp[1])]
+            local_slice = [(0, size) for size in intersects_mask_value.shape]
         else:
             _, local_slice = get_trimmed_array_by_mask(intersects_mask_value, return_adjustments=True)
             local_slice = [(l.start, l.stop) for l in local_slice]
-- 
2.43.0


From 8c550e6179c44e9d89276b9212ecac21a4192158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 055/162] fix: spatial index evaluated touching per part of a
 multi-geometry

---
 src/ocgis/spatial/index.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ocgis/spatial/index.py b/src/ocgis/spatial/index.py
index 36b82c0..d007bed 100644
--- a/src/ocgis/spatial/index.py
+++ b/src/ocgis/spatial/index.py
@@ -53,14 +53,18 @@ class SpatialIndex(object):
             # likely not a multi-geometry
             itr = [shapely_geom]
 
+        # Prepare the geometry for faster operations. The parts of a multi-geometry only limit the candidates: whether a
+        # geometry touches is a property of the whole.
+        prepared = prep(shapely_geom)
+        r_intersects = prepared.intersects
+        r_touches = shapely_geom.touches
+        visited = set()
         for shapely_geom_sub in itr:
             # Return the initial identifiers that intersect with the bounding box using the "rtree" internal method.
-            indices = self._get_intersection_rtree_(shapely_geom_sub)
-            # Prepare the geometry for faster operations.
-            prepared = prep(shapely_geom_sub)
-            r_intersects = prepared.intersects
-            r_touches = shapely_geom_sub.touches
-            for idx in indices:
+            for idx in self._get_intersection_rtree_(shapely_geom_sub):
+                if idx in visited:
+                    continue
+                visited.add(idx)
                 geom = arr[idx]
                 if r_intersects(geom):
                     if not keep_touches:
-- 
2.43.0


From c8c6425726b2e5ee0ae5847faf25c2db679ef5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 056/162] fix: optimized bounding box subset unmasked elements

---
 src/ocgis/spatial/grid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 5a4a563..35e39be 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -663,7 +663,11 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
         if optimized_bbox_subset:
             if original_mask is not None and original_mask.any():
                 # TODO: OPTIMIZE: Can we avoid the cascade? There is no reason to cascade the mask if it is going to be sliced off anyway.
-                ret.set_mask(original_mask, cascade=True)
+                mask_to_set = original_mask
+                if original_grid_has_mask:
+                    # Elements masked before the subset stay masked.
+                    mask_to_set = np.logical_or(original_mask, ret.get_mask())
+                ret.set_mask(mask_to_set, cascade=True)
             sliced_grid, _, the_slice = get_masking_slice(original_mask, ret, apply_slice=apply_slice)
             sliced_grid_mask = sliced_grid.get_mask()
             if not original_grid_has_mask and sliced_grid_mask is not None and not sliced_grid_mask.any():
-- 
2.43.0


From 252de242eed9a0fcee7ea2a1bcfceb35cadfa53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 057/162] fix: nearest element of a grid could not be found

---
 src/ocgis/spatial/grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 35e39be..329f191 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -520,8 +520,12 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
             ret.parent = self.archetype.get_distributed_slice(slc, **kwargs).parent
         return ret
 
-    def get_nearest(self, *args, **kwargs):
-        return self.get_abstraction_geometry().get_nearest(*args, **kwargs).parent.grid
+    def get_nearest(self, target, return_indices=False):
+        _, indices = self.get_abstraction_geometry().get_nearest(target, return_indices=True)
+        ret = self[indices]
+        if return_indices:
+            ret = (ret, indices)
+        return ret
 
     def get_point(self, value=None, mask=None):
         return get_geometry_variable(self, value=value, mask=mask, use_bounds=False)
-- 
2.43.0


From 2703e188743ce02678165a1f9e60e14df2eeabc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 058/162] fix: mesh point selection lost points on degenerate
 bounds

---
 src/ocgis/spatial/geomc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index e2850e0..a3bce60 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -547,8 +547,10 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
                     z_bounds = z_coords.min(), z_coords.max()
                 else:
                     z_bounds = None
-                single_hint_mask = get_xyz_select(x, y, geom.bounds, z=z, z_bounds=z_bounds, keep_touches=keep_touches,
-                                                  no_touching=no_touching)
+                # The bounds of points and axis-parallel lines have no interior. Touching is evaluated with the geometries.
+                hint_keep_touches = keep_touches or not optimized_bbox_subset
+                single_hint_mask = get_xyz_select(x, y, geom.bounds, z=z, z_bounds=z_bounds,
+                                                  keep_touches=hint_keep_touches, no_touching=no_touching)
 
                 if ctr == 0:
                     hint_mask = single_hint_mask
-- 
2.43.0


From d2188183ed9157a340e5b16a80f92cbabf6b22a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 059/162] fix: spatial averages of transposed variables were
 wrong or failed

---
 src/ocgis/util/helpers.py  |  2 +-
 src/ocgis/variable/geom.py | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 54cc622..8c8f8d9 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -704,7 +704,7 @@ def get_swap_chain(actual, desired):
     assert set(actual) == set(desired)
     swap_ops = []
 
-    running_archetype = deepcopy(actual)
+    running_archetype = list(actual)
     for swap_src in range(len(actual)):
         if running_archetype[swap_src] != desired[swap_src]:
             swap_dst = running_archetype.index(desired[swap_src])
diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index d1dcd88..6f96236 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -970,13 +970,20 @@ class GeometryVariable(AbstractSpatialVariable):
                 # Reference the weights on the source geometry variable.
                 weights = self[{nsa: slice(None) for nsa in names_to_slice_all}].weights
 
+                # New dimensions for the spatially averaged variable. Unioned dimension is always last. Remove the
+                # dimensions aggregated by the weighted average.
+                new_dimensions = [dim for dim in var_to_weight.dimensions if dim.name not in dimension_names]
+                new_dimensions.append(union_dimension)
+
+                # Swap weight axes to make sure they align with the target variable.
+                swap_chain = get_swap_chain(dimension_names, names_to_slice_all)
+                if len(swap_chain) > 0:
+                    weights = weights.copy()
+                for sc in swap_chain:
+                    weights = weights.swapaxes(*sc)
+
                 # Path if there are iteration dimensions. Checks for axes ordering in addition.
                 if len(range_to_itr) > 0:
-                    # New dimensions for the spatially averaged variable. Unioned dimension is always last. Remove the
-                    # dimensions aggregated by the weighted average.
-                    new_dimensions = [dim for dim in var_to_weight.dimensions if dim.name not in dimension_names]
-                    new_dimensions.append(union_dimension)
-
                     # Prepare the spatially averaged variable.
                     target = ret.parent[var_to_weight.name]
                     target.set_mask(None)
@@ -987,13 +994,6 @@ class GeometryVariable(AbstractSpatialVariable):
                     target.set_dimensions(new_dimensions)
                     target.allocate_value()
 
-                    # Swap weight axes to make sure they align with the target variable.
-                    swap_chain = get_swap_chain(dimension_names, names_to_slice_all)
-                    if len(swap_chain) > 0:
-                        weights = weights.copy()
-                    for sc in swap_chain:
-                        weights = weights.swapaxes(*sc)
-
                     # The main weighting loop. Can get quite intensive with many, large iteration dimensions.
                     len_names_to_itr = len(names_to_itr)
                     slice_none = slice(None)
-- 
2.43.0


From 3bafd25c54658fef877a8dd82d4f8a28a1ef3f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 060/162] fix: intersection without a check could not return
 its slice

---
 src/ocgis/variable/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 6f96236..ba33084 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -749,9 +749,9 @@ class GeometryVariable(AbstractSpatialVariable):
                 obj = ret
         else:
             if return_slice:
-                global_slice = [(slice(d.bounds_global[0], d.bounds_global[1]) for d in self.dimensions)]
-                ret = (ret, global_slice)
+                global_slice = tuple([slice(d.bounds_global[0], d.bounds_global[1]) for d in self.dimensions])
                 obj = ret
+                ret = (ret, global_slice)
             else:
                 obj = ret
 
-- 
2.43.0


From 5d80fb5ba5139ee8262bb41fd97e4397581b9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 061/162] fix: buffering unmasked geometries gave nothing

---
 src/ocgis/variable/geom.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index ba33084..261ea61 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -664,12 +664,8 @@ class GeometryVariable(AbstractSpatialVariable):
         ret = self.copy()
         new_value = np.empty_like(ret.get_value(), dtype=object)
         to_buffer = self.get_value()
-        mask = self.get_mask()
-        for idx, mask_value in iter_array(mask, return_value=True):
-            if not mask_value:
-                new_value[idx] = to_buffer[idx].buffer(*args, **kwargs)
-            else:
-                new_value[idx] = None
+        for idx, geom in iter_array(to_buffer, return_value=True, mask=self.get_mask()):
+            new_value[idx] = geom.buffer(*args, **kwargs)
 
         ret.set_value(new_value)
         ret._geom_type = geom_type
-- 
2.43.0


From b25934b5a711e27f5aee9966930a2581f6727802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 062/162] fix: wrapping a grid left its allocated geometries in
 place

---
 src/ocgis/variable/crs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 7183d7f..3156bae 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -345,10 +345,11 @@ class AbstractCRS(AbstractInterfaceObject):
                 func = getattr(ca, attr)
                 func(target.x.get_value())
                 target.remove_bounds()
+                # The grid's wrapped state changes, hence geometries are always updated.
                 if target.has_allocated_point:
-                    getattr(target.get_point(), attr)()
+                    getattr(target.parent[target._point_name], attr)(force=True)
                 if target.has_allocated_polygon:
-                    getattr(target.get_polygon(), attr)()
+                    getattr(target.parent[target._polygon_name], attr)(force=True)
             else:
                 raise NotImplementedError(target)
 
-- 
2.43.0


From d02298556c85ee5a83a38e95bec32d2e6740b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 063/162] fix: wrapping cut cells extending past the longitude
 range

---
 src/ocgis/spatial/wrap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/spatial/wrap.py b/src/ocgis/spatial/wrap.py
index cd716ab..a348ec0 100644
--- a/src/ocgis/spatial/wrap.py
+++ b/src/ocgis/spatial/wrap.py
@@ -92,10 +92,11 @@ class GeometryWrapper(AbstractWrapper):
 
         miny = -90
         maxy = 90
-        self.right_clip = make_poly((miny, maxy), (self.wrap_axis, 360))
+        # Cells at the domain's edge may extend past it (i.e. global grids with a center at 0, 360, or -180).
+        self.right_clip = make_poly((miny, maxy), (self.wrap_axis, self.wrap_axis + 360))
         self.left_clip = make_poly((miny, maxy), (-self.wrap_axis, self.wrap_axis))
-        self.clip1 = make_poly((miny, maxy), (-self.wrap_axis, self.center_axis))
-        self.clip2 = make_poly((miny, maxy), (self.center_axis, self.wrap_axis))
+        self.clip1 = make_poly((miny, maxy), (self.center_axis - 360, self.center_axis))
+        self.clip2 = make_poly((miny, maxy), (self.center_axis, self.center_axis + 360))
 
     def unwrap(self, geom):
         """
-- 
2.43.0


From 98d104be44477592a3e840aec3715405ab444713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 064/162] fix: wrapping dropped holes and failed for geometries
 touching the seam

---
 src/ocgis/spatial/wrap.py | 67 +++++++++++++++------------------------
 1 file changed, 26 insertions(+), 41 deletions(-)

diff --git a/src/ocgis/spatial/wrap.py b/src/ocgis/spatial/wrap.py
index a348ec0..c31c77c 100644
--- a/src/ocgis/spatial/wrap.py
+++ b/src/ocgis/spatial/wrap.py
@@ -3,7 +3,7 @@ from abc import abstractmethod
 
 import numpy as np
 import six
-from shapely.geometry.linestring import LineString
+from shapely.affinity import translate
 from shapely.geometry.multipoint import MultiPoint
 from shapely.geometry.multipolygon import MultiPolygon
 from shapely.geometry.point import Point
@@ -129,24 +129,13 @@ class GeometryWrapper(AbstractWrapper):
                     left = to_process.intersection(self.clip1)
                     right = to_process.intersection(self.clip2)
 
-                    # Pull out the right side polygons.
-                    right_polygons = [poly for poly in iter_exploded_geometries(right)]
-
-                    # Adjust polygons falling the left window.
-                    if isinstance(left, Polygon):
-                        left_polygons = [self._unwrap_shift_(left)]
-                    else:
-                        left_polygons = []
-                        for polygon in left:
-                            left_polygons.append(self._unwrap_shift_(polygon))
+                    # Only polygons are retained. Intersections also return points and lines if the polygon touches a
+                    # region's edge.
+                    left_polygons = [self._unwrap_shift_(poly) for poly in self._iter_polygons_(left)]
+                    right_polygons = list(self._iter_polygons_(right))
 
                     # Merge polygons into single unit.
-                    try:
-                        processed = MultiPolygon(left_polygons + right_polygons)
-                    except TypeError:
-                        left = [x for x in left_polygons if type(x) != LineString]
-                        right = [x for x in right_polygons if type(x) != LineString]
-                        processed = MultiPolygon(left + right)
+                    processed = MultiPolygon(left_polygons + right_polygons)
 
                 else:
                     if isinstance(to_process, Polygon):
@@ -187,19 +176,7 @@ class GeometryWrapper(AbstractWrapper):
         """
 
         def _shift_(geom):
-            try:
-                coords = np.array(geom.exterior.coords)
-                coords[:, 0] = coords[:, 0] - 360
-                ret = Polygon(coords)
-            # Likely a MultiPolygon.
-            except AttributeError:
-                polygons = np.empty(len(geom), dtype=object)
-                for ii, polygon in enumerate(geom):
-                    coords = np.array(polygon.exterior.coords)
-                    coords[:, 0] = coords[:, 0] - 360
-                    polygons[ii] = Polygon(coords)
-                ret = MultiPolygon(list(polygons))
-            return ret
+            return translate(geom, xoff=-360.)
 
         if isinstance(geom, (Polygon, MultiPolygon)):
             bounds = np.array(geom.bounds)
@@ -210,14 +187,11 @@ class GeometryWrapper(AbstractWrapper):
             # If a polygon crosses the 180 axis, then the polygon will need to be split with intersection and
             # recombined.
             elif bounds[0] <= self.wrap_axis < bounds[2]:
-                left = [poly for poly in iter_exploded_geometries(geom.intersection(self.left_clip))]
-                right = [poly for poly in iter_exploded_geometries(_shift_(geom.intersection(self.right_clip)))]
-                try:
-                    new_geom = MultiPolygon(left + right)
-                except TypeError:
-                    left = [x for x in left if type(x) != LineString]
-                    right = [x for x in right if type(x) != LineString]
-                    new_geom = MultiPolygon(left + right)
+                # Only polygons are retained. Intersections also return points and lines if the polygon touches a region's
+                # edge.
+                left = list(self._iter_polygons_(geom.intersection(self.left_clip)))
+                right = [_shift_(poly) for poly in self._iter_polygons_(geom.intersection(self.right_clip))]
+                new_geom = MultiPolygon(left + right)
             # Otherwise, the polygon coordinates are not affected by wrapping and the geometry may be passed through.
             else:
                 new_geom = geom
@@ -284,9 +258,20 @@ class GeometryWrapper(AbstractWrapper):
         :rtype: :class:`shapely.geometry.polygon.Polygon`
         """
 
-        coords = np.array(polygon.exterior.coords)
-        coords[:, 0] = coords[:, 0] + 360
-        return Polygon(coords)
+        return translate(polygon, xoff=360.)
+
+    @staticmethod
+    def _iter_polygons_(geom):
+        """
+        :param geom: The geometry to collect polygons from.
+        :type geom: :class:`shapely.geometry.base.BaseGeometry`
+        :returns: A generator yielding the polygons contained in the geometry. Points and lines are excluded.
+        :rtype: :class:`shapely.geometry.polygon.Polygon`
+        """
+
+        for exploded in iter_exploded_geometries(geom):
+            if isinstance(exploded, Polygon) and not exploded.is_empty:
+                yield exploded
 
 
 def apply_wrapping_index_map(imap, to_remap):
-- 
2.43.0


From 3ab2f1a772dd5286fbc5c28c8eea26669ecc6cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 065/162] fix: reordering left variables along the longitude
 dimension behind

---
 src/ocgis/spatial/grid.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 329f191..93410ee 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -787,7 +787,14 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
         # Reorder all arrays that have the reorder and varying dimension.
         for var in list(self.parent.values()):
             arr_dimension_names = get_dimension_names(var.dimensions)
-            if reorder_dimension in arr_dimension_names and varying_dimension in arr_dimension_names:
+            if self.is_vectorized and var.name != self.x.name and reorder_dimension in arr_dimension_names and \
+                    varying_dimension not in arr_dimension_names:
+                # The same shift is applied everywhere for vectorized coordinates.
+                var_axis = arr_dimension_names.index(reorder_dimension)
+                var.get_value()[:] = np.roll(var.get_value(), -shift_indices[0], axis=var_axis)
+                if var.has_mask:
+                    var.set_mask(np.roll(var.get_mask(), -shift_indices[0], axis=var_axis))
+            elif reorder_dimension in arr_dimension_names and varying_dimension in arr_dimension_names:
                 reorder_array(shift_indices, var.get_value(), arr_dimension_names, reorder_dimension, varying_dimension)
                 if var.has_masked_values:
                     mask = var.get_mask()
-- 
2.43.0


From 16172ac713a706274d724e882f294da5677bd9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 066/162] fix: reordering failed for rows without negative
 longitudes

---
 src/ocgis/spatial/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 93410ee..28042eb 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -772,7 +772,8 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
 
         shift_indices = np.zeros(self.shape[0], dtype=int)
         for row_index in range(wrapped.shape[0]):
-            the_split_index = None
+            # A row without negative longitudes is ordered already.
+            the_split_index = 0
             for ctr, element in enumerate(wrapped[row_index].flat):
                 if element < 0:
                     the_split_index = ctr
-- 
2.43.0


From 08f4455b7fda28993cdee8681967199a59c1fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 067/162] fix: wrapping a field ignored its geometry and
 dropped unchanged bounds

---
 src/ocgis/collection/field.py | 41 +++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index 034d41d..c2a106c 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -1150,26 +1150,29 @@ def wrap_or_unwrap(field, action, inplace=True):
     if action not in (WrapAction.WRAP, WrapAction.UNWRAP):
         raise ValueError('"action" not recognized: {}'.format(action))
 
-    if field.grid is not None:
-        if not inplace:
-            x = field.grid.x
-            x.set_value(x.value.copy())
-        if action == WrapAction.WRAP:
-            field.grid.wrap()
-        else:
-            field.grid.unwrap()
-    elif field.geom is not None:
-        if not inplace:
-            geom = field.geom
-            geom.set_value(geom.value.copy())
-        if action == WrapAction.WRAP:
-            field.geom.wrap()
-        else:
-            field.geom.unwrap()
-    else:
+    grid, geom = field.grid, field.geom
+    if grid is None and geom is None:
         raise ValueError('No grid or geometry to wrap/unwrap.')
 
-    # Bounds are not handled by wrap/unwrap operations. They should be removed from the dimension map if present.
-    if field.grid is not None:
+    if not inplace:
+        if grid is not None:
+            grid.x.set_value(grid.x.get_value().copy())
+        if geom is not None:
+            geom.set_value(geom.get_value().copy())
+
+    targets = [grid, geom]
+    # The grid handles its allocated abstraction geometry.
+    if grid is not None and geom is not None and geom.name in (grid._point_name, grid._polygon_name):
+        targets = [grid]
+    for target in targets:
+        if target is not None:
+            if action == WrapAction.WRAP:
+                target.wrap()
+            else:
+                target.unwrap()
+
+    # Bounds are not handled by wrap/unwrap operations. They should be removed from the dimension map if they were removed
+    # from the grid.
+    if grid is not None and not grid.has_bounds:
         for key in [DimensionMapKey.X, DimensionMapKey.Y]:
             field.dimension_map.set_bounds(key, None)
-- 
2.43.0


From dde9d4765d717c16592846fa53dd00d04c267c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 068/162] fix: spatial subsets left the target's longitudes
 changed

---
 src/ocgis/spatial/spatial_subset.py | 110 ++++++++++++++--------------
 1 file changed, 56 insertions(+), 54 deletions(-)

diff --git a/src/ocgis/spatial/spatial_subset.py b/src/ocgis/spatial/spatial_subset.py
index fb53302..be3ce54 100644
--- a/src/ocgis/spatial/spatial_subset.py
+++ b/src/ocgis/spatial/spatial_subset.py
@@ -111,63 +111,64 @@ class SpatialSubsetOperation(AbstractOcgisObject):
         # Prepare the target field.
         self._prepare_target_()
 
-        # execute the spatial operation
-        slc = None
-        if operation == 'intersects':
-            if self.field.grid is None:
-                if keep_touches == 'auto':
-                    keep_touches = False
-                ret = self.field.geom.get_intersects(base_geometry, use_spatial_index=use_spatial_index,
-                                                     cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                ret = ret.parent
-            else:
-                ret = self.field.grid.get_intersects(base_geometry, cascade=cascade,
-                                                     optimized_bbox_subset=optimized_bbox_subset,
-                                                     return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                ret = ret.parent
-        elif operation in ('clip', 'intersection'):
-            if self.field.grid is None:
-                ret = self.field.geom.get_intersection(base_geometry, use_spatial_index=use_spatial_index,
-                                                       cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                ret = ret.parent
+        try:
+            # execute the spatial operation
+            slc = None
+            if operation == 'intersects':
+                if self.field.grid is None:
+                    if keep_touches == 'auto':
+                        keep_touches = False
+                    ret = self.field.geom.get_intersects(base_geometry, use_spatial_index=use_spatial_index,
+                                                         cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    ret = ret.parent
+                else:
+                    ret = self.field.grid.get_intersects(base_geometry, cascade=cascade,
+                                                         optimized_bbox_subset=optimized_bbox_subset,
+                                                         return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    ret = ret.parent
+            elif operation in ('clip', 'intersection'):
+                if self.field.grid is None:
+                    ret = self.field.geom.get_intersection(base_geometry, use_spatial_index=use_spatial_index,
+                                                           cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    ret = ret.parent
+                else:
+                    ret = self.field.grid.get_intersection(base_geometry, cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    # An intersection with a grid returns a geometry variable. Set this on the field.
+                    ret.parent.set_geom(ret)
+                    ret = ret.parent
             else:
-                ret = self.field.grid.get_intersection(base_geometry, cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                # An intersection with a grid returns a geometry variable. Set this on the field.
-                ret.parent.set_geom(ret)
-                ret = ret.parent
-        else:
-            msg = 'The spatial operation "{0}" is not supported.'.format(operation)
-            raise ValueError(msg)
-
-        with vm.scoped_by_emptyable('return finalize', ret):
-            if not vm.is_null:
-                # Select the nearest geometry if requested.
-                if select_nearest:
-                    ret.set_abstraction_geom()
-                    ret = ret.geom.get_nearest(base_geometry).parent
+                msg = 'The spatial operation "{0}" is not supported.'.format(operation)
+                raise ValueError(msg)
 
-                # check for rotated pole and convert back to default CRS
-                if self._original_rotated_pole_state is not None and self.output_crs == 'input':
-                    ret.update_crs(self._original_rotated_pole_state)
+            with vm.scoped_by_emptyable('return finalize', ret):
+                if not vm.is_null:
+                    # Select the nearest geometry if requested.
+                    if select_nearest:
+                        ret.set_abstraction_geom()
+                        ret = ret.geom.get_nearest(base_geometry).parent
 
-                # wrap the data...
-                if self._get_should_wrap_(ret):
-                    ret.wrap()
+                    # check for rotated pole and convert back to default CRS
+                    if self._original_rotated_pole_state is not None and self.output_crs == 'input':
+                        ret.update_crs(self._original_rotated_pole_state)
 
-                # convert the coordinate system if requested...
-                if self.should_update_crs:
-                    ret.update_crs(self.output_crs)
+                    # wrap the data...
+                    if self._get_should_wrap_(ret):
+                        ret.wrap()
 
-        # Return the target field to its original state.
-        self._finalize_target()
+                    # convert the coordinate system if requested...
+                    if self.should_update_crs:
+                        ret.update_crs(self.output_crs)
+        finally:
+            # Return the target field to its original state.
+            self._finalize_target()
 
         if return_slice:
             ret = (ret, slc)
@@ -258,7 +259,8 @@ class SpatialSubsetOperation(AbstractOcgisObject):
     def _finalize_target(self):
         """Perform any transformations on the target field following spatial subsetting."""
         if self._transformed_unwrapped_select is not None:
-            self.field.grid.x.v()[self._transformed_unwrapped_select] -= 360
+            select, original = self._transformed_unwrapped_select
+            self.field.grid.x.v()[select] = original
             self._transformed_unwrapped_select = None
 
     def _prepare_target_(self):
@@ -273,5 +275,5 @@ class SpatialSubsetOperation(AbstractOcgisObject):
             xval = field.grid.x.v()
             select = xval < 0
             if select.any():
+                self._transformed_unwrapped_select = select, xval[select].copy()
                 xval[select] += 360
-                self._transformed_unwrapped_select = select
-- 
2.43.0


From c39f87a41686e6f2331c3f45e80931270757225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 069/162] fix: rotated pole transformation passed a quoted
 format to proj

---
 src/ocgis/variable/crs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 3156bae..10139ed 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -1258,7 +1258,7 @@ def get_lonlat_rotated_pole_transform(lon, lat, transform, inverse=False, is_vec
             program = 'invproj'
         else:
             program = 'proj'
-        cmd = [program, '-f', '"%.6f"', '-m', '57.2957795130823'] + cmd
+        cmd = [program, '-f', '%.6f', '-m', '57.2957795130823'] + cmd
         capture = subprocess.check_output(cmd)
     finally:
         f.close()
-- 
2.43.0


From 98f896d130d78e083173e45a82f95beb7363e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 070/162] fix: rotated pole coordinate systems could not be
 created

---
 src/ocgis/variable/crs.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 10139ed..b881fba 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -1149,9 +1149,12 @@ class CFNarccapObliqueMercator(CFCoordinateReferenceSystem):
 
 class CFRotatedPole(CFCoordinateReferenceSystem):
     grid_mapping_name = 'rotated_latitude_longitude'
-    iterable_parameters = {}
+    iterable_parameters = {'grid_north_pole_longitude': '_format_pole_longitude_',
+                           'grid_north_pole_latitude': '_format_pole_latitude_'}
     map_parameters = {'grid_north_pole_longitude': None, 'grid_north_pole_latitude': None}
-    proj_name = 'omerc'
+    proj_name = 'ob_tran'
+    # Coordinates are angles relative to the rotated pole. They are not longitudes and latitudes.
+    is_geographic = False
     _find_projection_coordinates = False
     _fuzzy_grid_mapping_names = ('rotated_pole', 'rotated_lat_lon')
     _template = '+proj=ob_tran +o_proj=latlon +o_lon_p={lon_pole} +o_lat_p={lat_pole} +lon_0=180 +ellps={ellps}'
@@ -1164,6 +1167,14 @@ class CFRotatedPole(CFCoordinateReferenceSystem):
                                                  lat_pole=kwds['grid_north_pole_latitude'],
                                                  ellps=constants.PROJ4_ROTATED_POLE_ELLPS)
 
+    @staticmethod
+    def _format_pole_latitude_(value):
+        return {'o_proj': 'longlat', 'o_lat_p': value, 'ellps': constants.PROJ4_ROTATED_POLE_ELLPS}
+
+    @staticmethod
+    def _format_pole_longitude_(value):
+        return {'o_lon_p': 0, 'lon_0': value + 180}
+
     def update_with_rotated_pole_transformation(self, grid, inverse=False):
         """
         :type grid: :class:`~ocgis.Grid`
-- 
2.43.0


From e3f0ee6d72daa86c363b7cf4fe9b6fe2b36a05bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 071/162] fix: spellings of the WGS84 datum compared unequal

---
 src/ocgis/variable/crs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index b881fba..6224ee5 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -533,6 +533,11 @@ class CoordinateReferenceSystem(AbstractProj4CRS, AbstractInterfaceObject):
                     new_values = [self.value.copy(), other.value.copy()]
                     for n in new_values:
                         n.pop('wktext', None)
+                        # The WGS84 datum may be spelled by its ellipsoid and a null shift.
+                        if n.get('ellps') == 'WGS84' and n.get('towgs84') == WGS84._default_towgs84:
+                            n.pop('ellps')
+                            n.pop('towgs84')
+                            n['datum'] = 'WGS84'
                     ret = new_values[0] == new_values[1]
         except AttributeError:
             # likely a nonetype of other object type
-- 
2.43.0


From 7c6a349493d82b420978da8085192c2ae6bae889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 072/162] fix: init dictionaries were read from their first
 entry

---
 src/ocgis/variable/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 6224ee5..8ab5d92 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -484,8 +484,8 @@ class CoordinateReferenceSystem(AbstractProj4CRS, AbstractInterfaceObject):
 
         # Add a special check for init keys in value dictionary.
         if value is not None:
-            if 'init' in value and list(value.values())[0].startswith('epsg'):
-                epsg = int(list(value.values())[0].split(':')[1])
+            if 'init' in value and str(value['init']).startswith('epsg'):
+                epsg = int(value['init'].split(':')[1])
                 value = None
 
         if value is None:
-- 
2.43.0


From 398fa9f40da074b9a3319fd959e8d8ce132c1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 073/162] fix: subsetting a rotated pole field transformed the
 target

---
 src/ocgis/spatial/spatial_subset.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/spatial_subset.py b/src/ocgis/spatial/spatial_subset.py
index be3ce54..7bed460 100644
--- a/src/ocgis/spatial/spatial_subset.py
+++ b/src/ocgis/spatial/spatial_subset.py
@@ -36,6 +36,7 @@ class SpatialSubsetOperation(AbstractOcgisObject):
         self.wrap = wrap
 
         self._original_rotated_pole_state = None
+        self._original_field = None
         self._transformed_unwrapped_select = None
 
     @property
@@ -258,6 +259,9 @@ class SpatialSubsetOperation(AbstractOcgisObject):
 
     def _finalize_target(self):
         """Perform any transformations on the target field following spatial subsetting."""
+        if self._original_field is not None:
+            self.field = self._original_field
+            self._original_field = None
         if self._transformed_unwrapped_select is not None:
             select, original = self._transformed_unwrapped_select
             self.field.grid.x.v()[select] = original
@@ -270,7 +274,10 @@ class SpatialSubsetOperation(AbstractOcgisObject):
         crs = field.crs
         if isinstance(crs, CFRotatedPole):
             self._original_rotated_pole_state = copy(crs)
-            field.update_crs(self._rotated_pole_destination_crs)
+            # The transformation replaces coordinates and removes bounds. Leave the target field as it is.
+            self._original_field = field
+            self.field = field.copy()
+            self.field.update_crs(self._rotated_pole_destination_crs)
         elif field.grid is not None and isinstance(crs, Spherical) and field.wrapped_state == WrappedState.UNWRAPPED:
             xval = field.grid.x.v()
             select = xval < 0
-- 
2.43.0


From a8f60dac4fa90bac63aa02b6f7a17de3640ffe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 074/162] fix: rotated pole coordinates were not transformed to
 projected systems

---
 src/ocgis/spatial/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocgis/spatial/base.py b/src/ocgis/spatial/base.py
index 7f8b5c4..1ac82d4 100644
--- a/src/ocgis/spatial/base.py
+++ b/src/ocgis/spatial/base.py
@@ -578,6 +578,10 @@ class AbstractXYZSpatialContainer(AbstractSpatialContainer):
             from_crs.transform_grid(to_crs, self, inverse=inverse)
         elif isinstance(self.crs, crs.CFRotatedPole):
             from_crs.update_with_rotated_pole_transformation(self, inverse=False)
+            if not to_crs.is_geographic:
+                # The coordinates are spherical now and still need to be transformed to the destination.
+                self.crs = crs.Spherical()
+                self.update_crs(to_crs)
         elif isinstance(to_crs, crs.CFRotatedPole):
             to_crs.update_with_rotated_pole_transformation(self, inverse=True)
         else:
-- 
2.43.0


From 93efdb1fc026a13c3a0b461506c6ef4ec93dc93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 075/162] fix: clipped cells kept the lines and points where
 they only touch the geometry

---
 src/ocgis/spatial/geomc.py |  5 +++--
 src/ocgis/spatial/grid.py  |  4 ++--
 src/ocgis/util/helpers.py  | 23 +++++++++++++++++++++++
 src/ocgis/variable/geom.py |  4 ++--
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index a3bce60..f3410e2 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -15,7 +15,8 @@ from ocgis.constants import KeywordArgument, GridAbstraction, VariableName, Attr
     RegriddingRole, DMK, MPITag, DriverKey, ConversionTarget, MPI_EMPTY_VALUE
 from ocgis.exc import RequestableFeature, NoTouching
 from ocgis.spatial.base import AbstractXYZSpatialContainer
-from ocgis.util.helpers import get_formatted_slice, arange_from_dimension, create_unique_global_array
+from ocgis.util.helpers import get_formatted_slice, arange_from_dimension, create_unique_global_array, \
+    get_clipped_geometry
 from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.variable.base import get_dslice, Variable
 from ocgis.variable.dimension import create_distributed_dimension
@@ -586,7 +587,7 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
                 for idx, intersects_logical, current_geometry in gp.iter_intersects():
                     fill_mask[idx] = not intersects_logical
                     if perform_intersection and intersects_logical:
-                        geometry_fill[idx] = current_geometry.intersection(subset_geom)
+                        geometry_fill[idx] = get_clipped_geometry(current_geometry, subset_geom)
 
             if perform_intersection:
                 if geometry_fill is None:
diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 28042eb..55731df 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -14,7 +14,7 @@ from ocgis.environment import ogr, env
 from ocgis.exc import GridDeficientError, EmptySubsetError, AllElementsMaskedError, RequestableFeature, NoTouching
 from ocgis.spatial.base import AbstractXYZSpatialContainer
 from ocgis.spatial.geomc import AbstractGeometryCoordinates, PolygonGC, PointGC, LineGC
-from ocgis.util.helpers import get_formatted_slice, get_iter
+from ocgis.util.helpers import get_formatted_slice, get_iter, get_clipped_geometry
 from ocgis.variable.base import get_dslice, get_dimension_lengths
 from ocgis.variable.dimension import Dimension
 from ocgis.variable.geom import GeometryVariable, get_masking_slice, GeometryProcessor
@@ -692,7 +692,7 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
                 for idx, intersects_logical, current_geometry in gp.iter_intersects():
                     fill_mask[idx] = not intersects_logical
                     if perform_intersection and intersects_logical:
-                        geometry_fill[idx] = current_geometry.intersection(subset_geom)
+                        geometry_fill[idx] = get_clipped_geometry(current_geometry, subset_geom)
 
             if perform_intersection:
                 if geometry_fill is None:
diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 8c8f8d9..3f1b5d3 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -20,6 +20,7 @@ from ocgis.exc import SingleElementError, ShapeError, AllElementsMaskedError
 from shapely.geometry import Point
 from shapely.geometry.base import BaseGeometry, BaseMultipartGeometry
 from shapely.geometry.geo import mapping
+from shapely.geometry.multipolygon import MultiPolygon
 from shapely.geometry.polygon import Polygon
 from shapely.wkb import loads as wkb_loads
 
@@ -1361,3 +1362,25 @@ def iter_exploded_geometries(geom):
                 yield element2
         else:
             yield element1
+
+
+def get_clipped_geometry(geom, subset_geom):
+    """
+    Intersect a geometry with a subset geometry. Points and lines accompanying polygons in the intersection are removed.
+    They occur where the geometries touch and have no area.
+
+    :param geom: The geometry to clip.
+    :type geom: :class:`shapely.geometry.base.BaseGeometry`
+    :param subset_geom: The clipping geometry.
+    :type subset_geom: :class:`shapely.geometry.base.BaseGeometry`
+    :rtype: :class:`shapely.geometry.base.BaseGeometry`
+    """
+
+    ret = geom.intersection(subset_geom)
+    if ret.geom_type == 'GeometryCollection':
+        polygons = [element for element in iter_exploded_geometries(ret) if isinstance(element, Polygon)]
+        if len(polygons) == 1:
+            ret = polygons[0]
+        elif len(polygons) > 1:
+            ret = MultiPolygon(polygons)
+    return ret
diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 261ea61..58a2fa5 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -24,7 +24,7 @@ from ocgis.exc import EmptySubsetError, RequestableFeature, NoInteriorsError, Se
 from ocgis.spatial.base import AbstractSpatialVariable, create_split_polygons
 from ocgis.util.addict import Dict
 from ocgis.util.helpers import iter_array, get_trimmed_array_by_mask, get_swap_chain, find_index, \
-    iter_exploded_geometries, get_iter
+    iter_exploded_geometries, get_iter, get_clipped_geometry
 from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.variable.base import get_dimension_lengths, ObjectType
 from ocgis.variable.crs import Cartesian
@@ -756,7 +756,7 @@ class GeometryVariable(AbstractSpatialVariable):
                 obj.set_value(deepcopy(obj.get_value()))
             obj_value = obj.get_masked_value()
             for idx, geom in iter_array(obj_value, return_value=True):
-                obj_value.data[idx] = geom.intersection(subset_geometry)
+                obj_value.data[idx] = get_clipped_geometry(geom, subset_geometry)
         return ret
 
     def get_iter(self, *args, **kwargs):
-- 
2.43.0


From 08bc3265142e4ff8bde6d109ad8ab13ab080c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 076/162] fix: wrapping a subset modified the values of the
 data it was taken from

---
 src/ocgis/variable/crs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 8ab5d92..d764170 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -336,14 +336,19 @@ class AbstractCRS(AbstractInterfaceObject):
             if isinstance(target, GeometryVariable):
                 w = GeometryWrapper()
                 func = getattr(w, attr)
-                target_value = target.get_value()
+                # Values may be shared with the objects this target was sliced from.
+                target_value = target.get_value().copy()
                 for idx, target_geom in iter_array(target_value, use_mask=True, return_value=True,
                                                    mask=target.get_mask()):
                     target_value.__setitem__(idx, func(target_geom))
+                target.set_value(target_value)
             elif isinstance(target, Grid):
                 ca = CoordinateArrayWrapper()
                 func = getattr(ca, attr)
-                func(target.x.get_value())
+                # Values may be shared with the objects this target was sliced from.
+                target_value = target.x.get_value().copy()
+                func(target_value)
+                target.x.set_value(target_value)
                 target.remove_bounds()
                 # The grid's wrapped state changes, hence geometries are always updated.
                 if target.has_allocated_point:
-- 
2.43.0


From 0b8e8df9547831002192acac9fe5d4c19ef31ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 077/162] fix: time regions missed the months in annual bounds

---
 src/ocgis/util/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 3f1b5d3..b05cc1e 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -520,6 +520,9 @@ def get_is_date_between(lower, upper, month=None, year=None):
             if to_test < part_lower:
                 to_test += 12
         ret = np.logical_and(to_test >= part_lower, to_test < part_upper)
+    elif attr == 'month' and upper.year == lower.year + 1 and upper.timetuple()[2:6] <= lower.timetuple()[2:6]:
+        # a year (i.e. an annual mean) contains all months. longer intervals are climatological.
+        ret = True
     else:
         ret = np.logical_and(to_test >= part_lower, to_test <= part_upper)
 
-- 
2.43.0


From fa760f4ddebb7077bb94363293f57df6b134decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 078/162] fix: corners of curvilinear grids shared a dimension
 with time bounds

---
 src/ocgis/ops/engine.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index b97945f..0a2693e 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -555,7 +555,12 @@ class OperationsEngine(AbstractOcgisObject):
         try:
             name_x_variable = '{}_{}'.format(field.grid.x.name, constants.OCGIS_BOUNDS)
             name_y_variable = '{}_{}'.format(field.grid.y.name, constants.OCGIS_BOUNDS)
-            field.grid.set_extrapolated_bounds(name_x_variable, name_y_variable, constants.OCGIS_BOUNDS)
+            if field.grid.is_vectorized:
+                name_dimension = constants.OCGIS_BOUNDS
+            else:
+                # There are four corners. Other variables may have bounds with two elements.
+                name_dimension = constants.DEFAULT_NAME_CORNERS_DIMENSION
+            field.grid.set_extrapolated_bounds(name_x_variable, name_y_variable, name_dimension)
         except BoundsAlreadyAvailableError:
             msg = 'Bounds/corners already on object. Ignoring "interpolate_spatial_bounds".'
             ocgis_lh(msg=msg, logger=self._subset_log, level=logging.WARNING)
-- 
2.43.0


From 7b939d8c71d2b2f24120d446a36afc0d80ad112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 079/162] fix: allow_empty skipped aggregation, wrapping, and
 coordinate systems

---
 src/ocgis/ops/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index 0a2693e..9098f32 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -355,7 +355,7 @@ class OperationsEngine(AbstractOcgisObject):
                 vm.create_subcomm_by_emptyable(SubcommName.FIELD_SUBSET, sfield, is_current=True, clobber=True)
 
                 if not vm.is_null:
-                    if not sfield.is_empty and not self.ops.allow_empty:
+                    if not sfield.is_empty:
                         raise_if_empty(sfield)
 
                         # If the base size is being requested, bypass the rest of the operations.
-- 
2.43.0


From 9b84b979e37b33d36b18fdc6e9c9a91617c87be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 080/162] fix: only the first geometry was transformed back to
 the rotated pole

---
 src/ocgis/ops/engine.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index 9098f32..98e8a4e 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -298,6 +298,9 @@ class OperationsEngine(AbstractOcgisObject):
         assert isinstance(field, Field)
 
         ocgis_lh('processing geometries', self._subset_log, level=logging.DEBUG)
+        # The field is transformed once. The original coordinate system is needed for all of the geometries.
+        original_rotated_pole_crs = None
+
         # Process each geometry.
         for subset_field in itr:
 
@@ -318,7 +321,9 @@ class OperationsEngine(AbstractOcgisObject):
                 # Operate on the rotated pole coordinate system by first transforming it to the default coordinate
                 # system.
                 key = constants.BackTransform.ROTATED_POLE
-                self._backtransform[key] = self._get_update_rotated_pole_state_(field, subset_field)
+                if original_rotated_pole_crs is None:
+                    original_rotated_pole_crs = self._get_update_rotated_pole_state_(field, subset_field)
+                self._backtransform[key] = original_rotated_pole_crs
 
                 # Check if the geometric abstraction is available on the field object.
                 self._assert_abstraction_available_(field)
-- 
2.43.0


From 812da3ada8abf32b5acfeb760eeaaff25df73e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 081/162] fix: a time or level subset empty for a field in
 memory raised an AttributeError

---
 src/ocgis/ops/engine.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index 98e8a4e..616e3ab 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -259,8 +259,7 @@ class OperationsEngine(AbstractOcgisObject):
                 ocgis_lh(msg='time or level subset empty but empty returns allowed', logger=self._subset_log,
                          level=logging.WARN)
                 coll = self._get_initialized_collection_()
-                name = '_'.join([rd.field_name for rd in rds])
-                field = Field(name=name, is_empty=True)
+                field = Field(name=alias, is_empty=True)
                 coll.add_field(field, None)
                 try:
                     yield coll
@@ -268,7 +267,7 @@ class OperationsEngine(AbstractOcgisObject):
                     return
             else:
                 # Raise an exception as empty subsets are not allowed.
-                ocgis_lh(exc=ExtentError(message=str(e)), alias=str([rd.field_name for rd in rds]),
+                ocgis_lh(exc=ExtentError(message=str(e)), alias=alias,
                          logger=self._subset_log)
 
         # Set iterator based on presence of slice. Slice always overrides geometry.
-- 
2.43.0


From e58372f1e734667fa8bf1d973e5b359e845835fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 082/162] fix: calc_raw without aggregation skipped wrapping
 and coordinate systems

---
 src/ocgis/ops/engine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index 616e3ab..8c4837a 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -137,9 +137,9 @@ class OperationsEngine(AbstractOcgisObject):
                     # Execute the calculations.
                     coll = self.cengine.execute(coll, file_only=self.ops.file_only, tgds=tgds)
 
-                    # If we need to spatially aggregate and calculations used raw values, update the collection
-                    # fields and subset geometries.
-                    if self.ops.aggregate and self.ops.calc_raw:
+                    # Spatial aggregation, wrapping, and coordinate systems are updated following calculations on raw
+                    # values.
+                    if self.ops.calc_raw:
                         coll_to_itr = coll.copy()
                         for sfield, container in coll_to_itr.iter_fields(yield_container=True):
                             sfield = _update_aggregation_wrapping_crs_(self, None, sfield, container, None)
-- 
2.43.0


From 40ac6e8fbb10240b0b281985acccdc91a9cdcf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 083/162] fix: allow_empty requests with calculations were
 aborted by empty pairs

---
 src/ocgis/ops/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index 8c4837a..a215fa6 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -124,7 +124,7 @@ class OperationsEngine(AbstractOcgisObject):
 
             for coll in self._process_subsettables_(rds):
                 # If there are calculations, do those now and return a collection.
-                if not vm.is_null and self.cengine is not None:
+                if not vm.is_null and self.cengine is not None and not (self.ops.allow_empty and coll.is_empty):
                     ocgis_lh('Starting calculations.', self._subset_log)
                     raise_if_empty(coll)
 
-- 
2.43.0


From dfd6abd86db1a6d6b6e0c9e7dcc0cb57a917dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 084/162] fix: records are not lost when only the first
 variable is masked

---
 src/ocgis/collection/field.py  | 27 +++++++++++++++++++++++++--
 src/ocgis/variable/iterator.py |  2 +-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index c2a106c..4a67fa9 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -663,6 +663,9 @@ class Field(VariableCollection):
         if driver is not None:
             driver = get_driver_class(driver)
 
+        # Names of the variables in each record which must not all be masked.
+        names_to_filter = None
+
         # Holds follower variables to pass to the generic iterator.
         if followers is None:
             followers = []
@@ -680,6 +683,9 @@ class Field(VariableCollection):
             variable = tagged_variables[0]
             if len(tagged_variables) > 1:
                 followers += tagged_variables[1:]
+                if not allow_masked and kwargs.get('clobber_masked', True):
+                    # A masked value in the first variable does not imply masked values in the others.
+                    names_to_filter = [v.name for v in tagged_variables]
         else:
             variable = get_variables(variable, self)[0]
 
@@ -746,8 +752,25 @@ class Field(VariableCollection):
         kwargs[KeywordArgument.FOLLOWERS] = followers
         kwargs[KeywordArgument.GEOM] = geom
 
-        for yld in super(Field, self).iter(**kwargs):
-            yield yld
+        if names_to_filter is None:
+            for yld in super(Field, self).iter(**kwargs):
+                yield yld
+        else:
+            kwargs[KeywordArgument.PRIMARY_MASK] = False
+            if melted is None:
+                group_size = 1
+                headers = [(header_map or {}).get(n, n) for n in names_to_filter]
+            else:
+                group_size = len(melted)
+                headers = [HeaderName.VALUE]
+            group = []
+            for yld in super(Field, self).iter(**kwargs):
+                group.append(yld)
+                if len(group) == group_size:
+                    if any([g[1][h] is not None for g in group for h in headers]):
+                        for g in group:
+                            yield g
+                    group = []
 
     def iter_data_variables(self, tag_name=TagName.DATA_VARIABLES):
         """
diff --git a/src/ocgis/variable/iterator.py b/src/ocgis/variable/iterator.py
index 03039b2..3df5cf7 100644
--- a/src/ocgis/variable/iterator.py
+++ b/src/ocgis/variable/iterator.py
@@ -53,7 +53,7 @@ class Iterator(AbstractOcgisObject):
 
         if primary_mask is None:
             primary_mask = variable.name
-        else:
+        elif primary_mask is not False:
             primary_mask = get_variable_names(primary_mask)[0]
         self.primary_mask = primary_mask
 
-- 
2.43.0


From 81aaf22734d02c3dd453aa0d4da8300672e03080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 085/162] fix: masks of file variables with loaded values keep
 the loaded shape

---
 src/ocgis/variable/base.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index f72d8af..1e6fe70 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1676,23 +1676,12 @@ class SourcedVariable(Variable):
             return None
 
         eager = kwargs.pop(KeywordArgument.EAGER, True)
-        # When load from disk, the current mask and from disk masked should be merged with a logical OR.
         if eager:
+            # The mask is loaded from source with the value. The shape of the mask is the shape of the loaded value and not
+            # necessarily the shape of the dimensions.
             self.load()
-            current_mask = self._mask
-            self.set_mask(None)
-            from_source_mask = self.get_mask(eager=False)
-            if current_mask is None:
-                if from_source_mask is None:
-                    new_mask = None
-                else:
-                    new_mask = from_source_mask
-            else:
-                if from_source_mask is not None:
-                    new_mask = np.logical_or(current_mask, from_source_mask)
-                else:
-                    new_mask = current_mask
-            self.set_mask(new_mask)
+            if self.has_bounds:
+                set_mask_by_variable(self, self.bounds)
         return super(SourcedVariable, self).get_mask(*args, **kwargs)
 
     def load(self, cascade=False):
-- 
2.43.0


From 423fa63a81fe44cd5bd0530926740f3eaeff9707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 086/162] fix: vector file types are not inferred from masked
 or partial first records

---
 src/ocgis/driver/vector.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index 26d5230..b210bf0 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -6,7 +6,8 @@ from copy import deepcopy
 import fiona
 import numpy as np
 from ocgis import constants, vm
-from ocgis.constants import MPIWriteMode, DimensionName, KeywordArgument, DriverKey, DMK, SourceIndexType, VariableName
+from ocgis.constants import MPIWriteMode, DimensionName, KeywordArgument, DriverKey, DMK, SourceIndexType, VariableName, \
+    HeaderName
 from ocgis.driver.base import driver_scope, AbstractTabularDriver
 from ocgis.driver.dimension_map import DimensionMap
 from ocgis.environment import get_dtype
@@ -238,7 +239,7 @@ class DriverVector(AbstractTabularDriver):
             if fiona_crs is None:
                 if field.crs is not None:
                     fiona_crs = field.crs.value
-            _, archetype_record = next(field.iter(**iter_kwargs))
+            archetype_record = get_archetype_record(field, **iter_kwargs)
             archetype_record = format_record_for_fiona(fiona_driver, archetype_record)
             if fiona_schema is None:
                 fiona_schema = get_fiona_schema(geom_variable.geom_type, archetype_record)
@@ -282,6 +283,37 @@ def format_record_for_fiona(driver, record):
     return ret
 
 
+def get_archetype_record(field, **iter_kwargs):
+    """
+    :param field: The field to write.
+    :type field: :class:`~ocgis.Field`
+    :param iter_kwargs: Keyword arguments to :meth:`ocgis.Field.iter`.
+    :return: A record holding a value of the appropriate type for each header. The first record may be entirely masked
+     and the type of its values may not be the type of the values following.
+    :rtype: :class:`~collections.OrderedDict`
+    """
+
+    def _get_archetype_value_(dtypes):
+        dtypes = [np.dtype(d) for d in dtypes]
+        if any([d.kind not in 'biuf' for d in dtypes]):
+            ret = ''
+        else:
+            ret = np.zeros(1, dtype=np.result_type(*dtypes)).item()
+        return ret
+
+    iter_kwargs = iter_kwargs.copy()
+    iter_kwargs[KeywordArgument.ALLOW_MASKED] = True
+    _, record = next(field.iter(**iter_kwargs))
+    if len(field.data_variables) > 0:
+        if iter_kwargs.get(KeywordArgument.MELTED):
+            record[HeaderName.VALUE] = _get_archetype_value_([v.dtype for v in field.data_variables])
+        else:
+            for v in field.data_variables:
+                if v.name in record and record[v.name] is None:
+                    record[v.name] = _get_archetype_value_([v.dtype])
+    return record
+
+
 def get_dtype_from_fiona_type(ftype, data_model=None):
     if ftype.startswith('int'):
         ret = get_dtype('int', data_model=data_model)
-- 
2.43.0


From e5e14f6327cc3230f4365f5aa53158e1fcbc5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 087/162] fix: GeoJSON output keeps the records of every
 geometry

---
 src/ocgis/driver/vector.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index b210bf0..b275c4a 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -255,18 +255,23 @@ class DriverVector(AbstractTabularDriver):
             mode = 'a'
 
         # Write the template file.
-        if fiona_driver != 'GeoJSON':
-            if vm.rank == 0 and write_mode != MPIWriteMode.FILL:
-                with driver_scope(cls, opened_or_path=opened_or_path, mode='w', driver=fiona_driver, crs=fiona_crs,
-                                  schema=fiona_schema) as _:
-                    pass
+        if vm.rank == 0 and write_mode != MPIWriteMode.FILL:
+            with driver_scope(cls, opened_or_path=opened_or_path, mode='w', driver=fiona_driver, crs=fiona_crs,
+                              schema=fiona_schema) as _:
+                pass
 
         # Write data on each rank to the file.
         if write_mode != MPIWriteMode.TEMPLATE:
             for rank_to_write in vm.ranks:
                 if vm.rank == rank_to_write:
+                    # Drivers without update support must write again the records already in the file.
+                    retained = []
+                    if mode == 'w' and write_mode == MPIWriteMode.FILL and not cls.inquire_opened_state(opened_or_path):
+                        with fiona.open(opened_or_path, mode='r') as source:
+                            retained = list(source)
                     with driver_scope(cls, opened_or_path=opened_or_path, mode=mode, driver=fiona_driver,
                                       crs=fiona_crs, schema=fiona_schema) as sink:
+                        sink.writerecords(retained)
                         itr = field.iter(**iter_kwargs)
                         write_records_to_fiona(sink, itr, fiona_driver)
                 vm.barrier()
-- 
2.43.0


From 38ae2ee6e79ad28a022d76f657ed809e5db133fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 088/162] fix: rows appended to a CSV file are aligned with its
 columns

---
 src/ocgis/driver/csv_.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/csv_.py b/src/ocgis/driver/csv_.py
index 4a8534b..d353906 100644
--- a/src/ocgis/driver/csv_.py
+++ b/src/ocgis/driver/csv_.py
@@ -60,12 +60,20 @@ class DriverCSV(AbstractTabularDriver):
 
         iter_kwargs = kwargs.pop(KeywordArgument.ITER_KWARGS, {})
 
-        fieldnames = list(six.next(vc.iter(**iter_kwargs))[1].keys())
+        # All records may be masked. The field names are needed nonetheless.
+        fieldnames_kwargs = iter_kwargs.copy()
+        fieldnames_kwargs[KeywordArgument.ALLOW_MASKED] = True
+        fieldnames = list(six.next(vc.iter(**fieldnames_kwargs))[1].keys())
 
         if vm.rank == 0 and write_mode != MPIWriteMode.FILL:
             with driver_scope(cls, opened_or_path, mode='w') as opened:
                 writer = csv.DictWriter(opened, fieldnames)
                 writer.writeheader()
+        elif write_mode == MPIWriteMode.FILL and not cls.inquire_opened_state(opened_or_path):
+            # Records must be aligned with the columns already in the file.
+            with driver_scope(cls, opened_or_path, mode='r') as opened:
+                fieldnames = six.next(csv.reader(opened), fieldnames)
+
         if write_mode != MPIWriteMode.TEMPLATE:
             for current_rank_write in vm.ranks:
                 if vm.rank == current_rank_write:
-- 
2.43.0


From c874a91c908a6809d4c438cdb43e3857e904a967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 089/162] fix: truncated shapefile column names are unique

---
 src/ocgis/driver/vector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index b275c4a..c8ed9fa 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -284,6 +284,12 @@ def format_record_for_fiona(driver, record):
         for k, v in list(record.items()):
             if len(k) > 10:
                 k = k[0:10]
+            # Names may not be unique when they are truncated.
+            truncated, ctr = k, 0
+            while k in ret:
+                ctr += 1
+                suffix = '_{}'.format(ctr)
+                k = truncated[0:10 - len(suffix)] + suffix
             ret[k] = v
     return ret
 
-- 
2.43.0


From fb41c390a6f27d2bade8b02c3e3008329e75c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 090/162] fix: request dataset identifiers are not changed by
 operations

---
 src/ocgis/driver/request/core.py  |  7 ++++++-
 src/ocgis/ops/parms/definition.py | 17 ++++++++---------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ocgis/driver/request/core.py b/src/ocgis/driver/request/core.py
index 371d957..00be9fd 100644
--- a/src/ocgis/driver/request/core.py
+++ b/src/ocgis/driver/request/core.py
@@ -1,7 +1,7 @@
 import logging
 import os
 import re
-from copy import deepcopy
+from copy import copy, deepcopy
 
 import six
 from ocgis import constants
@@ -308,6 +308,11 @@ class RequestDataset(AbstractRequestObject):
         """
         return self._driver
 
+    def _bind_driver_(self):
+        """Bind a copy of the driver to this request dataset. Needed when the request dataset is a shallow copy."""
+        self._driver = copy(self._driver)
+        self._driver.rd = self
+
     @property
     def level_range(self):
         return self._level_range.value
diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 83bbf8e..1e32283 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -9,7 +9,7 @@ from types import FunctionType
 import numpy as np
 import ocgis
 import six
-from ocgis import RequestDataset
+from ocgis import RequestDataset, MultiRequestDataset
 from ocgis import constants
 from ocgis import env
 from ocgis.calc.eval_function import EvalFunction, MultivariateEvalFunction
@@ -489,17 +489,16 @@ class Dataset(base.AbstractParameter):
                 element = element.copy()
             except AttributeError:
                 element = copy(element)
+            # Drivers refer to their request dataset. The original request dataset must not be modified.
+            if isinstance(element, RequestDataset):
+                element._bind_driver_()
+            elif isinstance(element, MultiRequestDataset):
+                element.request_datasets = [copy(rd) for rd in element.request_datasets]
+                for rd in element.request_datasets:
+                    rd._bind_driver_()
 
             if element.uid is None:
                 element.uid = uid
-                # TODO: Remove me once the driver does not accept request datasets at initialization.
-                # Try to change the driver UID.
-                try:
-                    element.driver.rd.uid = uid
-                except AttributeError:
-                    # The field driver does not keep a copy of the request dataset.
-                    if hasattr(element.driver, 'rd'):
-                        raise
 
             yield element
 
-- 
2.43.0


From dfd5309e76f00722ed9fabaa13241d80025afb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 091/162] fix: combined metadata does not change the first
 request dataset

---
 src/ocgis/driver/request/multi_request.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ocgis/driver/request/multi_request.py b/src/ocgis/driver/request/multi_request.py
index f5820c4..8cc6b0d 100644
--- a/src/ocgis/driver/request/multi_request.py
+++ b/src/ocgis/driver/request/multi_request.py
@@ -42,6 +42,7 @@ class MultiRequestDataset(AbstractRequestObject):
         for rd in self.request_datasets:
             if build:
                 ret = rd.metadata.copy()
+                ret['variables'] = ret['variables'].copy()
                 build = False
             else:
                 for variable_name in get_iter(rd.variable):
-- 
2.43.0


From 47d059d91160463c243dd2a0d9f2badaf5e90688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 092/162] fix: reading a field does not change the dimension
 map of its request dataset

---
 src/ocgis/driver/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 87c55e2..573bffd 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -255,7 +255,8 @@ class AbstractDriver(AbstractOcgisObject):
         # Get the appropriate metadata for the collection.
         group_metadata = self.get_group_metadata(raw_field.group, self.metadata_source)
         # Always pull the dimension map from the request dataset. This allows it to be overloaded.
-        dimension_map = self.get_group_metadata(raw_field.group, self.rd.dimension_map)
+        # The map is modified below and the request dataset must not be.
+        dimension_map = deepcopy(self.get_group_metadata(raw_field.group, self.rd.dimension_map))
 
         # Modify the coordinate system variable. If it is overloaded on the request dataset, then the variable
         # collection needs to be updated to hold the variable and any alternative coordinate systems needs to be
-- 
2.43.0


From 92db401ec8974efe76310fcb9536eaf80af64a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:15 +0000
Subject: [PATCH 093/162] fix: chunked-rwg removes only a working directory it
 created and keeps an existing spatial subset

---
 src/ocgis/ocli.py | 51 ++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/ocgis/ocli.py b/src/ocgis/ocli.py
index 847d514..8bb5a1c 100644
--- a/src/ocgis/ocli.py
+++ b/src/ocgis/ocli.py
@@ -128,32 +128,33 @@ def chunked_rwg(source, destination, weight, nchunks_dst, merge, esmf_src_type,
     if spatial_subset and genweights and weight is None:
         raise ValueError('"weight" must be a valid path if --genweights')
 
-    # Make a temporary working directory is one is not provided by the client. Only do this if we are writing subsets
-    # and it is not a merge only operation.
-    should_create_wd = (nchunks_dst is None or not all([ii == 1 for ii in nchunks_dst])) or spatial_subset
-    if should_create_wd:
-        if wd is None:
-            if ocgis.vm.rank == 0:
-                wd = tempfile.mkdtemp(prefix='ocgis_chunked_rwg_')
-            wd = ocgis.vm.bcast(wd)
-        else:
-            exc = None
-            if ocgis.vm.rank == 0:
-                # The working directory must not exist to proceed.
-                if nchunks_dst is not None:
-                    if os.path.exists(wd):
-                        exc = ValueError("Working directory {} must not exist.".format(wd))
-                    else:
-                        # Make the working directory nesting as needed.
-                        os.makedirs(wd)
-            exc = ocgis.vm.bcast(exc)
-            if exc is not None:
-                raise exc
+    if merge and not spatial_subset or (spatial_subset and genweights):
+        if wd is not None and _is_subdir_(wd, weight):
+            raise ValueError(
+                'Merge weight file path must not in the working directory. It may get unintentionally deleted with the --no_persist flag.')
 
-        if merge and not spatial_subset or (spatial_subset and genweights):
-            if _is_subdir_(wd, weight):
-                raise ValueError(
-                    'Merge weight file path must not in the working directory. It may get unintentionally deleted with the --no_persist flag.')
+    # Do not replace an existing spatial subset.
+    if spatial_subset and spatial_subset_path is not None and os.path.exists(spatial_subset_path):
+        raise ValueError("Spatial subset path {} must not exist.".format(spatial_subset_path))
+
+    # Make a temporary working directory if one is not provided by the client. The working directory is removed following
+    # execution, hence it must always be created here.
+    if wd is None:
+        if ocgis.vm.rank == 0:
+            wd = tempfile.mkdtemp(prefix='ocgis_chunked_rwg_')
+        wd = ocgis.vm.bcast(wd)
+    else:
+        exc = None
+        if ocgis.vm.rank == 0:
+            # The working directory must not exist to proceed.
+            if os.path.exists(wd):
+                exc = ValueError("Working directory {} must not exist.".format(wd))
+            else:
+                # Make the working directory nesting as needed.
+                os.makedirs(wd)
+        exc = ocgis.vm.bcast(exc)
+        if exc is not None:
+            raise exc
 
     # Create the source and destination request datasets.
     rd_src = _create_request_dataset_(source, esmf_src_type, data_variables=data_variables)
-- 
2.43.0


From 1fdd011ef9565e7c23bec50b04a1008a5668cba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:15 +0000
Subject: [PATCH 094/162] fix: chunked-rwg changes no weight file it did not
 write

---
 src/ocgis/ocli.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/ocli.py b/src/ocgis/ocli.py
index 8bb5a1c..c08d4fd 100644
--- a/src/ocgis/ocli.py
+++ b/src/ocgis/ocli.py
@@ -186,6 +186,9 @@ def chunked_rwg(source, destination, weight, nchunks_dst, merge, esmf_src_type,
                      genweights=genweights, esmf_kwargs=esmf_kwargs, use_spatial_decomp='auto', eager=eager,
                      filemode=weightfilemode)
 
+    # Flag to indicate the global weight file is created by this execution.
+    weight_written = False
+
     # Write subsets and generate weights if requested in the grid splitter.
     # TODO: Need a weight only option. If chunks are written, then weights are written...
     if not spatial_subset and nchunks_dst is not None and not gs.is_one_chunk:
@@ -200,6 +203,7 @@ def chunked_rwg(source, destination, weight, nchunks_dst, merge, esmf_src_type,
             ocgis_lh(msg=msg, level=logging.INFO, logger=CRWG_LOG)
             handle_weight_file_check(weight)
             gs.write_esmf_weights(source, destination, weight, filemode=weightfilemode)
+            weight_written = True
 
     # Create the global weight file. This does not apply to spatial subsets because there will always be one weight
     # file.
@@ -212,6 +216,7 @@ def chunked_rwg(source, destination, weight, nchunks_dst, merge, esmf_src_type,
                 ocgis_lh(msg=msg, level=logging.INFO, logger=CRWG_LOG)
                 handle_weight_file_check(weight)
                 gs.create_merged_weight_file(weight)
+        weight_written = True
         excs = ocgis.vm.gather(exc)
         excs = ocgis.vm.bcast(excs)
         for exc in excs:
@@ -221,8 +226,8 @@ def chunked_rwg(source, destination, weight, nchunks_dst, merge, esmf_src_type,
         ocgis.vm.barrier()
 
     # Append the history string if there is an output weight file.
-    if weight and ocgis.vm.rank == 0:
-        if os.path.exists(weight):
+    if weight_written and ocgis.vm.rank == 0:
+        if weight and os.path.exists(weight):
             # Add some additional stuff for record keeping
             import getpass
             import socket
-- 
2.43.0


From 82d4adbcfe51c0c03b4aabb02541fe756c5ebf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 095/162] fix: weight files nested in the working directory are
 refused

---
 src/ocgis/ocli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/ocli.py b/src/ocgis/ocli.py
index c08d4fd..fd14cfe 100644
--- a/src/ocgis/ocli.py
+++ b/src/ocgis/ocli.py
@@ -329,8 +329,8 @@ def _is_subdir_(path, potential_subpath):
     # https://stackoverflow.com/questions/3812849/how-to-check-whether-a-directory-is-a-sub-directory-of-another-directory#18115684
     path = os.path.realpath(path)
     potential_subpath = os.path.realpath(potential_subpath)
-    relative = os.path.relpath(path, potential_subpath)
-    return not relative.startswith(os.pardir + os.sep)
+    relative = os.path.relpath(potential_subpath, path)
+    return relative != os.pardir and not relative.startswith(os.pardir + os.sep)
 
 
 def _write_spatial_subset_(rd_src, rd_dst, spatial_subset_path, src_resmax=None):
-- 
2.43.0


From 6bd8c1d4599b2ae5494d05993df2ce6b2bf406f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 096/162] fix: a prefix may not lead out of the output
 directory

---
 src/ocgis/ops/parms/definition.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 1e32283..b3d5ae1 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -1016,6 +1016,13 @@ class Prefix(base.StringParameter):
         msg = 'Data output given the following prefix: {0}.'.format(self.value)
         return msg
 
+    def _validate_(self, value):
+        # The output must be located inside the output directory. The prefix may not be the directory itself.
+        path = os.path.normpath(value)
+        if os.path.isabs(path) or path in (os.curdir, os.pardir) or path.startswith(os.pardir + os.sep):
+            msg = 'The prefix must name an output inside the output directory: "{}"'.format(value)
+            raise DefinitionValidationError(self, msg)
+
 
 class RegridDestination(base.AbstractParameter):
     name = 'regrid_destination'
-- 
2.43.0


From 04cf630f932b3a0a7c8319567fa88adc5cb2a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:25 +0000
Subject: [PATCH 097/162] fix: user geometry and identifier shapefiles are not
 replaced without overwrite

---
 src/ocgis/conv/base.py    | 43 ++++++++++++++++++++++++++++++---------
 src/ocgis/conv/csv_.py    | 12 ++++++++++-
 src/ocgis/util/helpers.py | 15 ++++++++++++++
 3 files changed, 59 insertions(+), 11 deletions(-)

diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index 5ab9891..f575e09 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -13,7 +13,7 @@ from ocgis.base import AbstractOcgisObject
 from ocgis.collection.spatial import SpatialCollection
 from ocgis.constants import TagName, MPIWriteMode, KeywordArgument, SubcommName
 from ocgis.driver.vector import DriverVector
-from ocgis.util.helpers import get_iter, get_tuple
+from ocgis.util.helpers import get_existing_output, get_iter, get_tuple
 from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.vmachine.mpi import MPI_RANK
 
@@ -76,13 +76,17 @@ class AbstractFileConverter(AbstractConverter):
             self.path = self.outdir
         else:
             self.path = os.path.join(self.outdir, prefix + '.' + self._ext)
-            if os.path.exists(self.path):
-                if not self.overwrite:
-                    msg = messages.M3.format(self.path)
-                    raise IOError(msg)
+            self._raise_if_exists_(self.path)
 
         self._log = ocgis_lh.get_logger('conv')
 
+    def _raise_if_exists_(self, path):
+        """Raise an exception if writing to ``path`` replaces existing files and overwriting is not allowed."""
+        if not self.overwrite:
+            existing = get_existing_output(path)
+            if existing:
+                raise IOError(messages.M3.format(existing[0]))
+
 
 @six.add_metaclass(abc.ABCMeta)
 class AbstractCollectionConverter(AbstractFileConverter):
@@ -147,12 +151,28 @@ class AbstractCollectionConverter(AbstractFileConverter):
     def _write_coll_(self, f, coll):
         raise NotImplementedError
 
+    def _get_shp_folder_(self):
+        return os.path.join(self.outdir, 'shp')
+
     def _get_or_create_shp_folder_(self):
-        path = os.path.join(self.outdir, 'shp')
+        path = self._get_shp_folder_()
         if not os.path.exists(path):
             os.mkdir(path)
         return path
 
+    def _iter_secondary_paths_(self, write_ugeom):
+        """
+        Yield paths to files written in addition to the target file.
+
+        :param bool write_ugeom: If ``True``, user geometries are written.
+        """
+        if write_ugeom:
+            yield self._get_ugeom_path_()
+
+    def _get_ugeom_path_(self):
+        folder = self._get_shp_folder_() if self._add_ugeom_nest else self.outdir
+        return os.path.join(folder, self.prefix + '_ugid.shp')
+
     def _preformatting_(self, i, coll):
         """Prepare collection before it is written to disk."""
         return coll
@@ -180,14 +200,17 @@ class AbstractCollectionConverter(AbstractFileConverter):
                 if self._add_ugeom and coll.has_container_geometries:
                     write_ugeom = True
 
+                if vm.rank == 0:
+                    # The target file is checked when the converter is created.
+                    for path in self._iter_secondary_paths_(write_ugeom):
+                        self._raise_if_exists_(path)
+
                 if write_ugeom:
                     if vm.rank == 0:
                         # The output file name for the user geometries.
-                        ugid_shp_name = self.prefix + '_ugid.shp'
                         if self._add_ugeom_nest:
-                            ugeom_fiona_path = os.path.join(self._get_or_create_shp_folder_(), ugid_shp_name)
-                        else:
-                            ugeom_fiona_path = os.path.join(self.outdir, ugid_shp_name)
+                            self._get_or_create_shp_folder_()
+                        ugeom_fiona_path = self._get_ugeom_path_()
                     else:
                         ugeom_fiona_path = None
 
diff --git a/src/ocgis/conv/csv_.py b/src/ocgis/conv/csv_.py
index 43a8fe7..34a51c3 100644
--- a/src/ocgis/conv/csv_.py
+++ b/src/ocgis/conv/csv_.py
@@ -59,6 +59,15 @@ class CsvShapefileConverter(CsvConverter):
         if self.ops is None:
             raise ValueError('The argument "ops" may not be "None".')
 
+    def _get_gid_path_(self):
+        return os.path.join(self._get_shp_folder_(), self.prefix + '_gid.shp')
+
+    def _iter_secondary_paths_(self, write_ugeom):
+        for path in super(CsvShapefileConverter, self)._iter_secondary_paths_(write_ugeom):
+            yield path
+        if not self.ops.aggregate:
+            yield self._get_gid_path_()
+
     def _write_coll_(self, f, coll, add_geom_uid=True):
         ocgis_lh(msg='entering _write_coll_ in {}'.format(self.__class__), logger='csv-shp.converter',
                  level=logging.DEBUG)
@@ -76,7 +85,8 @@ class CsvShapefileConverter(CsvConverter):
 
         # The output geometry identifier shapefile path.
         if vm.rank == 0:
-            fiona_path = os.path.join(self._get_or_create_shp_folder_(), self.prefix + '_gid.shp')
+            self._get_or_create_shp_folder_()
+            fiona_path = self._get_gid_path_()
         else:
             fiona_path = None
         fiona_path = vm.bcast(fiona_path)
diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index b05cc1e..8f30afc 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -67,6 +67,21 @@ def add_shapefile_unique_identifier(in_path, out_path, name=None, template=None)
     return out_path
 
 
+def get_existing_output(path):
+    """
+    Find files which would be replaced if ``path`` is written. A shapefile consists of several files.
+
+    :param str path: Path to the output file.
+    :rtype: list[str]
+    """
+
+    paths = [path]
+    root, ext = os.path.splitext(path)
+    if ext == '.shp':
+        paths.extend([root + ii for ii in ['.shx', '.dbf', '.prj', '.cpg']])
+    return [ii for ii in paths if os.path.exists(ii)]
+
+
 def format_bool(value):
     """
     Format a string to boolean.
-- 
2.43.0


From 7f61b15e406ae2148bf4a5b8b98ae93e0d72ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:25 +0000
Subject: [PATCH 098/162] fix: ShpProcess does not replace existing files

---
 src/ocgis/util/shp_process.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ocgis/util/shp_process.py b/src/ocgis/util/shp_process.py
index a1bc6e7..80c8f8b 100644
--- a/src/ocgis/util/shp_process.py
+++ b/src/ocgis/util/shp_process.py
@@ -4,7 +4,9 @@ from collections import OrderedDict
 from warnings import warn
 
 import fiona
+from ocgis import env, messages
 from ocgis.constants import OCGIS_UNIQUE_GEOMETRY_IDENTIFIER
+from ocgis.util.helpers import get_existing_output
 from shapely.geometry.geo import shape, mapping
 
 
@@ -35,6 +37,10 @@ class ShpProcess(object):
             new_name = key + '.shp'
         # the name of the new shapefile
         new_shp = os.path.join(self.out_folder, new_name)
+        # Do not replace existing files including the source itself.
+        existing = get_existing_output(new_shp)
+        if existing and not env.OVERWRITE:
+            raise IOError(messages.M3.format(existing[0]))
         # update the schema to include UGID
         meta = self._get_meta_()
 
-- 
2.43.0


From becada0faa6496959f356deb0620ba343538b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:02 +0000
Subject: [PATCH 099/162] fix: variable_gather collects on the requested root
 rank

---
 src/ocgis/vmachine/mpi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 2cabba3..201dcc7 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -812,7 +812,7 @@ def variable_gather(variable, root=0):
         if vm.rank == root:
             new_variable.set_dimensions(new_dimensions, force=True)
 
-        gathered_variables = vm.gather(variable)
+        gathered_variables = vm.gather(variable, root=root)
 
         if vm.rank == root:
             for idx, gv in enumerate(gathered_variables):
-- 
2.43.0


From 852598f3856fb1c85c1a803173229106d70ec015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:02 +0000
Subject: [PATCH 100/162] fix: gathering a variable resizes its bounds and
 combines differing source indices

---
 src/ocgis/vmachine/mpi.py | 54 +++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 201dcc7..a07e5fc 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -408,6 +408,32 @@ def dgather(elements):
     return grow
 
 
+def gather_source_indices(dimensions):
+    """
+    Combine the source indices from dimension parts. The parts are ordered by rank.
+
+    :param dimensions: The dimension parts.
+    :type dimensions: list of :class:`~ocgis.Dimension`
+    :return: The source indices in either bounds or fancy form. ``None`` if there are no source indices.
+    """
+    from ocgis.variable.dimension import create_src_idx
+
+    src_idx = [d._src_idx for d in dimensions]
+    if any([s is None for s in src_idx]):
+        ret = None
+    elif all([d._src_idx_type == SourceIndexType.BOUNDS for d in dimensions]) and \
+            all([src_idx[idx][1] == src_idx[idx + 1][0] for idx in range(len(src_idx) - 1)]):
+        ret = (src_idx[0][0], src_idx[-1][1])
+    else:
+        # Only fancy indices may combine indices which are not contiguous.
+        for idx, d in enumerate(dimensions):
+            if d._src_idx_type == SourceIndexType.BOUNDS:
+                src_idx[idx] = create_src_idx(*src_idx[idx], dtype=DataType.DIMENSION_SRC_INDEX,
+                                              si_type=SourceIndexType.FANCY)
+        ret = hgather(src_idx).astype(DataType.DIMENSION_SRC_INDEX)
+    return ret
+
+
 def get_global_to_local_slice(start_stop, bounds_local):
     """
     :param start_stop: Two-element, integer sequence for the start and stop global indices.
@@ -766,6 +792,12 @@ def variable_gather(variable, root=0):
             new_variable._mask = None
             new_variable._value = None
             new_variable._dimensions = None
+            # Bounds are filled with the variable.
+            if new_variable.has_bounds:
+                new_bounds = new_variable.bounds
+                new_bounds.dtype = new_bounds.dtype
+                new_bounds._mask = None
+                new_bounds._value = None
             assert not new_variable.has_allocated_value
         else:
             new_variable = None
@@ -782,28 +814,12 @@ def variable_gather(variable, root=0):
 
         for idx, dim in enumerate(variable.dimensions):
             if dim.dist:
-                parts = vm.gather(dim)
+                parts = vm.gather(dim, root=root)
             if vm.rank == root:
                 new_dim = dim.copy()
                 if dim.dist:
-                    new_size = 0
-                    has_src_idx = False
-                    for part in parts:
-                        has_src_idx = part._src_idx is not None
-                        new_size += len(part)
-                    if has_src_idx:
-                        if part._src_idx_type == SourceIndexType.FANCY:
-                            new_src_idx = np.zeros(new_size, dtype=DataType.DIMENSION_SRC_INDEX)
-                            for part in parts:
-                                new_src_idx[part.bounds_local[0]: part.bounds_local[1]] = part._src_idx
-                        else:
-                            part_bounds = [None] * len(parts)
-                            for idx2, part in enumerate(parts):
-                                part_bounds[idx2] = part._src_idx
-                            part_bounds = np.array(part_bounds)
-                            new_src_idx = (part_bounds.min(), part_bounds.max())
-                    else:
-                        new_src_idx = None
+                    new_size = sum([len(part) for part in parts])
+                    new_src_idx = gather_source_indices(parts)
                     new_dim = dim.copy()
                     new_dim.set_size(new_size, src_idx=new_src_idx)
                     new_dim.dist = False
-- 
2.43.0


From 335513df2969b4f0965bd2ab98e175752b8e632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:02 +0000
Subject: [PATCH 101/162] fix: scattering a variable collection scatters its
 children

---
 src/ocgis/vmachine/mpi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index a07e5fc..3dcec14 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -773,7 +773,7 @@ def variable_collection_scatter(variable_collection, dest_dist):
     else:
         children = [None] * n_children
     for child in children:
-        scattered_child = variable_collection_scatter(child, dest_dist)[0]
+        scattered_child = variable_collection_scatter(child, dest_dist)
         svc.add_child(scattered_child, force=True)
 
     return svc
-- 
2.43.0


From 4fd33973a612c327503b47cec8f4dce0c2b86335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 102/162] fix: a distribution leaves at least one rank with
 data and may cover a subset of ranks

---
 src/ocgis/vmachine/mpi.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 3dcec14..0d25bd7 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -257,12 +257,12 @@ class OcgDist(AbstractOcgisObject):
 
     def get_empty_ranks(self, group=None, inverse=False):
         ret = []
-        for rank in range(self.size):
+        for rank in self.ranks:
             the_group = self.get_group(group, rank=rank)
             if any([dim.is_empty for dim in list(the_group['dimensions'].values())]):
                 ret.append(rank)
         if inverse:
-            ret = set(range(self.size)) - set(ret)
+            ret = set(self.ranks) - set(ret)
             ret = list(ret)
             ret.sort()
         return tuple(ret)
@@ -303,11 +303,13 @@ class OcgDist(AbstractOcgisObject):
             raise ValueError('"min_elements" must be >= 1.')
 
         if rank == 'all':
-            ranks = list(range(self.size))
+            ranks = list(self.ranks)
         else:
             ranks = [rank]
 
         for rank in ranks:
+            # The rank's position in the distribution. Ranks may be a subset of the available ranks.
+            rank_index = list(self.ranks).index(rank)
             for _, group_data in self.iter_groups(rank=rank):
                 dimdict = group_data['dimensions']
 
@@ -333,14 +335,15 @@ class OcgDist(AbstractOcgisObject):
                 if len(distributed_dimension) < the_size:
                     the_size = len(distributed_dimension)
                 # Use the minimum number of elements per rank to potentially adjust the size.
-                min_size = int(np.floor(len(distributed_dimension) / float(min_elements)))
+                # There must always be one rank to hold the elements.
+                min_size = max(int(np.floor(len(distributed_dimension) / float(min_elements))), 1)
                 if self.size > 1 and min_size < the_size:
                     the_size = min_size
 
                 # Fix the global bounds.
                 distributed_dimension.bounds_global = (0, len(distributed_dimension))
                 # Use this to calculate the local bounds for a dimension.
-                bounds_local = get_rank_bounds(len(distributed_dimension), the_size, rank)
+                bounds_local = get_rank_bounds(len(distributed_dimension), the_size, rank_index)
                 if bounds_local is not None:
                     from ocgis.variable.dimension import slice_source_index
                     start, stop = bounds_local
-- 
2.43.0


From 4aa75a76bee49759e389632d1d2d54e77351b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 103/162] fix: create_unique_global_array supports empty local
 arrays and holds its send buffers

---
 src/ocgis/util/helpers.py | 19 +++++++++++++++----
 src/ocgis/vmachine/mpi.py |  3 ++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 8f30afc..53a6368 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -1076,14 +1076,18 @@ def create_unique_global_array(arr):
     unique_local = np.unique(arr)
     vm.barrier()
 
-    local_bounds = min(unique_local), max(unique_local)
+    # Ranks without elements have no bounds.
+    if unique_local.size > 0:
+        local_bounds = min(unique_local), max(unique_local)
+    else:
+        local_bounds = None
     lb_global = vm.gather(local_bounds)
     lb_global = vm.bcast(lb_global)
 
     # Find the vm ranks the local rank cares about. It cares if unique values have overlapping unique bounds.
     overlaps = []
     for rank, lb in enumerate(lb_global):
-        if rank == vm.rank:
+        if rank == vm.rank or lb is None or local_bounds is None:
             continue
         contains = []
         for lb2 in local_bounds:
@@ -1104,14 +1108,18 @@ def create_unique_global_array(arr):
     np_type = unique_local.dtype
     mpi_type = vm.get_mpi_type(np_type)
 
+    # Requests hold the buffers until the messages are received.
+    requests = []
     for o in overlaps:
         if vm.rank != o and vm.rank < o:
             dest_rank_bounds = lb_global[o]
             select_send = np.logical_and(unique_local >= dest_rank_bounds[0], unique_local <= dest_rank_bounds[1])
             u_src = unique_local[select_send]
             select_send_size = u_src.size
-            _ = vm.comm.Isend([np.array([select_send_size], dtype=np_type), mpi_type], dest=o, tag=tag_select_send_size)
-            _ = vm.comm.Isend([u_src, mpi_type], dest=o, tag=tag_overlap)
+            req = vm.comm.Isend([np.array([select_send_size], dtype=np_type), mpi_type], dest=o, tag=tag_select_send_size)
+            requests.append(req)
+            req = vm.comm.Isend([u_src, mpi_type], dest=o, tag=tag_overlap)
+            requests.append(req)
 
     # Receive and process conflicts to reduce the unique local values.
     if vm.rank != 0:
@@ -1132,6 +1140,9 @@ def create_unique_global_array(arr):
                         utokeep[uidx] = False
                 unique_local = unique_local[utokeep]
 
+    for req in requests:
+        req.wait()
+
     vm.barrier()
     return unique_local
 
diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 0d25bd7..3ba8de6 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -25,7 +25,8 @@ else:
     else:
         MPI_ENABLED = False
     MPI_TYPE_MAPPING = {np.int32: MPI.INT, np.int64: MPI.LONG_LONG,
-                        np.dtype('int32'): MPI.INT, np.dtype('float64'): MPI.LONG_LONG}
+                        np.dtype('int32'): MPI.INT, np.dtype('float32'): MPI.FLOAT,
+                        np.dtype('float64'): MPI.DOUBLE}
 
 
 class DummyMPIComm(object):
-- 
2.43.0


From 2fddf1b5bb47f62afef930d18d79deda8043fc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 104/162] fix: distributed slices keep steps, open and negative
 bounds and treat fancy indices as local

---
 src/ocgis/variable/base.py      | 19 ++++++++----
 src/ocgis/variable/dimension.py | 54 ++++++++++++++++++++++++++++++---
 2 files changed, 62 insertions(+), 11 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 1e6fe70..454b5d7 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -23,7 +23,7 @@ from ocgis.util.helpers import get_iter, get_formatted_slice, get_bounds_from_1d
 from ocgis.util.helpers import is_auto_dtype
 from ocgis.util.units import get_units_object, get_conformed_units
 from ocgis.variable.attributes import Attributes
-from ocgis.variable.dimension import Dimension
+from ocgis.variable.dimension import Dimension, get_fancy_slice
 from ocgis.variable.iterator import Iterator
 from ocgis.vmachine.mpi import create_nd_slices, get_global_to_local_slice
 
@@ -1269,7 +1269,15 @@ class Variable(AbstractContainer, Attributes):
 
         raise_if_empty(self)
 
-        slc = get_formatted_slice(slc, self.ndim)
+        # Fancy slices are local. Contiguous indices should not be formatted to a slice.
+        formatted_slc = list(get_formatted_slice(slc, self.ndim))
+        if self.ndim == 1 or isinstance(slc, slice):
+            slc = [slc]
+        for idx, element in enumerate(slc):
+            fancy_slc = get_fancy_slice(element)
+            if fancy_slc is not None:
+                formatted_slc[idx] = fancy_slc
+        slc = formatted_slc
         new_dimensions = [None] * self.ndim
         dimensions = self.dimensions
         for idx in range(self.ndim):
@@ -1281,15 +1289,14 @@ class Variable(AbstractContainer, Attributes):
             ret = self.copy()
             ret.convert_to_empty()
         else:
-            slc = get_formatted_slice(slc, self.ndim)
             local_slc = [slice(None)] * self.ndim
             for idx in range(self.ndim):
                 slc_idx = slc[idx]
                 if isinstance(slc_idx, slice):
                     if slc_idx != slice(None):
-                        local_slc_args = get_global_to_local_slice([slc_idx.start, slc_idx.stop],
-                                                                   dimensions[idx].bounds_local)
-                        local_slc[idx] = slice(*local_slc_args)
+                        if dimensions[idx].dist:
+                            slc_idx = dimensions[idx]._get_local_slice_(slc_idx)
+                        local_slc[idx] = slc_idx
                 else:
                     # Allow for fancy slicing.
                     if slc_idx.dtype == bool:
diff --git a/src/ocgis/variable/dimension.py b/src/ocgis/variable/dimension.py
index 8ab6617..5ad0257 100644
--- a/src/ocgis/variable/dimension.py
+++ b/src/ocgis/variable/dimension.py
@@ -306,8 +306,13 @@ class Dimension(AbstractNamedObject):
 
         raise_if_empty(self)
 
-        slc = get_formatted_slice(slc, 1)[0]
-        is_fancy = not isinstance(slc, slice)
+        fancy_slc = get_fancy_slice(slc)
+        is_fancy = fancy_slc is not None
+        if is_fancy:
+            # Fancy slices are local. Do not let contiguous indices become a slice as those are global.
+            slc = fancy_slc
+        else:
+            slc = get_formatted_slice(slc, 1)[0]
 
         if not is_fancy and slc == slice(None):
             ret = self.copy()
@@ -317,10 +322,11 @@ class Dimension(AbstractNamedObject):
         else:
             if is_fancy:
                 local_slc = slc
+                # The rank has no elements if nothing is selected.
+                if len(slc) == 0 or (slc.dtype == bool and not slc.any()):
+                    local_slc = None
             else:
-                local_slc = get_global_to_local_slice((slc.start, slc.stop), self.bounds_local)
-                if local_slc is not None:
-                    local_slc = slice(*local_slc)
+                local_slc = self._get_local_slice_(slc)
             # Slice does not overlap local bounds. The dimension is now empty with size 0.
             if local_slc is None:
                 ret = self.copy()
@@ -402,6 +408,27 @@ class Dimension(AbstractNamedObject):
         """
         return self.name
 
+    def _get_local_slice_(self, slc):
+        # Convert a global slice to its rank-local counterpart. Returns None if the slice does not overlap the local
+        # bounds. Steps are converted to local, integer indices.
+        start, stop, step = slc.indices(self.size_global)
+        if step < 1:
+            raise ValueError('Distributed slices require a positive step.')
+        ret = None
+        if start < stop:
+            lower = self.bounds_local[0]
+            ret = get_global_to_local_slice((start, stop), self.bounds_local)
+            if ret is not None:
+                if step == 1:
+                    ret = slice(*ret)
+                else:
+                    # The first local index included in the global slice.
+                    first = ret[0] + (start - (ret[0] + lower)) % step
+                    ret = np.arange(first, ret[1], step)
+                    if len(ret) == 0:
+                        ret = None
+        return ret
+
     def _get_normalized_slice_(self, slc):
         # Express the slice using non-negative indices inside the dimension. Steps are converted to fancy indices.
         if isinstance(slc, slice):
@@ -515,6 +542,23 @@ def create_src_idx(start, stop, dtype=np.int32, si_type=SourceIndexType.BOUNDS):
     return ret
 
 
+def get_fancy_slice(slc):
+    """
+    :param slc: A slice-like object for a single dimension.
+    :return: The integer or boolean index array if ``slc`` is a fancy slice. Otherwise, ``None``.
+    :rtype: :class:`numpy.ndarray`
+    """
+    if isinstance(slc, (list, tuple)) and len(slc) == 1 and isinstance(slc[0], (np.ndarray, list, tuple)):
+        slc = slc[0]
+    if isinstance(slc, (list, tuple)) and len(slc) > 0 and all([isinstance(s, (int, np.integer)) for s in slc]):
+        slc = np.array(slc)
+    if isinstance(slc, np.ndarray) and slc.ndim == 1:
+        ret = slc
+    else:
+        ret = None
+    return ret
+
+
 def identify_source_index_type(src_idx):
     if src_idx is None:
         ret = None
-- 
2.43.0


From 0cccd5c24a381d4c9a0d16c5d087d018097198ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 105/162] fix: spatial averages over ranks are weighted by the
 area of the averaged data

---
 src/ocgis/variable/geom.py | 76 ++++++++++++++------------------------
 1 file changed, 28 insertions(+), 48 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 58a2fa5..19f0237 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1,5 +1,5 @@
 import logging
-from collections import deque
+from collections import OrderedDict, deque
 from copy import deepcopy
 from itertools import product
 
@@ -948,6 +948,10 @@ class GeometryVariable(AbstractSpatialVariable):
 
         # Spatial average shared dimensions.
         if spatial_average is not None:
+            # Weights are relative to the largest local area. Keep total weights to combine local averages in parallel.
+            max_area = np.ma.filled(self.area.max(), 0.0) or 1.0
+            total_weights = OrderedDict()
+
             # Get source data to weight.
             for var_to_weight in filter(lambda ii: ii.name in variable_names_to_weight, list(self.parent.values())):
                 # Holds sizes of dimensions to iterate. These dimension are not squeezed by the weighted averaging.
@@ -989,6 +993,7 @@ class GeometryVariable(AbstractSpatialVariable):
                         target.dtype = float
                     target.set_dimensions(new_dimensions)
                     target.allocate_value()
+                    total_weights[var_to_weight.name] = np.zeros(target.shape, dtype=float)
 
                     # The main weighting loop. Can get quite intensive with many, large iteration dimensions.
                     len_names_to_itr = len(names_to_itr)
@@ -1005,13 +1010,16 @@ class GeometryVariable(AbstractSpatialVariable):
                         data_to_weight = var_to_weight[w_slc].get_masked_value()
                         if should_squeeze:
                             data_to_weight = np_squeeze(data_to_weight, axis=tuple(squeeze_out))
-                        weighted_value = np_atleast_1d(np_ma_average(data_to_weight, weights=weights))
+                        weighted_value, total_weight = np_ma_average(data_to_weight, weights=weights, returned=True)
+                        weighted_value = np_atleast_1d(weighted_value)
+                        target_slc = tuple(w_slc.get(dim.name, slice_none) for dim in new_dimensions)
+                        total_weights[var_to_weight.name][target_slc] = np.ma.filled(total_weight, 0.0) * max_area
                         target_sub = target[w_slc]
                         target_sub.get_value()[:] = np.ma.getdata(weighted_value)
                         if np.ma.is_masked(weighted_value):
                             # There is no data to average.
                             target_mask = target.get_mask(create=True)
-                            target_mask[tuple(w_slc.get(dim.name, slice_none) for dim in new_dimensions)] = True
+                            target_mask[target_slc] = True
                             target.set_mask(target_mask)
                 else:
                     target_to_weight = var_to_weight.get_masked_value()
@@ -1022,7 +1030,9 @@ class GeometryVariable(AbstractSpatialVariable):
                     target_to_weight = target_to_weight[sindices]
                     weights = weights[sindices]
 
-                    weighted_value = np.atleast_1d(np.ma.average(target_to_weight, weights=weights))
+                    weighted_value, total_weight = np.ma.average(target_to_weight, weights=weights, returned=True)
+                    weighted_value = np.atleast_1d(weighted_value)
+                    total_weights[var_to_weight.name] = np.atleast_1d(np.ma.filled(total_weight, 0.0) * max_area)
                     target = ret.parent[var_to_weight.name]
                     target.set_mask(None)
                     target._value = None
@@ -1031,51 +1041,21 @@ class GeometryVariable(AbstractSpatialVariable):
                     target.set_dimensions(new_dimensions)
                     target.set_value(weighted_value)
 
-            # Collect areas of live ranks and convert to weights.
+            # Combine the averages of live ranks using the total weights of the unmasked data.
             if vm.size > 1:
-                # If there is no area information (points for example, we need to use counts).
-                if ret.area.data[0].max() == 0:
-                    weight_or_proxy = float(self.size)
-                else:
-                    weight_or_proxy = ret.area.data[0]
-
-                if vm.rank != root:
-                    vm.comm.send(weight_or_proxy, dest=root)
-                else:
-                    live_rank_areas = [weight_or_proxy]
-                    for tner in vm.ranks:
-                        if tner != vm.rank:
-                            recv_area = vm.comm.recv(source=tner)
-                            live_rank_areas.append(recv_area)
-                    live_rank_areas = np.array(live_rank_areas)
-
-                    rank_weights = live_rank_areas / np.max(live_rank_areas)
-
-                for var_to_weight in filter(lambda ii: ii.name in variable_names_to_weight, list(ret.parent.values())):
-                    dimensions_to_itr = [dim.name for dim in var_to_weight.dimensions if
-                                         dim.name != union_dimension.name]
-                    slc = {union_dimension.name: 0}
-                    for idx_slc in var_to_weight.iter_dict_slices(dimensions=dimensions_to_itr):
-                        idx_slc.update(slc)
-                        to_weight = var_to_weight[idx_slc].get_value().flatten()[0]
-                        if vm.rank == root:
-                            collected_to_weight = [to_weight]
-                        if not vm.rank == root:
-                            vm.comm.send(to_weight, dest=root)
-                        else:
-                            for tner in vm.ranks:
-                                if not tner == root:
-                                    recv_to_weight = vm.comm.recv(source=tner)
-                                    collected_to_weight.append(recv_to_weight)
-
-                            # Sort to minimize floating point sum errors.
-                            collected_to_weight = np.array(collected_to_weight)
-                            sindices = np.argsort(collected_to_weight)
-                            collected_to_weight = collected_to_weight[sindices]
-                            rank_weights = rank_weights[sindices]
-
-                            weighted = np.atleast_1d(np.ma.average(collected_to_weight, weights=rank_weights))
-                            var_to_weight[idx_slc].get_value()[:] = weighted
+                for name, local_weights in total_weights.items():
+                    target = ret.parent[name]
+                    collected = vm.gather((target.get_value(), local_weights), root=root)
+                    if vm.rank == root:
+                        values = np.array([c[0] for c in collected])
+                        rank_weights = np.array([c[1] for c in collected])
+                        # Ranks may hold no data to average.
+                        values = np.ma.array(values, mask=rank_weights == 0)
+                        weighted = np.ma.average(values, axis=0, weights=rank_weights)
+                        target.set_mask(None)
+                        target.get_value()[:] = np.ma.getdata(weighted)
+                        if np.ma.is_masked(weighted):
+                            target.set_mask(np.ma.getmaskarray(weighted))
         if vm.rank == root:
             return ret
         else:
-- 
2.43.0


From eaae0a3b0b18b86a20947000cbbc424417ba9f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 106/162] fix: ranks emptied by a geometry intersection only
 need an empty parent

---
 src/ocgis/variable/geom.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 19f0237..dbaa2b8 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -697,8 +697,7 @@ class GeometryVariable(AbstractSpatialVariable):
         if not ret.is_empty:
             ret.set_mask(ret_mask.get_value(), cascade=cascade, update=True)
         else:
-            for var in list(ret.parent.values()):
-                assert var.is_empty
+            assert ret.parent.is_empty
 
         # TODO: need to implement fancy index-based slicing for the one-dimensional unstructured case. Difficult in parallel.
         # if self.ndim == 1:
-- 
2.43.0


From 3dbdaa3d506ccbd61be39ea6b408c59a6b63c255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:46 +0000
Subject: [PATCH 107/162] fix: grid subsets have masks and geometries on all
 ranks or none

---
 src/ocgis/spatial/grid.py | 46 +++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 55731df..002e1f0 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -674,15 +674,20 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
                 ret.set_mask(mask_to_set, cascade=True)
             sliced_grid, _, the_slice = get_masking_slice(original_mask, ret, apply_slice=apply_slice)
             sliced_grid_mask = sliced_grid.get_mask()
-            if not original_grid_has_mask and sliced_grid_mask is not None and not sliced_grid_mask.any():
-                sliced_grid.set_mask(None)
+            should_mask = is_any_masked(sliced_grid_mask) or original_grid_has_mask
+            if not sliced_grid.is_empty:
+                if not should_mask:
+                    if sliced_grid_mask is not None:
+                        sliced_grid.set_mask(None)
+                elif sliced_grid_mask is None:
+                    sliced_grid.set_mask(np.zeros(sliced_grid.shape, dtype=bool))
         else:
             fill_mask = original_mask
-            geometry_fill = None
+            if perform_intersection:
+                # Masked elements may be part of the global slice.
+                geometry_fill = np.zeros(fill_mask.shape, dtype=object)
             # If everything is masked, there is no reason to load the grid geometries.
             if not original_mask.all():
-                if perform_intersection:
-                    geometry_fill = np.zeros(fill_mask.shape, dtype=object)
                 if vm.size > 1:
                     new_intersects_target = subset_geom.intersection(box(*self.extent).buffer(1e-6))
                 else:
@@ -695,24 +700,17 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
                         geometry_fill[idx] = get_clipped_geometry(current_geometry, subset_geom)
 
             if perform_intersection:
-                if geometry_fill is None:
-                    if use_bounds:
-                        name = self._polygon_name
-                    else:
-                        name = self._point_name
-                    geometry_variable = GeometryVariable(name=name)
+                if use_bounds:
+                    geometry_variable = ret.get_polygon(value=geometry_fill, mask=fill_mask)
                 else:
-                    if use_bounds:
-                        geometry_variable = ret.get_polygon(value=geometry_fill, mask=fill_mask)
-                    else:
-                        geometry_variable = ret.get_point(value=geometry_fill, mask=fill_mask)
+                    geometry_variable = ret.get_point(value=geometry_fill, mask=fill_mask)
                 ret.parent.add_variable(geometry_variable, force=True)
 
             sliced_grid, sliced_mask, the_slice = get_masking_slice(fill_mask, ret, apply_slice=apply_slice)
 
             # Only modify the outgoing mask if any values are masked.
             sliced_mask_value = sliced_mask.get_value()
-            if sliced_mask_value is not None and sliced_mask_value.any():
+            if is_any_masked(sliced_mask_value) and not sliced_grid.is_empty:
                 sliced_grid.set_mask(sliced_mask_value, cascade=cascade)
 
         if perform_intersection:
@@ -1313,6 +1311,22 @@ def grid_set_geometry_variable_on_parent(func, grid, name, alloc_only=False):
     return ret
 
 
+def is_any_masked(mask):
+    """
+    Collective!
+
+    :param mask: The local mask. May be ``None``.
+    :type mask: :class:`numpy.ndarray`
+    :return: ``True`` if there are masked elements on any rank.
+    :rtype: bool
+    """
+    ret = mask is not None and bool(np.any(mask))
+    if vm.size > 1:
+        gathered = vm.gather(ret)
+        ret = vm.bcast(any(gathered) if vm.rank == 0 else None)
+    return ret
+
+
 def grid_set_mask_cascade(grid):
     members = grid.get_member_variables(include_bounds=True)
     # Elements which are already masked on the target variables stay masked.
-- 
2.43.0


From daf68bbead2373a75bef3c3c410c90670989e9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:46 +0000
Subject: [PATCH 108/162] fix: an existing output directory is refused on all
 ranks

---
 src/ocgis/ops/interpreter.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/ocgis/ops/interpreter.py b/src/ocgis/ops/interpreter.py
index c55f457..285dc8c 100644
--- a/src/ocgis/ops/interpreter.py
+++ b/src/ocgis/ops/interpreter.py
@@ -78,16 +78,23 @@ class OcgInterpreter(Interpreter):
                 # Auxiliary files require that a directory be created.
                 outdir = os.path.join(self.ops.dir_output, prefix)
                 # Create and/or remove the output directory.
+                exc_outdir = None
                 if vm.rank == 0:
-                    if os.path.exists(outdir):
-                        if env.OVERWRITE:
-                            shutil.rmtree(outdir)
-                        else:
-                            raise IOError('The output directory exists but env.OVERWRITE is False: {0}'.format(outdir))
-                    os.mkdir(outdir)
+                    try:
+                        if os.path.exists(outdir):
+                            if env.OVERWRITE:
+                                shutil.rmtree(outdir)
+                            else:
+                                raise IOError(
+                                    'The output directory exists but env.OVERWRITE is False: {0}'.format(outdir))
+                        os.mkdir(outdir)
+                    except (IOError, OSError) as e:
+                        exc_outdir = e
                 # Block until output directory is created. Most often the zero rank manages writing, but this is not a
-                # requirement.
-                vm.Barrier()
+                # requirement. All ranks need to stop if the directory may not be created.
+                exc_outdir = vm.bcast(exc_outdir)
+                if exc_outdir is not None:
+                    raise exc_outdir
                 # On an exception, the output directory needs to be removed.
                 made_output_directory = True
             else:
-- 
2.43.0


From c7b69978f48c8cf42dc703c7df093433d2ebbc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:46 +0000
Subject: [PATCH 109/162] fix: empty fields following spatial averaging keep
 their name

---
 src/ocgis/ops/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index a215fa6..2b25611 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -600,6 +600,7 @@ def _update_aggregation_wrapping_crs_(obj, alias, sfield, subset_sdim, subset_ug
 
         # Union the geometries and spatially average the data variables.
         # with vm.scoped(vm.get_live_ranks_from_object(sfield)):
+        sfield_name = sfield.name
         sfield = sfield.geom.get_unioned(spatial_average=sfield.data_variables)
         ocgis_lh('after sfield.geom.get_unioned in _update_aggregation_wrapping_crs_', obj._subset_log, alias=alias,
                  ugid=subset_ugid, level=logging.DEBUG)
@@ -609,7 +610,7 @@ def _update_aggregation_wrapping_crs_(obj, alias, sfield, subset_sdim, subset_ug
             if vm.size == 1:
                 raise ValueError('None should not be returned from get_unioned if running on a single processor.')
             else:
-                sfield = Field(is_empty=True)
+                sfield = Field(name=sfield_name, is_empty=True)
         else:
             sfield = sfield.parent
 
-- 
2.43.0


From 651e34a7c50898b6cc9bd0a05bb0e3750f315d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:46 +0000
Subject: [PATCH 110/162] fix: ranks emptied by a geometry or dataset take part
 in the next

---
 src/ocgis/ops/engine.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index 2b25611..8641cf4 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -61,17 +61,29 @@ class OperationsEngine(AbstractOcgisObject):
                 yield coll
         finally:
             # Try and remove any subcommunicators associated with operations.
-            for v in SubcommName.__members__.values():
-                try:
-                    vm.free_subcomm(name=v)
-                except SubcommNotFoundError:
-                    pass
-            vm.set_comm(self._original_subcomm)
+            self._reset_comm_(self._original_subcomm, list(SubcommName.__members__.values()))
 
             # Remove any back transformations.
             for v in constants.BackTransform.__members__.values():
                 self._backtransform.pop(v, None)
 
+    @staticmethod
+    def _reset_comm_(name, to_free):
+        """
+        Make a communicator the current one following the removal of subcommunicators.
+
+        :param str name: The name of the communicator.
+        :param to_free: Names of the subcommunicators to free if they are present.
+        :type to_free: list
+        """
+
+        for v in to_free:
+            try:
+                vm.free_subcomm(name=v)
+            except SubcommNotFoundError:
+                pass
+        vm.set_comm(name)
+
     def _iter_collections_(self):
         """:rtype: :class:`ocgis.collection.base.AbstractCollection`"""
 
@@ -106,6 +118,8 @@ class OperationsEngine(AbstractOcgisObject):
 
         # Process the incoming datasets. Convert from request datasets to fields as needed.
         for rds in itr_rd:
+            # Ranks emptied by the previous dataset take part again.
+            self._reset_comm_(self._original_subcomm, list(SubcommName.__members__.values()))
 
             try:
                 msg = 'Processing URI(s): {0}'.format([rd.uri for rd in rds])
@@ -299,19 +313,22 @@ class OperationsEngine(AbstractOcgisObject):
         ocgis_lh('processing geometries', self._subset_log, level=logging.DEBUG)
         # The field is transformed once. The original coordinate system is needed for all of the geometries.
         original_rotated_pole_crs = None
+        # The live ranks holding the field.
+        field_comm_name = vm.current_comm_name
 
         # Process each geometry.
         for subset_field in itr:
+            # Ranks emptied by the previous geometry take part again.
+            self._reset_comm_(field_comm_name, [SubcommName.SPATIAL_AVERAGE, SubcommName.FIELD_SUBSET])
 
             # Initialize the collection storage.
             coll = self._get_initialized_collection_()
+            # Always work with a copy of the subset geometry. This gets twisted in interesting ways depending on the
+            # subset target with wrapping, coordinate system conversion, etc.
+            subset_field = deepcopy(subset_field)
             if vm.is_null:
                 sfield = field
             else:
-                # Always work with a copy of the subset geometry. This gets twisted in interesting ways depending on the
-                # subset target with wrapping, coordinate system conversion, etc.
-                subset_field = deepcopy(subset_field)
-
                 if self.ops.regrid_destination is not None:
                     # If there is regridding, make another copy as this geometry may be manipulated during subsetting of
                     # sources.
-- 
2.43.0


From bc07918fa7ec4bab35fde963d663864a1665cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:46 +0000
Subject: [PATCH 111/162] fix: ranks without data know of empty time and level
 subsets

---
 src/ocgis/ops/engine.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index 8641cf4..0e998c8 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -248,15 +248,29 @@ class OperationsEngine(AbstractOcgisObject):
             assert isinstance(field, Field)
 
             # Break out of operations if the rank is empty.
+            original_comm_name = vm.current_comm_name
             vm.create_subcomm_by_emptyable(SubcommName.FIELD_GET, field, is_current=True, clobber=True)
-            if not vm.is_null:
-                if not has_field_optimizations:
+            if not has_field_optimizations:
+                # Time, level, etc. subsets.
+                exc_subset = None
+                if not vm.is_null:
                     if field.is_empty:
                         raise ValueError('No empty fields allowed.')
+                    try:
+                        field = self._get_nonspatial_subset_(field)
+                    except Exception as e:
+                        exc_subset = e
+                # Empty ranks must know if the subset is empty.
+                with vm.scoped_by_name(original_comm_name):
+                    is_empty_subset = vm.gather(isinstance(exc_subset, EmptySubsetError))
+                    is_empty_subset = vm.bcast(any(is_empty_subset) if vm.rank == 0 else None)
+                if exc_subset is not None:
+                    raise exc_subset
+                if is_empty_subset:
+                    raise EmptySubsetError
 
-                    # Time, level, etc. subsets.
-                    field = self._get_nonspatial_subset_(field)
-
+            if not vm.is_null:
+                if not has_field_optimizations:
                     # Spatially reorder the data.
                     ocgis_lh(msg='before spatial reorder', logger=self._subset_log, level=logging.DEBUG)
                     if self.ops.spatial_reorder:
-- 
2.43.0


From 1529517e1850742c7a944cee6531a5c13b078be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:54 +0000
Subject: [PATCH 112/162] fix: template files are present before ranks fill
 them and ranks fail together

---
 src/ocgis/driver/base.py   | 18 +++++++++++++++++-
 src/ocgis/driver/csv_.py   | 23 ++++++++++++++++-------
 src/ocgis/driver/vector.py | 31 +++++++++++++++++++------------
 3 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 573bffd..ca2dbbe 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -15,7 +15,7 @@ from ocgis.collection.field import Field
 from ocgis.constants import MPIWriteMode, TagName, KeywordArgument, OcgisConvention, VariableName, DecompositionType
 from ocgis.driver.dimension_map import DimensionMap
 from ocgis.exc import DefinitionValidationError, NoDataVariablesFound, DimensionMapError, VariableMissingMetadataError, \
-    GridDeficientError, OcgWarning
+    GridDeficientError, OcgWarning, OcgException
 from ocgis.util.helpers import get_group
 from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.variable.base import SourcedVariable
@@ -1088,3 +1088,19 @@ def iter_group_keys(ddict, keyseq):
         yld = deepcopy(keyseq)
         yld.append(key)
         yield yld
+
+
+def raise_if_rank_failed(exc, rank):
+    """
+    Collective! Raise an exception on all ranks if a rank failed. Otherwise, ranks would wait for the failed rank.
+
+    :param exc: The exception encountered by ``rank``. It is ``None`` with no failure and on other ranks.
+    :param int rank: The rank potentially failing.
+    :raises: OcgException
+    """
+
+    failed = vm.bcast(None if exc is None else '{}: {}'.format(type(exc).__name__, exc), root=rank)
+    if exc is not None:
+        raise exc
+    if failed is not None:
+        raise OcgException(message=failed)
diff --git a/src/ocgis/driver/csv_.py b/src/ocgis/driver/csv_.py
index d353906..a7f99ec 100644
--- a/src/ocgis/driver/csv_.py
+++ b/src/ocgis/driver/csv_.py
@@ -5,7 +5,7 @@ import six
 from ocgis import vm
 from ocgis.base import raise_if_empty
 from ocgis.constants import MPIWriteMode, KeywordArgument, DriverKey
-from ocgis.driver.base import driver_scope, AbstractTabularDriver
+from ocgis.driver.base import driver_scope, raise_if_rank_failed, AbstractTabularDriver
 
 
 class DriverCSV(AbstractTabularDriver):
@@ -69,19 +69,28 @@ class DriverCSV(AbstractTabularDriver):
             with driver_scope(cls, opened_or_path, mode='w') as opened:
                 writer = csv.DictWriter(opened, fieldnames)
                 writer.writeheader()
-        elif write_mode == MPIWriteMode.FILL and not cls.inquire_opened_state(opened_or_path):
+        # The header is written by the first rank.
+        vm.barrier()
+
+        if write_mode == MPIWriteMode.FILL and not cls.inquire_opened_state(opened_or_path):
             # Records must be aligned with the columns already in the file.
             with driver_scope(cls, opened_or_path, mode='r') as opened:
                 fieldnames = six.next(csv.reader(opened), fieldnames)
+        # All ranks must have read the header before records are written.
+        vm.barrier()
 
         if write_mode != MPIWriteMode.TEMPLATE:
             for current_rank_write in vm.ranks:
+                exc = None
                 if vm.rank == current_rank_write:
-                    with driver_scope(cls, opened_or_path, mode='a') as opened:
-                        writer = csv.DictWriter(opened, fieldnames)
-                        for _, record in vc.iter(**iter_kwargs):
-                            writer.writerow(record)
-                vm.barrier()
+                    try:
+                        with driver_scope(cls, opened_or_path, mode='a') as opened:
+                            writer = csv.DictWriter(opened, fieldnames)
+                            for _, record in vc.iter(**iter_kwargs):
+                                writer.writerow(record)
+                    except Exception as e:
+                        exc = e
+                raise_if_rank_failed(exc, current_rank_write)
 
     def _init_variable_from_source_main_(self, *args, **kwargs):
         pass
diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index c8ed9fa..30341c1 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -8,7 +8,7 @@ import numpy as np
 from ocgis import constants, vm
 from ocgis.constants import MPIWriteMode, DimensionName, KeywordArgument, DriverKey, DMK, SourceIndexType, VariableName, \
     HeaderName
-from ocgis.driver.base import driver_scope, AbstractTabularDriver
+from ocgis.driver.base import driver_scope, raise_if_rank_failed, AbstractTabularDriver
 from ocgis.driver.dimension_map import DimensionMap
 from ocgis.environment import get_dtype
 from ocgis.exc import RequestableFeature
@@ -259,22 +259,29 @@ class DriverVector(AbstractTabularDriver):
             with driver_scope(cls, opened_or_path=opened_or_path, mode='w', driver=fiona_driver, crs=fiona_crs,
                               schema=fiona_schema) as _:
                 pass
+        # The template is written by the first rank.
+        vm.barrier()
 
         # Write data on each rank to the file.
         if write_mode != MPIWriteMode.TEMPLATE:
             for rank_to_write in vm.ranks:
+                exc = None
                 if vm.rank == rank_to_write:
-                    # Drivers without update support must write again the records already in the file.
-                    retained = []
-                    if mode == 'w' and write_mode == MPIWriteMode.FILL and not cls.inquire_opened_state(opened_or_path):
-                        with fiona.open(opened_or_path, mode='r') as source:
-                            retained = list(source)
-                    with driver_scope(cls, opened_or_path=opened_or_path, mode=mode, driver=fiona_driver,
-                                      crs=fiona_crs, schema=fiona_schema) as sink:
-                        sink.writerecords(retained)
-                        itr = field.iter(**iter_kwargs)
-                        write_records_to_fiona(sink, itr, fiona_driver)
-                vm.barrier()
+                    try:
+                        # Drivers without update support must write again the records already in the file.
+                        retained = []
+                        if mode == 'w' and write_mode == MPIWriteMode.FILL and not cls.inquire_opened_state(
+                                opened_or_path):
+                            with fiona.open(opened_or_path, mode='r') as source:
+                                retained = list(source)
+                        with driver_scope(cls, opened_or_path=opened_or_path, mode=mode, driver=fiona_driver,
+                                          crs=fiona_crs, schema=fiona_schema) as sink:
+                            sink.writerecords(retained)
+                            itr = field.iter(**iter_kwargs)
+                            write_records_to_fiona(sink, itr, fiona_driver)
+                    except Exception as e:
+                        exc = e
+                raise_if_rank_failed(exc, rank_to_write)
 
 
 def format_record_for_fiona(driver, record):
-- 
2.43.0


From 43145ec6e9ed918ca4b83adb32412f1ce5fb9837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:54 +0000
Subject: [PATCH 113/162] fix: collections are converted and fail on all ranks

---
 src/ocgis/conv/base.py | 128 +++++++++++++++++++++++++++++++----------
 1 file changed, 99 insertions(+), 29 deletions(-)

diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index f575e09..b553a6b 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -13,6 +13,7 @@ from ocgis.base import AbstractOcgisObject
 from ocgis.collection.spatial import SpatialCollection
 from ocgis.constants import TagName, MPIWriteMode, KeywordArgument, SubcommName
 from ocgis.driver.vector import DriverVector
+from ocgis.exc import OcgException
 from ocgis.util.helpers import get_existing_output, get_iter, get_tuple
 from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.vmachine.mpi import MPI_RANK
@@ -120,12 +121,46 @@ class AbstractCollectionConverter(AbstractFileConverter):
         super(AbstractCollectionConverter, self).__init__(**kwargs)
 
     def __iter__(self):
-        for coll in self.colls:
+        for coll in self._iter_collections_(vm.current_comm_name):
             assert isinstance(coll, SpatialCollection)
             if not self._allow_empty and coll.is_empty:
                 continue
             yield coll
 
+    def _raise_collectively_(self, exc, original_comm_name):
+        """
+        Collective! Ranks fail together. Ranks without data do not notice other ranks failing.
+
+        :param exc: The exception encountered by this rank if any.
+        :param str original_comm_name: Name of the communicator of the ranks taking part.
+        """
+
+        with vm.scoped_by_name(original_comm_name):
+            failed = vm.gather(None if exc is None else '{}: {}'.format(type(exc).__name__, exc))
+            failed = vm.bcast([f for f in failed if f is not None] if vm.rank == 0 else None)
+        if exc is not None:
+            raise exc
+        if len(failed) > 0:
+            raise OcgException(message=failed[0])
+
+    def _iter_collections_(self, original_comm_name):
+        itr = iter(self.colls)
+        try:
+            while True:
+                coll, exc = None, None
+                try:
+                    coll = next(itr, None)
+                except Exception as e:
+                    exc = e
+                self._raise_collectively_(exc, original_comm_name)
+                if coll is None:
+                    break
+                yield coll
+        finally:
+            if hasattr(itr, 'close'):
+                # Restores the communicator when the collections are generated.
+                itr.close()
+
     @property
     def geom_uid(self):
         none_target = self.ops
@@ -177,6 +212,43 @@ class AbstractCollectionConverter(AbstractFileConverter):
         """Prepare collection before it is written to disk."""
         return coll
 
+    def _get_collective_state_(self, build, should_write, write_ugeom):
+        """
+        Collective! Share the state of a collection across ranks.
+
+        :param bool build: ``True`` if output files are not created yet.
+        :param bool should_write: ``True`` if the collection will be written by this rank.
+        :param bool write_ugeom: ``True`` if this rank will write user geometries.
+        :return: tuple(bool, bool)
+        :raises: IOError
+        """
+
+        gathered = vm.gather((should_write, write_ugeom))
+        state, exc = None, None
+        if vm.rank == 0:
+            state = tuple(any(flags) for flags in zip(*gathered))
+            if build and state[0]:
+                try:
+                    # The target file is checked when the converter is created.
+                    for path in self._iter_secondary_paths_(state[1]):
+                        self._raise_if_exists_(path)
+                except IOError as e:
+                    exc = e
+        state, exc = vm.bcast((state, exc))
+        if exc is not None:
+            raise exc
+        return state
+
+    def _write_user_geometries_(self, coll, write_mode):
+        with vm.scoped(SubcommName.UGEOM_WRITE, [0]):
+            if not vm.is_null:
+                # The output file name for the user geometries.
+                if self._add_ugeom_nest:
+                    self._get_or_create_shp_folder_()
+                ugeom_fiona_path = self._get_ugeom_path_()
+                for subset_field in list(coll.children.values()):
+                    subset_field.write(ugeom_fiona_path, write_mode=write_mode, driver=DriverVector)
+
     def write(self):
         ocgis_lh('starting write method', self._log, logging.DEBUG)
 
@@ -186,8 +258,23 @@ class AbstractCollectionConverter(AbstractFileConverter):
         # Path to the output object.
         f = {KeywordArgument.PATH: self.path}
 
+        # Collections may be empty on some ranks. All ranks need to agree on the state of the output.
+        original_comm_name = vm.current_comm_name
+
         build = True
-        for i, coll in enumerate(self):
+        for i, coll in enumerate(self._iter_collections_(original_comm_name)):
+            assert isinstance(coll, SpatialCollection)
+            should_write = self._allow_empty or not coll.is_empty
+
+            if build and self._add_ugeom and should_write and coll.has_container_geometries:
+                # Write the user geometries if selected and there is one present on the incoming collection.
+                write_ugeom = True
+
+            with vm.scoped_by_name(original_comm_name):
+                is_live, write_ugeom = self._get_collective_state_(build, should_write, write_ugeom)
+            if not is_live:
+                continue
+
             # This will be changed to "write" if we are on the build loop.
             write_mode = MPIWriteMode.APPEND
 
@@ -196,35 +283,18 @@ class AbstractCollectionConverter(AbstractFileConverter):
                 # the appropriate write modes for handling parallelism.
                 write_mode = None
 
-                # Write the user geometries if selected and there is one present on the incoming collection.
-                if self._add_ugeom and coll.has_container_geometries:
-                    write_ugeom = True
-
-                if vm.rank == 0:
-                    # The target file is checked when the converter is created.
-                    for path in self._iter_secondary_paths_(write_ugeom):
-                        self._raise_if_exists_(path)
-
-                if write_ugeom:
-                    if vm.rank == 0:
-                        # The output file name for the user geometries.
-                        if self._add_ugeom_nest:
-                            self._get_or_create_shp_folder_()
-                        ugeom_fiona_path = self._get_ugeom_path_()
-                    else:
-                        ugeom_fiona_path = None
-
                 build = False
 
-            f[KeywordArgument.WRITE_MODE] = write_mode
-
-            self._write_coll_(f, self._preformatting_(i, coll))
-
-            if write_ugeom:
-                with vm.scoped(SubcommName.UGEOM_WRITE, [0]):
-                    if not vm.is_null:
-                        for subset_field in list(coll.children.values()):
-                            subset_field.write(ugeom_fiona_path, write_mode=write_mode, driver=DriverVector)
+            exc = None
+            if should_write:
+                f[KeywordArgument.WRITE_MODE] = write_mode
+                try:
+                    self._write_coll_(f, self._preformatting_(i, coll))
+                    if write_ugeom:
+                        self._write_user_geometries_(coll, write_mode)
+                except Exception as e:
+                    exc = e
+            self._raise_collectively_(exc, original_comm_name)
 
         # The metadata and dataset descriptor files may only be written if OCGIS operations are present.
         ops = self.ops
-- 
2.43.0


From 2b503c7b2b69cd02afafeae79fbcd297902a45c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:14 +0000
Subject: [PATCH 114/162] fix: redistribute values of variables without a
 source

---
 src/ocgis/vmachine/mpi.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 3ba8de6..4295053 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -728,6 +728,25 @@ def redistribute_by_src_idx(variable, dimname, dimension):
     # This variable holds the new source indices.
     new_rank_src_idx = variable_scatter(global_src_idx, dest_dist)
 
+    # Variables without a source cannot be reloaded. Redistribute their values using the same order as the source indices.
+    in_memory = {}
+    for var in list(variable.parent.values()):
+        if dimname in var.dimension_names and not isinstance(var, SourcedVariable):
+            axis = var.dimension_names.index(dimname)
+            if dimension is None:
+                current = None
+            else:
+                current = (var.get_value(), var.get_mask())
+            current = vm.bcast(vm.gather(current))
+            current = [c for c in current if c is not None]
+            value = np.concatenate([c[0] for c in current], axis=axis)
+            if all([c[1] is None for c in current]):
+                mask = None
+            else:
+                mask = [np.zeros(c[0].shape, dtype=bool) if c[1] is None else c[1] for c in current]
+                mask = np.concatenate(mask, axis=axis)
+            in_memory[var.name] = (axis, value, mask)
+
     if new_rank_src_idx.is_empty:
         # Support new empty ranks following the scatter.
         variable.convert_to_empty()
@@ -751,6 +770,13 @@ def redistribute_by_src_idx(variable, dimname, dimension):
                 var.convert_to_empty()
             else:
                 _reset_variable_(var)
+                if var.name in in_memory:
+                    axis, value, mask = in_memory[var.name]
+                    select = [slice(None)] * value.ndim
+                    select[axis] = slice(*new_dim.bounds_local)
+                    var.set_value(value[tuple(select)])
+                    if mask is not None:
+                        var.set_mask(mask[tuple(select)])
 
 
 def variable_collection_scatter(variable_collection, dest_dist):
-- 
2.43.0


From 157ebe8c1d7bf18666c9bc4ee7dca056c527903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:14 +0000
Subject: [PATCH 115/162] fix: skip destination parts without elements in a
 spatial decomposition

---
 src/ocgis/spatial/grid_chunker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/spatial/grid_chunker.py b/src/ocgis/spatial/grid_chunker.py
index 5c08f8f..f1af700 100644
--- a/src/ocgis/spatial/grid_chunker.py
+++ b/src/ocgis/spatial/grid_chunker.py
@@ -482,6 +482,9 @@ class GridChunker(AbstractOcgisObject):
         if self.use_spatial_decomp:
             for sub, slc in iter_spatial_decomposition(self.dst_grid, self.nchunks_dst, optimized_bbox_subset=True,
                                                        yield_idx=yield_idx, no_touching=True):
+                # There may be no destination elements in a part of the decomposition.
+                if len(vm.get_live_ranks_from_object(sub)) == 0:
+                    continue
                 if yield_slice:
                     # Spatial subset may be empty on a rank...
                     if sub.is_empty:
-- 
2.43.0


From ff9ab1655faa6517c229dcb8645a8fc5267ab956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:14 +0000
Subject: [PATCH 116/162] fix: buffer destination chunks by at least the source
 resolution

---
 src/ocgis/spatial/grid_chunker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid_chunker.py b/src/ocgis/spatial/grid_chunker.py
index f1af700..69c856a 100644
--- a/src/ocgis/spatial/grid_chunker.py
+++ b/src/ocgis/spatial/grid_chunker.py
@@ -180,7 +180,8 @@ class GridChunker(AbstractOcgisObject):
         """
         Spatial distance in units of the destination grid to buffer the destination grid chunk's spatial extent when
         subsetting the associated source grid. Defaults to the higher spatial resolution times a modifier
-        (:attr:`ocgis.constants.GridChunkerConstants.BUFFER_RESOLUTION_MODIFIER`).
+        (:attr:`ocgis.constants.GridChunkerConstants.BUFFER_RESOLUTION_MODIFIER`). It is never less than the source
+        resolution.
 
         :param float value: Spatial buffer value
         :rtype: float
@@ -201,6 +202,9 @@ class GridChunker(AbstractOcgisObject):
                 else:
                     target_resolution = src_grid_resolution
                 ret = GridChunkerConstants.BUFFER_RESOLUTION_MODIFIER * target_resolution
+                # Source elements may be selected by their centers. Elements with centers outside the destination's extent
+                # must still be found.
+                ret = max(ret, src_grid_resolution)
             except NotImplementedError:
                 # Unstructured grids do not have an associated resolution unless they are isomorphic.
                 if isinstance(self.src_grid, GridUnstruct) or isinstance(self.dst_grid, GridUnstruct):
-- 
2.43.0


From 911639c65e1079cd3c84b75d8deeb748f786c8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:14 +0000
Subject: [PATCH 117/162] fix: keep a node on each rank when reducing
 coordinates

---
 src/ocgis/spatial/geomc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index f3410e2..208ea5f 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -913,6 +913,10 @@ def reduce_reindex_coordinate_index(cindex, start_index=0):
     ocgis_lh(msg='calling create_unique_global_array', logger='geomc', level=logging.DEBUG)
     if vm.size > 1:
         u = np.array(create_unique_global_array(cindex))
+        # Each rank with elements needs a node. Otherwise, the rank is considered empty. Repeat a node if all nodes used by
+        # the rank's elements are held by other ranks.
+        if len(u) == 0:
+            u = cindex[:1].copy()
     else:
         u = np.unique(cindex)
     ocgis_lh(msg='finished create_unique_global_array', logger='geomc', level=logging.DEBUG)
-- 
2.43.0


From 3b39883f3637ebc33f451be5d1c2a63370361f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:14 +0000
Subject: [PATCH 118/162] fix: keep connectivity attributes when reducing
 coordinates

---
 src/ocgis/spatial/geomc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index 208ea5f..90c7823 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -659,7 +659,8 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
         new_cindex, uidx = reduce_reindex_coordinate_index(self.cindex, start_index=self.start_index)
         ocgis_lh(msg='finished reduce_reindex_coordinate_index', logger='geomc', level=logging.DEBUG)
 
-        new_cindex = Variable(name=self.cindex.name, value=new_cindex, dimensions=self.cindex.dimensions)
+        new_cindex = Variable(name=self.cindex.name, value=new_cindex, dimensions=self.cindex.dimensions,
+                              attrs=self.cindex.attrs.copy())
 
         ret = self.copy()
         if self.start_index == 1:
-- 
2.43.0


From 313261d7ecca1f3ead7089ec75c111664b557a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:14 +0000
Subject: [PATCH 119/162] fix: make the spatial decomposition repeatable and
 yield single parts

---
 src/ocgis/spatial/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/spatial/base.py b/src/ocgis/spatial/base.py
index 1ac82d4..3c62584 100644
--- a/src/ocgis/spatial/base.py
+++ b/src/ocgis/spatial/base.py
@@ -784,16 +784,14 @@ def iter_spatial_decomposition(sobj, splits, **kwargs):
     # Add a slight buffer to the overall global extent followed by some jitter to the spatial decomposition. A touching
     # barrier will prevent duplicate destination cells.
     bbox = box(*extent_global).buffer(SPATIALDECOMP_BUFFER).envelope
-    jitter = np.random.random_sample(4) * SPATIALDECOMP_BUFFER
-    for ii in range(jitter.size):
-        if np.random.random() > 0.5:
-            jitter[ii] *= 1
+    # The decomposition must not change between calls. Parts may be requested one at a time.
+    jitter = np.random.RandomState(1).random_sample(4) * SPATIALDECOMP_BUFFER
     split_polygons = create_split_polygons(bbox, split_shape, jitter=jitter)
     for ctr, sp in enumerate(split_polygons):
         if yield_idx is not None:
             if ctr < yield_idx:
                 continue
-            else:
+            elif ctr > yield_idx:
                 break
         yield sobj.get_intersects(sp, **kwargs)
     # ------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 96e06a3a6c55fa9b7db48cbc1c663cb2502d96d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:15 +0000
Subject: [PATCH 120/162] fix: do not yield empty destination slices

---
 src/ocgis/driver/nc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 02efd39..297ff9b 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -528,7 +528,9 @@ def create_slices_for_dimension(size, splits):
     slices = []
     for rank in range(splits):
         dimension = ompi.get_dimension(dimname, rank=rank)
-        slices.append(dimension.bounds_local)
+        # There may be fewer slices than splits. Elements are not split below a minimum size.
+        if dimension.bounds_local[0] != dimension.bounds_local[1]:
+            slices.append(dimension.bounds_local)
     return slices
 
 
-- 
2.43.0


From 9ba7f968e2d0f05560adad0577cc9b04ddfbaf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:19 +0000
Subject: [PATCH 121/162] fix: keep only polygons when splitting by a node
 threshold

---
 src/ocgis/variable/geom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index dbaa2b8..4176517 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1368,7 +1368,9 @@ def get_split_polygon_by_node_threshold(geom, node_threshold):
             if n.geom.intersects(s):
                 the_intersection = n.geom.intersection(s)
                 for ti in get_iter(the_intersection, dtype=Polygon):
-                    n.splits.append(ti)
+                    # Splitters may also touch the element at points and lines.
+                    if isinstance(ti, Polygon) and not ti.is_empty:
+                        n.splits.append(ti)
 
                     # write_fiona(n.splits, '01-splits')
 
-- 
2.43.0


From 8856864d2355b2a6f38cc2ffc33cc4faf08a2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:19 +0000
Subject: [PATCH 122/162] fix: agree on multi-part connectivity across ranks

---
 src/ocgis/variable/geom.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 4176517..8fe23e6 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -575,8 +575,11 @@ class GeometryVariable(AbstractSpatialVariable):
                 element_index = Variable(name=element_index_name, value=element_index, dimensions=element_index_dims,
                                          dtype=ocgis_dtype, attrs={AttributeName.START_INDEX: start_index})
 
-                # Indicate there are multi-geometries in the coordinates objects.
-                if is_multi:
+                # Indicate there are multi-geometries in the coordinates objects. Ranks must agree on this.
+                is_multi_global = vm.gather(is_multi)
+                if vm.rank == 0:
+                    is_multi_global = any(is_multi_global)
+                if vm.bcast(is_multi_global):
                     element_index.attrs[name_mbv] = multi_break_value
                 else:
                     element_index.attrs.pop(name_mbv, None)
-- 
2.43.0


From f9db01ba661b2a250acb65c1380161e799179b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:19 +0000
Subject: [PATCH 123/162] fix: split polygons with several interiors into
 disjoint pieces

---
 src/ocgis/variable/geom.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 8fe23e6..057ff47 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -92,10 +92,20 @@ class GeometrySplitter(AbstractOcgisObject):
         if is_recursing:
             assert isinstance(geometry, Polygon)
             ret = []
-            for interior in self.iter_interiors():
-                split_polygon = self.create_split_polygons(interior)
-                for sp in split_polygon:
-                    ret.append(geometry.intersection(sp))
+            # Split at the first interior. Pieces with remaining interiors are split again.
+            interior = next(self.iter_interiors())
+            for sp in self.create_split_polygons(interior):
+                intersection = geometry.intersection(sp)
+                for piece in getattr(intersection, 'geoms', [intersection]):
+                    if not isinstance(piece, Polygon) or piece.is_empty:
+                        continue
+                    try:
+                        splitter = self.__class__(piece)
+                    except NoInteriorsError:
+                        ret.append(piece)
+                    else:
+                        ret += splitter.split(is_recursing=True)
+            return ret
         else:
             if isinstance(geometry, MultiPolygon):
                 itr = geometry
-- 
2.43.0


From bf9ca3ae5a9bc289764ed70821a321bbfef77aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:19 +0000
Subject: [PATCH 124/162] fix: do not shift the connectivity of its variable or
 break values when reading

---
 src/ocgis/spatial/geomc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index 90c7823..3b8db1d 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -377,7 +377,11 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
                 if cindex is not None:
                     ec_idx = get_element_node_connectivity_by_index(cindex, idx)
                     if start_index > 0:
-                        ec_idx -= start_index
+                        # The connectivity belongs to its variable. Break values are not node indices.
+                        if has_multi:
+                            ec_idx = np.where(ec_idx == mbv, mbv, ec_idx - start_index)
+                        else:
+                            ec_idx = ec_idx - start_index
                 else:
                     ec_idx = idx
 
-- 
2.43.0


From 82a99478a0cb2507e910d2287542d077b7371926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:19 +0000
Subject: [PATCH 125/162] fix: find the distributed dimension of UGRID files
 holding points

---
 src/ocgis/driver/nc_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/driver/nc_ugrid.py b/src/ocgis/driver/nc_ugrid.py
index 408a980..16f8119 100644
--- a/src/ocgis/driver/nc_ugrid.py
+++ b/src/ocgis/driver/nc_ugrid.py
@@ -107,7 +107,7 @@ class DriverNetcdfUGRID(AbstractUnstructuredDriver, DriverNetcdfCF):
                     ret = line.get_dimension(DMK.ELEMENT_NODE_CONNECTIVITY)[0]
 
         if ret is None:
-            point = dimension_map.get_topology(Topology.POLYGON, create=False)
+            point = dimension_map.get_topology(Topology.POINT, create=False)
             if point is not None:
                 ret = point.get_dimension(DMK.X)[0]
 
-- 
2.43.0


From 3e4371f9a0903758b90af024ad940cc9b0ca2ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:20 +0000
Subject: [PATCH 126/162] fix: keep grid dimensions and masks when writing
 SCRIP

---
 src/ocgis/driver/nc_scrip.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/driver/nc_scrip.py b/src/ocgis/driver/nc_scrip.py
index 8923775..2e3c5b4 100644
--- a/src/ocgis/driver/nc_scrip.py
+++ b/src/ocgis/driver/nc_scrip.py
@@ -88,15 +88,34 @@ class DriverNetcdfSCRIP(AbstractUnstructuredDriver, DriverNetcdf):
     def _get_field_write_target_(cls, field):
         # Unstructured SCRIP has a value of 1 for the grid dimensions by default. Just leave it alone.
         if field.dimensions['grid_rank'].size > 1:
-            # Update the grid size based on unique x/y values. In SCRIP, the coordinate values are duplicated in the
-            # coordinate vector.
-            ux = field.grid.x.shape[0]
-            uy = field.grid.y.shape[0]
-            field['grid_dims'].get_value()[:] = ux, uy
+            # Update the grid size based on unique x/y values if the elements were subset. In SCRIP, the coordinate
+            # values are duplicated in the coordinate vector. The field itself must not be changed by a write.
+            grid_size = field.dimensions['grid_size'].size
+            if np.prod(field['grid_dims'].get_value()) != grid_size:
+                unique_counts = []
+                for coord in (field.grid.x, field.grid.y):
+                    counts = vm.gather(create_unique_global_array(coord.get_value()).size)
+                    unique_counts.append(sum(vm.bcast(counts)))
+                if np.prod(unique_counts) == grid_size:
+                    grid_dims = field['grid_dims'].extract()
+                    grid_dims.set_value(np.array(unique_counts, dtype=grid_dims.dtype))
+                    field = field.copy()
+                    field.add_variable(grid_dims, force=True)
+
+        # The integer mask has no fill value. Masked elements are zero.
+        mask = field.get('grid_imask')
+        if mask is not None and mask.has_mask:
+            new_mask = mask.extract()
+            value = mask.get_value().copy()
+            value[mask.get_mask()] = 0
+            new_mask.set_value(value)
+            new_mask.set_mask(None)
+            field = field.copy()
+            field.add_variable(new_mask, force=True)
         return field
 
     @staticmethod
-    def _gc_iter_dst_grid_slices_(grid_chunker):
+    def _gc_iter_dst_grid_slices_(grid_chunker, yield_idx=None):
         # TODO: This method uses some global gathers which is not ideal.
         # Destination splitting works off center coordinates only.
         pgc = grid_chunker.dst_grid.abstractions_available['point']
@@ -117,8 +136,10 @@ class DriverNetcdfSCRIP(AbstractUnstructuredDriver, DriverNetcdf):
         else:
             ucenter_splits = [None] * grid_chunker.nchunks_dst[0]
 
-        for ucenter_split in ucenter_splits:
+        for ctr, ucenter_split in enumerate(ucenter_splits):
             ucenter_split = vm.bcast(ucenter_split)
+            if yield_idx is not None and yield_idx != ctr:
+                continue
             select = np.zeros_like(center_lat, dtype=bool)
             for v in ucenter_split.flat:
                 select = np.logical_or(select, center_lat == v)
-- 
2.43.0


From 6f3e67e77aeb7327b8614c258d998742df56be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:20 +0000
Subject: [PATCH 127/162] fix: write fixed-width and one-based connectivity as
 ESMF unstructured

---
 src/ocgis/driver/nc_esmf_unstruct.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/driver/nc_esmf_unstruct.py b/src/ocgis/driver/nc_esmf_unstruct.py
index df37323..91447b7 100644
--- a/src/ocgis/driver/nc_esmf_unstruct.py
+++ b/src/ocgis/driver/nc_esmf_unstruct.py
@@ -113,7 +113,7 @@ class DriverESMFUnstruct(AbstractUnstructuredDriver, AbstractDriverNetcdfCF):
 
         cindex = grid.cindex
         elements = cindex.get_value()
-        num_element_conn_data = [e.shape[0] for e in elements.flat]
+        num_element_conn_data = [e.shape[0] for e in elements]
         length_connection_count = sum(num_element_conn_data)
         esmf_element_conn = np.zeros(length_connection_count, dtype=elements[0].dtype)
         start = 0
@@ -124,7 +124,8 @@ class DriverESMFUnstruct(AbstractUnstructuredDriver, AbstractDriverNetcdfCF):
         # size for the new array. ######################################################################################
 
         if vm.size > 1:
-            max_index = max([ii.max() for ii in elements.flat])
+            # Node indices are local to the rank's nodes. They begin with the start index.
+            max_index = max([ii.max() for ii in elements]) - grid.start_index
             if vm.rank == 0:
                 vm.comm.isend(max_index + 1, dest=1, tag=tag_start_index)
                 adjust = 0
@@ -136,7 +137,7 @@ class DriverESMFUnstruct(AbstractUnstructuredDriver, AbstractDriverNetcdfCF):
 
         # Fill the new vector for the element connectivity. ############################################################
 
-        for ii in elements.flat:
+        for ii in elements:
             if vm.size > 1:
                 if grid.archetype.has_multi:
                     mbv = cindex.attrs[OcgisConvention.Name.MULTI_BREAK_VALUE]
@@ -171,7 +172,7 @@ class DriverESMFUnstruct(AbstractUnstructuredDriver, AbstractDriverNetcdfCF):
 
         num_element_conn = Variable(name='numElementConn',
                                     value=num_element_conn_data,
-                                    dimensions=cindex.dimensions[0],
+                                    dimensions=ret.dimensions['elementCount'],
                                     attrs={CFName.LONG_NAME: 'Number of nodes per element.'},
                                     dtype=np.int32)
         ret.add_variable(num_element_conn)
-- 
2.43.0


From 76f7c1e5fe2dc3a89de5014417b239015d20d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:20 +0000
Subject: [PATCH 128/162] fix: do not create a topology when asking for it

---
 src/ocgis/driver/dimension_map.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 7bfedf1..00b034c 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -274,7 +274,9 @@ class DimensionMap(AbstractOcgisObject):
 
         if ret is not None:
             ret = self._storage[DMK.TOPOLOGY].get(topology, default)
-            self._storage[DMK.TOPOLOGY][topology] = ret
+            # Asking for a topology does not make it available.
+            if create:
+                self._storage[DMK.TOPOLOGY][topology] = ret
 
         # if ret is None:
         #     ret = GridAbstraction.AUTO
-- 
2.43.0


From 3f18e3ac40d723ced7280a97f0dfe069464cb32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:27 +0000
Subject: [PATCH 129/162] fix: give geometry iterators with slices a length

---
 src/ocgis/spatial/geom_cabinet.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/geom_cabinet.py b/src/ocgis/spatial/geom_cabinet.py
index 86c5390..79fa2ef 100644
--- a/src/ocgis/spatial/geom_cabinet.py
+++ b/src/ocgis/spatial/geom_cabinet.py
@@ -359,8 +359,11 @@ class GeomCabinetIterator(object):
             # Get the path to the output shapefile.
             shp_path = self.sc._get_path_by_key_or_direct_path_(key=self.key, path=self.path)
 
+            slc = None
             if self.slc is not None:
-                return len(get_index_slice_for_iteration(self.slc))
+                slc = get_index_slice_for_iteration(self.slc)
+            if slc is not None and not isinstance(slc, slice):
+                ret = len(slc)
             elif self.select_uid is not None:
                 ret = len(self.select_uid)
             else:
@@ -371,6 +374,8 @@ class GeomCabinetIterator(object):
                                                              select_sql_where=self.select_sql_where,
                                                              driver_kwargs=self.driver_kwargs)
                     ret = len(features)
+                    if slc is not None:
+                        ret = len(range(*slc.indices(ret)))
                 finally:
                     ds.Destroy()
                     ds = None
-- 
2.43.0


From 74694b29f6d2e8082f53ba2a2e438bed3cc5eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:27 +0000
Subject: [PATCH 130/162] fix: select features by position in formats with
 other feature identifiers

---
 src/ocgis/spatial/geom_cabinet.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/geom_cabinet.py b/src/ocgis/spatial/geom_cabinet.py
index 79fa2ef..87899a9 100644
--- a/src/ocgis/spatial/geom_cabinet.py
+++ b/src/ocgis/spatial/geom_cabinet.py
@@ -147,9 +147,18 @@ class GeomCabinet(object):
                                 yield fb
 
                         itr = _o_itr_(features, slc.start, slc.stop)
-                    else:
+                    elif self.get_gdal_driver(shp_path) == 'ESRI Shapefile':
                         # Convert the slice index to an integer to avoid type conflict in GDAL layer.
                         itr = (features.GetFeature(int(idx)) for idx in slc)
+                    else:
+                        # Feature identifiers are only zero-based positions for shapefiles.
+                        def _o_itr_(features_object, indices):
+                            selected = set([int(idx) for idx in indices])
+                            found = {ctr2: fb for ctr2, fb in enumerate(features_object) if ctr2 in selected}
+                            for idx in indices:
+                                yield found[int(idx)]
+
+                        itr = _o_itr_(features, slc)
 
                 # Convert feature objects to record dictionaries.
                 for ctr, feature in enumerate(itr):
-- 
2.43.0


From 3f8b684717ee7f585e41f21ea011c9279cde2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:27 +0000
Subject: [PATCH 131/162] fix: mask null attributes of vector datasets

---
 src/ocgis/driver/vector.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index 30341c1..ef3b2d3 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -138,14 +138,13 @@ class DriverVector(AbstractTabularDriver):
                         if isinstance(dv, (CoordinateReferenceSystem, GeometryVariable)):
                             continue
                         dv = dv.name
-                        try:
+                        # Property value may be none. Set the data to masked if this is the case.
+                        if row['properties'][dv] is None:
+                            if ret[dv].dtype == object:
+                                ret[dv][idx] = ''
+                            ret[dv].mask[idx] = True
+                        else:
                             ret[dv][idx] = row['properties'][dv]
-                        except TypeError:
-                            # Property value may be none. Set the data to masked if this is the case.
-                            if row['properties'][dv] is None:
-                                ret[dv].mask[idx] = True
-                            else:
-                                raise
                     try:
                         ret[constants.VariableName.GEOMETRY_VARIABLE][idx] = row['geom']
                     except KeyError:
-- 
2.43.0


From 93eb8997dd03c3d6e225ec95fcc847ce3676a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:27 +0000
Subject: [PATCH 132/162] fix: mask null attributes of records

---
 src/ocgis/collection/field.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index 4a67fa9..29d6d5c 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -523,7 +523,11 @@ class Field(VariableCollection):
                     if v is None:
                         # Mask the value if it is None. NULLs are allowed in OGR Vector files, but they do not translate
                         # well to Python. Strings are generally okay but floats/ints case problems.
-                        field[k].get_mask(create=True)[idx] = v
+                        if field[k].dtype == object:
+                            field[k].get_value()[idx] = ''
+                        variable_mask = field[k].get_mask(create=True)
+                        variable_mask[idx] = True
+                        field[k].set_mask(variable_mask)
                     else:
                         # Set the associated field value.
                         field[k].get_value()[idx] = v
-- 
2.43.0


From f43cf23e1146bf863862a9f31874c702bff56b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 133/162] fix: refuse malformed time and time region text with
 the validation error

---
 src/ocgis/ops/parms/definition.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index b3d5ae1..94a6b7e 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -1301,7 +1301,8 @@ class TimeRange(base.IterableParameter, base.AbstractParameter):
                 continue
             else:
                 break
-        assert ret is not None
+        if ret is None:
+            raise DefinitionValidationError(self, 'Time may not be parsed: "{}".'.format(value))
         return ret
 
 
@@ -1337,9 +1338,12 @@ class TimeRegion(base.AbstractParameter):
         ret = {}
         values = value.split(',')
         for value in values:
-            key, key_value = value.split('~')
-            key_value = key_value.split('|')
-            key_value = [int(e) for e in key_value]
+            try:
+                key, key_value = value.split('~')
+                key_value = key_value.split('|')
+                key_value = [int(e) for e in key_value]
+            except ValueError:
+                raise DefinitionValidationError(self, 'Time region may not be parsed: "{}".'.format(value))
             ret[key] = key_value
         return ret
 
-- 
2.43.0


From 5a7bca2e83ae59913a64abd1569c2b123b427e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 134/162] fix: slice requests with negative integers select one
 element and six values are refused

---
 src/ocgis/ops/parms/definition.py | 47 +++++++++++++------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 94a6b7e..7c2022a 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -952,7 +952,10 @@ class OutputCRS(base.AbstractParameter):
         return ret
 
     def _parse_string_(self, value):
-        return CoordinateReferenceSystem(epsg=int(value))
+        try:
+            return CoordinateReferenceSystem(epsg=int(value))
+        except (ValueError, RuntimeError):
+            raise DefinitionValidationError(self, 'EPSG code not recognized: "{}".'.format(value))
 
 
 class OutputFormat(base.StringOptionParameter):
@@ -1153,32 +1156,22 @@ class Slice(base.IterableParameter, base.AbstractParameter):
     element_type = [type(None), int, tuple, list, slice]
     unique = False
 
-    def __init__(self, init_value=None):
+    def parse(self, value):
         # If this is a dictionary slice, leave as is and let slice infrastructure handling formatting.
-        if isinstance(init_value, dict):
-            is_dict = True
-            use_init_value = None
-        else:
-            is_dict = False
-            use_init_value = init_value
-
-        super(Slice, self).__init__(use_init_value)
-
-        # Set the dictionary slice directly. Do not use the iterable formatting for the list/tuple.
-        if is_dict:
-            self._value = deepcopy(init_value)
+        if isinstance(value, dict):
+            return value
+        return super(Slice, self).parse(value)
 
     def parse_all(self, values):
-        try:
-            new_values = {}
-            new_values[DimensionMapKey.REALIZATION] = values[0]
-            new_values[DimensionMapKey.TIME] = values[1]
-            new_values[DimensionMapKey.LEVEL] = values[2]
-            new_values[DimensionMapKey.Y] = values[3]
-            new_values[DimensionMapKey.X] = values[4]
-        except IndexError:
-            # This implies the length is not correct. Let the validater catch this.
-            new_values = values
+        if len(values) != 5:
+            # Let the validater catch this.
+            return values
+        new_values = {}
+        new_values[DimensionMapKey.REALIZATION] = values[0]
+        new_values[DimensionMapKey.TIME] = values[1]
+        new_values[DimensionMapKey.LEVEL] = values[2]
+        new_values[DimensionMapKey.Y] = values[3]
+        new_values[DimensionMapKey.X] = values[4]
         return new_values
 
     def validate_all(self, values):
@@ -1189,10 +1182,8 @@ class Slice(base.IterableParameter, base.AbstractParameter):
         if value is None:
             ret = slice(None)
         elif type(value) == int:
-            if value < 0:
-                ret = slice(value, None)
-            else:
-                ret = slice(value, value + 1)
+            # An integer selects one element. The element following the last index is the end of the dimension.
+            ret = slice(value, (value + 1) or None) if value < 0 else slice(value, value + 1)
         elif type(value) in [list, tuple]:
             ret = slice(*value)
         else:
-- 
2.43.0


From f80315c1dba28d0c50ed582775346d6a7e9c82fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 135/162] fix: refuse malformed EPSG text with the validation
 error

---
 src/ocgis/ops/parms/definition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 7c2022a..8a58e68 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -742,6 +742,8 @@ class Geom(base.AbstractParameter):
             # switch geometry creation based on length. length of 2 is a point otherwise a bounding box
             if len(elements) == 2:
                 geom = Point(elements[0], elements[1])
+            elif len(elements) not in (1, 4):
+                raise DefinitionValidationError(self, 'Two or four coordinates are required: "{}".'.format(value))
             else:
                 minx, miny, maxx, maxy = elements
                 geom = Polygon(((minx, miny),
-- 
2.43.0


From a69dc598be447e90d7424eb1755a4f6e97fae3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 136/162] fix: refuse coordinate sequences of a wrong length
 and accept the fields of another geometry parameter

---
 src/ocgis/ops/parms/definition.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 8a58e68..904c28c 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -682,7 +682,10 @@ class Geom(base.AbstractParameter):
 
     def parse(self, value):
         if type(value) in [list, tuple]:
-            if all([isinstance(element, dict) for element in value]):
+            if len(value) > 0 and all([isinstance(element, Field) for element in value]):
+                # These are the fields of another parameter.
+                ret = tuple(value)
+            elif len(value) > 0 and all([isinstance(element, dict) for element in value]):
                 for ii, element in enumerate(value, start=1):
                     if 'geom' not in element:
                         ocgis_lh(exc=DefinitionValidationError(self, 'Geometry dictionaries must have a "geom" key.'))
@@ -699,6 +702,9 @@ class Geom(base.AbstractParameter):
                 elif len(value) == 4:
                     minx, miny, maxx, maxy = value
                     geom = Polygon(((minx, miny), (minx, maxy), (maxx, maxy), (maxx, miny)))
+                else:
+                    msg = 'Sequences contain the two coordinates of a point, the four of a bounding box, or dictionaries.'
+                    raise DefinitionValidationError(self, msg)
                 if not geom.is_valid:
                     raise DefinitionValidationError(self, 'Parsed geometry is not valid.')
                 ret = [{'geom': geom, 'properties': {self._ugid_key: 1}}]
-- 
2.43.0


From 1c592c29589ea6533edc80f6b9005fb936f6a807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 137/162] fix: keep the case of names in calculation strings
 and refuse malformed keyword text

---
 src/ocgis/ops/parms/definition.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 904c28c..68a2fc2 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -126,6 +126,8 @@ class Calc(base.IterableParameter, base.AbstractParameter):
     _possible = ['es=tas+4', ['es=tas+4'], [{'func': 'mean', 'name': 'mean'}]]
     _required_keys_final = {'ref', 'meta_attrs', 'name', 'func', 'kwds'}
     _required_keys_initial = ('name', 'func')
+    # Variable names in expressions and output names are case-sensitive.
+    _lower_string = False
 
     def __init__(self, *args, **kwargs):
         # this flag is used by the parser to determine if an eval function has been passed. very simple test for this...
@@ -162,6 +164,8 @@ class Calc(base.IterableParameter, base.AbstractParameter):
         # strings in sequences are not parsed yet
         if isinstance(value, six.string_types):
             value = self._parse_string_(value)
+        elif not isinstance(value, dict):
+            raise DefinitionValidationError(self, 'Calculations are strings or dictionaries: {!r}'.format(value))
 
         # test if the value is an eval function and set internal flag
         if '=' in value:
@@ -254,20 +258,20 @@ class Calc(base.IterableParameter, base.AbstractParameter):
         return value
 
     def _parse_string_(self, value):
+        if value.lower() == 'none':
+            return None
         try:
             key, uname = value.split('~', 1)
-            try:
+            key = key.lower()
+            kwds = OrderedDict()
+            if '!' in uname:
                 uname, kwds_raw = uname.split('!', 1)
-                kwds_raw = kwds_raw.split('!')
-                kwds = OrderedDict()
-                for kwd in kwds_raw:
-                    kwd_name, kwd_value = kwd.split('~')
+                for kwd in kwds_raw.split('!'):
+                    kwd_name, kwd_value = kwd.lower().split('~')
                     try:
                         kwds.update({kwd_name: float(kwd_value)})
                     except ValueError:
                         kwds.update({kwd_name: str(kwd_value)})
-            except ValueError:
-                kwds = OrderedDict()
             ret = {'func': key, 'name': uname, 'kwds': kwds}
         except ValueError:
             # likely a string to use for an eval function
-- 
2.43.0


From eb833875d3553f971724ffe67a4aa6555f347cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 138/162] fix: refuse slices with geometries and clips with the
 bounding box subset during validation

---
 src/ocgis/ops/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/ops/core.py b/src/ocgis/ops/core.py
index bc17c5c..a8c2a8a 100644
--- a/src/ocgis/ops/core.py
+++ b/src/ocgis/ops/core.py
@@ -395,8 +395,12 @@ class OcgOperations(AbstractOcgisObject):
                     _raise_('Snippets are not implemented for time regions.', obj=Snippet)
 
         # no slicing with a geometry - can easily lead to extent errors
-        if self.slice is not None:
-            assert self.geom is None
+        if self.slice is not None and self.geom is not None:
+            _raise_('Slices may not be combined with a geometry.', obj=Slice)
+
+        # clipping needs the full subset
+        if self.optimized_bbox_subset and self.spatial_operation == 'clip' and self.geom is not None:
+            _raise_('Only "intersects" spatial operations when "optimized_bbox_subset=True".', obj=SpatialOperation)
 
         # file only operations only valid for netCDF and calculations.
         if self.file_only:
-- 
2.43.0


From 005dad0f9f45ed8be7aa0792d705acecedb51644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:06 +0000
Subject: [PATCH 139/162] fix: read the maximum string length from the process
 environment as an integer

---
 src/ocgis/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/environment.py b/src/ocgis/environment.py
index efe07cd..ffb887a 100644
--- a/src/ocgis/environment.py
+++ b/src/ocgis/environment.py
@@ -94,7 +94,7 @@ class Environment(AbstractOcgisObject):
         # removed before writing and replaced with the original.
         self.COORDSYS_ACTUAL = EnvParm('COORDSYS_ACTUAL', None)
         # The maximum string length to use when creating NetCDF string variables.
-        self.STRING_MAX_LENGTH = EnvParm('STRING_MAX_LENGTH', 255)
+        self.STRING_MAX_LENGTH = EnvParm('STRING_MAX_LENGTH', 255, formatter=int)
 
         if self.PREFER_NETCDFTIME is None:
             self.PREFER_NETCDFTIME = get_netcdftime_preference()
-- 
2.43.0


From daf9b1a79783a2676bd795778edea19c89583c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:32 +0000
Subject: [PATCH 140/162] fix: keep the coordinate system with an extracted
 grid

---
 src/ocgis/spatial/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 002e1f0..2dd2f54 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -453,8 +453,11 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
         new_parent = self.parent.copy()
         original_parent = self.parent
         members = get_variable_names(self.get_member_variables())
+        # The dimension map still refers to the coordinate system.
+        crs = self.crs
+        keep = members if crs is None else tuple(members) + (crs.name,)
         for v in self.parent.values():
-            if v.name not in members:
+            if v.name not in keep:
                 new_parent.remove_variable(v, remove_bounds=False)
         if clean_break:
             to_remove = []
-- 
2.43.0


From 6bcce6e1fddaac58e1a35f39bf3e50cb9de1ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:32 +0000
Subject: [PATCH 141/162] fix: keep the data type of x bounds when a grid is
 expanded

---
 src/ocgis/spatial/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 2dd2f54..c596d99 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -1381,7 +1381,7 @@ def expand_grid(grid):
 
             new_y_bounds = np.zeros((original_y_bounds.shape[0], original_x_bounds.shape[0], 4),
                                     dtype=original_y_bounds.dtype)
-            new_x_bounds = new_y_bounds.copy()
+            new_x_bounds = np.zeros_like(new_y_bounds, dtype=original_x_bounds.dtype)
             for idx_y, idx_x in itertools.product(list(range(original_y_bounds.shape[0])),
                                                   list(range(original_x_bounds.shape[0]))):
                 new_y_bounds[idx_y, idx_x, 0:2] = original_y_bounds[idx_y, 0]
-- 
2.43.0


From 3f12774da7b7a85d01f05aa510481f2869e3be59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:32 +0000
Subject: [PATCH 142/162] fix: return a resolution of zero for two-dimensional
 coordinates of length one

---
 src/ocgis/driver/nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 297ff9b..1579396 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -357,7 +357,7 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
     @staticmethod
     def array_resolution(value, axis):
         """See :meth:`ocgis.driver.base.AbstractDriver.array_resolution`"""
-        if value.size == 1:
+        if value.size == 1 or (value.ndim > 1 and value.shape[axis] == 1):
             return 0.0
         else:
             resolution_limit = constants.RESOLUTION_LIMIT
-- 
2.43.0


From 7d3e1ecbb624f0e890a671450564b13a2aa6a56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:55 +0000
Subject: [PATCH 143/162] fix: keep the name of a latitude longitude grid
 mapping variable

---
 src/ocgis/variable/crs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index d764170..0846095 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -1071,7 +1071,12 @@ class CFSpherical(Spherical, CFCoordinateReferenceSystem):
             variable_attrs = variables[var].get('attrs', {})
             r_grid_mapping = variable_attrs.get('grid_mapping')
             r_grid_mapping_name = variable_attrs.get('grid_mapping_name')
-            if cls.grid_mapping_name in (r_grid_mapping, r_grid_mapping_name):
+            if cls.grid_mapping_name == r_grid_mapping_name:
+                # Keep the name of the source's variable.
+                ret = cls()
+                ret.name = variables[var].get('name', var)
+                return ret
+            elif cls.grid_mapping_name == r_grid_mapping:
                 return cls()
             else:
                 raise ProjectionDoesNotMatch
-- 
2.43.0


From bf157f14c32938892ffeb84513da9b1977e42050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:55 +0000
Subject: [PATCH 144/162] fix: find dimensions defined by the groups above a
 variable

---
 src/ocgis/driver/base.py  | 7 ++++++-
 src/ocgis/vmachine/mpi.py | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index ca2dbbe..628c16a 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -12,7 +12,8 @@ from ocgis import vm
 from ocgis.base import AbstractOcgisObject, raise_if_empty
 from ocgis.base import get_variable_names
 from ocgis.collection.field import Field
-from ocgis.constants import MPIWriteMode, TagName, KeywordArgument, OcgisConvention, VariableName, DecompositionType
+from ocgis.constants import MPIWriteMode, TagName, KeywordArgument, OcgisConvention, VariableName, DecompositionType, \
+    DimensionMapKey
 from ocgis.driver.dimension_map import DimensionMap
 from ocgis.exc import DefinitionValidationError, NoDataVariablesFound, DimensionMapError, VariableMissingMetadataError, \
     GridDeficientError, OcgWarning, OcgException
@@ -215,6 +216,10 @@ class AbstractDriver(AbstractOcgisObject):
                     # Likely a user-provided dimension map.
                     continue
 
+                # The dimensions of the coordinates may be defined by groups above. These are distributed there.
+                if any(d not in group_meta['dimensions'] for k in (DimensionMapKey.X, DimensionMapKey.Y) for d in dimension_map.get_dimension(k)):
+                    continue
+
                 # dimension_map = get_group(self.rd.dimension_map, group_index, has_root=False)
                 distributed_dimension_name = self.get_distributed_dimension_name(dimension_map,
                                                                                  group_meta['dimensions'],
diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 4295053..18cf5e9 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -249,7 +249,10 @@ class OcgDist(AbstractOcgisObject):
         try:
             ret = d[name]
         except KeyError:
-            raise DimensionNotFound(name)
+            # Dimensions of the groups above are visible.
+            if group is None or isinstance(group, six.string_types) or len(group) < 2:
+                raise DimensionNotFound(name)
+            ret = self.get_dimension(name, group=list(group)[:-1], rank=rank)
         return ret
 
     def get_dimensions(self, names, **kwargs):
-- 
2.43.0


From 3a5a625a93f3fe928b36b592c5c40cad7954ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:55 +0000
Subject: [PATCH 145/162] fix: interpret the metadata overloaded by the user

---
 src/ocgis/driver/base.py         | 2 +-
 src/ocgis/driver/request/core.py | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 628c16a..7a9daa0 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -291,7 +291,7 @@ class AbstractDriver(AbstractOcgisObject):
 
         # Remove the mask variable if present in the raw dimension map and the source dimension map is set to None.
         if self.rd.dimension_map.get_spatial_mask() is None and self.dimension_map_raw.get_spatial_mask() is not None:
-            raw_field.pop(self.dimension_map_raw.get_spatial_mask())
+            raw_field.pop(self.dimension_map_raw.get_spatial_mask(), None)
 
         # Convert the raw variable collection to a field.
         # TODO: Identify a way to remove this code block; field should be appropriately initialized; format_time and grid_abstraction are part of a dimension map.
diff --git a/src/ocgis/driver/request/core.py b/src/ocgis/driver/request/core.py
index 00be9fd..9c45ca5 100644
--- a/src/ocgis/driver/request/core.py
+++ b/src/ocgis/driver/request/core.py
@@ -166,6 +166,7 @@ class RequestDataset(AbstractRequestObject):
         self._dimension_map = dimension_map
 
         self._metadata = deepcopy(metadata)
+        self._has_assigned_metadata = metadata is not None
         self._uri = None
         self.uid = uid
 
@@ -326,8 +327,10 @@ class RequestDataset(AbstractRequestObject):
     @property
     def dimension_map(self):
         if self._dimension_map is None:
-            dimension_map_raw = self.driver.dimension_map_raw
-            self._dimension_map = deepcopy(dimension_map_raw)
+            if self._has_assigned_metadata:
+                self._dimension_map = DimensionMap.from_metadata(self.driver, self.metadata)
+            else:
+                self._dimension_map = deepcopy(self.driver.dimension_map_raw)
         self._dimension_map.update_dimensions_from_metadata(self.metadata)
         return self._dimension_map
 
-- 
2.43.0


From ba1883881fa318aa900387c20fff9ae6a8e2afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:55 +0000
Subject: [PATCH 146/162] fix: do not use data with the name of a coordinate
 variable as a coordinate

---
 src/ocgis/driver/nc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 1579396..feee83c 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -803,8 +803,10 @@ def create_dimension_map_entry(src, variables, strict=False, attr_name='axis'):
     # Try to find by default names.
     if not strict and len(axis_vars) == 0:
         possible_names = CFName.get_axis_mapping().get(axis, [])
+        # Variables with more dimensions than a coordinate variable are data with the name of a coordinate.
+        max_ndim = 2 if axis in ('X', 'Y') else 1
         for pn in possible_names:
-            if pn in list(variables.keys()):
+            if pn in list(variables.keys()) and len(variables[pn]['dimensions']) <= max_ndim:
                 axis_vars.append(variables[pn]['name'])
 
     if len(axis_vars) == 1:
-- 
2.43.0


From d7f37a61b6dafa61a99d4769a5f33f4b6a39b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:55 +0000
Subject: [PATCH 147/162] fix: do not take bounds repeating the axis attribute
 for coordinate variables

---
 src/ocgis/driver/nc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index feee83c..eddcc95 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -791,10 +791,13 @@ def create_dimension_map_entry(src, variables, strict=False, attr_name='axis'):
         axis = src
         attr_value = src
 
+    # Bounds may repeat the attributes of their coordinate variable. They are not coordinate variables themselves.
+    bounds_names = [variable.get('attrs', {}).get(k) for variable in variables.values() for k in ('bounds', 'climatology')]
+
     axis_vars = []
-    for variable in list(variables.values()):
+    for variable_name, variable in list(variables.items()):
         vattrs = variable.get('attrs', {})
-        if vattrs.get(attr_name) == attr_value:
+        if vattrs.get(attr_name) == attr_value and variable_name not in bounds_names:
             if len(variable['dimensions']) == 0:
                 pass
             else:
-- 
2.43.0


From a59a3a7509442d7deba2f2267f241076f92e6f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:56 +0000
Subject: [PATCH 148/162] fix: keep user bounds when dimension names are taken
 from metadata

---
 src/ocgis/driver/dimension_map.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 00b034c..1947ca0 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -588,8 +588,11 @@ class DimensionMap(AbstractOcgisObject):
             dimension_names = self.get_dimension(k)
             if variable_name is not None and len(dimension_names) == 0:
                 metadata_dimensions = metadata.get('variables', {}).get(variable_name, {}).get('dimensions', [])
+                # The first dimension is representative for the y-coordinate and the second for the x-coordinate.
+                if k in (DMK.Y, DMK.X) and len(metadata_dimensions) > 1:
+                    metadata_dimensions = [metadata_dimensions[0 if k == DMK.Y else 1]]
                 if len(metadata_dimensions) > 0:
-                    self.set_variable(k, variable_name, dimension=metadata_dimensions)
+                    self.set_variable(k, variable_name, dimension=metadata_dimensions, bounds=self.get_bounds(k))
 
     def _get_element_(self, entry_key, element_key, default):
         if entry_key == DMK.CRS:
-- 
2.43.0


From 7a72d070d9eb24ab94e646e1bda351734e2a5c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:56 +0000
Subject: [PATCH 149/162] fix: interpret groups using their own dimension map

---
 src/ocgis/driver/base.py          | 27 ++++++++++++++++++---------
 src/ocgis/driver/dimension_map.py |  4 +---
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 7a9daa0..6d8795d 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -257,11 +257,17 @@ class AbstractDriver(AbstractOcgisObject):
             new_kwargs['source_name'] = None
             raw_field = self.create_raw_field(*args, **new_kwargs)
 
-        # Get the appropriate metadata for the collection.
-        group_metadata = self.get_group_metadata(raw_field.group, self.metadata_source)
+        # Get the appropriate metadata for the collection. The group of a collection is the group of its parent.
+        is_child = raw_field.group is not None
+        group_index = raw_field.group + [raw_field.source_name] if is_child else None
+        group_metadata = self.get_group_metadata(group_index, self.metadata_source)
         # Always pull the dimension map from the request dataset. This allows it to be overloaded.
         # The map is modified below and the request dataset must not be.
-        dimension_map = deepcopy(self.get_group_metadata(raw_field.group, self.rd.dimension_map))
+        try:
+            dimension_map = deepcopy(self.rd.dimension_map.get_group(group_index))
+        except DimensionMapError:
+            # The user may provide a dimension map without groups.
+            dimension_map = DimensionMap.from_metadata(self, group_metadata)
 
         # Modify the coordinate system variable. If it is overloaded on the request dataset, then the variable
         # collection needs to be updated to hold the variable and any alternative coordinate systems needs to be
@@ -320,12 +326,15 @@ class AbstractDriver(AbstractOcgisObject):
 
         # These variables have all the dimensions needed for a data classification. Use overloaded values from the
         # request dataset if they are provided.
-        try:
-            data_variable_names = list(get_variable_names(self.rd.rename_variable))
-        except NoDataVariablesFound:
-            # It is okay to have no data variables in a field.
-            data_variable_names = []
-            pass
+        if is_child:
+            # The request's variables are those of the root group.
+            data_variable_names = self.get_data_variable_names(group_metadata, dimension_map)
+        else:
+            try:
+                data_variable_names = list(get_variable_names(self.rd.rename_variable))
+            except NoDataVariablesFound:
+                # It is okay to have no data variables in a field.
+                data_variable_names = []
         for dvn in data_variable_names:
             field.append_to_tags(TagName.DATA_VARIABLES, dvn, create=True)
 
diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 1947ca0..7efaf5e 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -107,7 +107,7 @@ class DimensionMap(AbstractOcgisObject):
             curr.set_group(group_name, dimension_map)
         if DMK.GROUPS in group_metadata:
             for group_name, sub_group_metadata in group_metadata[DMK.GROUPS].items():
-                cls.from_metadata(driver, sub_group_metadata, curr=curr, group_name=group_name)
+                cls.from_metadata(driver, sub_group_metadata, curr=dimension_map, group_name=group_name)
 
         return curr
 
@@ -220,8 +220,6 @@ class DimensionMap(AbstractOcgisObject):
         :param group_key: The group indexing key.
         :rtype: :class:`list` of :class:`str`
         """
-        if DMK.GROUPS not in self._storage:
-            self._storage[DMK.GROUPS] = {}
         try:
             return get_dmap_group(self, group_key)
         except KeyError:
-- 
2.43.0


From 00cf610adc5ab1a61c23d87f478d1bbefc2d04c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:56 +0000
Subject: [PATCH 150/162] fix: accept all dimension map entries from a
 dictionary

---
 src/ocgis/driver/dimension_map.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 7efaf5e..c8b7dd7 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -72,6 +72,13 @@ class DimensionMap(AbstractOcgisObject):
                 has_groups = True
             elif k == DMK.DRIVER:
                 d.set_driver(v)
+            elif k in (DMK.GRID_ABSTRACTION, DMK.IS_ISOMORPHIC):
+                d.set_property(k, v)
+            elif k == DMK.TOPOLOGY:
+                d._storage[DMK.TOPOLOGY] = {topology: cls.from_dict(t) for topology, t in v.items()}
+            elif DMK.VARIABLE not in v and not any(v.values()):
+                # Asking for an entry leaves an empty one.
+                continue
             else:
                 try:
                     variable = v.pop(DMK.VARIABLE)
-- 
2.43.0


From 397bf6b8ccd78d50b49b0b8b322f4f90872d85a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:56 +0000
Subject: [PATCH 151/162] fix: keep the spatial mask when a dimension map is
 created from a dictionary

---
 src/ocgis/driver/dimension_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index c8b7dd7..a023800 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -87,8 +87,8 @@ class DimensionMap(AbstractOcgisObject):
                 if k == DMK.CRS:
                     d.set_crs(variable)
                 elif k == DMK.SPATIAL_MASK:
-                    if v != {}:
-                        d.set_spatial_mask(variable)
+                    if variable is not None:
+                        d.set_spatial_mask(variable, attrs=v.get(DMK.ATTRS))
                 else:
                     d.set_variable(k, variable, **v)
         if has_groups:
-- 
2.43.0


From fbc464a453448b75ca9aba0861c8a71b394dad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:07 +0000
Subject: [PATCH 152/162] fix: seasons with the same last month are all kept

---
 src/ocgis/variable/temporal.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 4a85391..c651d07 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -1013,14 +1013,8 @@ def get_sorted_seasons(seasons, method='max'):
 
     methods = {'min': min, 'max': max}
 
-    season_map = {}
-    for ii, season in enumerate(seasons):
-        season_map[ii] = season
-    max_map = {}
-    for key, value in season_map.items():
-        max_map[methods[method](value)] = key
-    sorted_maxes = sorted(max_map)
-    ret = [seasons[max_map[s]] for s in sorted_maxes]
+    # Seasons may share the value they are sorted by.
+    ret = sorted(seasons, key=methods[method])
     ret = deepcopy(ret)
     return ret
 
-- 
2.43.0


From 058f26f7cab2ac7fd1f5040035505512661c7f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:07 +0000
Subject: [PATCH 153/162] fix: each geometry dictionary keeps its own
 coordinate system

---
 src/ocgis/ops/parms/definition.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 68a2fc2..b82bbfe 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -690,6 +690,7 @@ class Geom(base.AbstractParameter):
                 # These are the fields of another parameter.
                 ret = tuple(value)
             elif len(value) > 0 and all([isinstance(element, dict) for element in value]):
+                crses = []
                 for ii, element in enumerate(value, start=1):
                     if 'geom' not in element:
                         ocgis_lh(exc=DefinitionValidationError(self, 'Geometry dictionaries must have a "geom" key.'))
@@ -698,8 +699,22 @@ class Geom(base.AbstractParameter):
                     crs = element.get('crs', constants.UNINITIALIZED)
                     if 'crs' not in element:
                         ocgis_lh(msg='No CRS in geometry dictionary - assuming WGS84.', level=logging.WARN)
-                ret = Field.from_records(value, crs=crs, uid=self.geom_uid, union=self.union,
+                    if isinstance(crs, dict):
+                        crs = CoordinateReferenceSystem(value=crs)
+                    elif crs == constants.UNINITIALIZED:
+                        crs = env.DEFAULT_COORDSYS
+                    crses.append(crs)
+                mixed = any([crs != crses[0] for crs in crses])
+                if mixed and self.union:
+                    msg = 'Geometry dictionaries must share a coordinate system when they are unioned.'
+                    raise DefinitionValidationError(self, msg)
+                ret = Field.from_records(value, crs=crses[0], uid=self.geom_uid, union=self.union,
                                          data_model=self.data_model)
+                if mixed:
+                    # Each geometry keeps its own coordinate system.
+                    ret = tuple(self._iter_singular_fields_(ret))
+                    for field, crs in zip(ret, crses):
+                        field.set_crs(None if crs is None else crs.copy())
             else:
                 if len(value) == 2:
                     geom = Point(value[0], value[1])
-- 
2.43.0


From ae3a89769911e5b34eb064bf8a7fe6458b6cd8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:07 +0000
Subject: [PATCH 154/162] fix: polygon holes are kept by the spherical to
 Cartesian transformation

---
 src/ocgis/variable/crs.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 0846095..819f0f4 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -736,23 +736,20 @@ class AbstractSphericalCoordinateReferenceSystem(AbstractOcgisObject):
                 raise ValueError('Geometry coordinates may not be unwrapped.')
 
         sgeom = geom.get_value()[0]
-        coords = np.array(sgeom.exterior)
-        if not sgeom.has_z:
-            new_coords = np.ones((coords.shape[0], 3), dtype=coords.dtype)
-            new_coords[:, 0:2] = coords
-        else:
-            new_coords = coords
-        x = new_coords[:, 0]
-        y = new_coords[:, 1]
-        z = new_coords[:, 2]
-
-        x_out, y_out, z_out = self.transform_coordinates(other_crs, x, y, z, inverse=inverse)
 
-        x[:] = x_out
-        y[:] = y_out
-        z[:] = z_out
+        def _transform_ring_(ring):
+            coords = np.array(ring)
+            if not sgeom.has_z:
+                new_coords = np.ones((coords.shape[0], 3), dtype=coords.dtype)
+                new_coords[:, 0:2] = coords
+            else:
+                new_coords = coords
+            xyz = self.transform_coordinates(other_crs, new_coords[:, 0], new_coords[:, 1], new_coords[:, 2],
+                                             inverse=inverse)
+            return np.stack(xyz, axis=1)
 
-        new_geom = Polygon(new_coords)
+        new_geom = Polygon(_transform_ring_(sgeom.exterior),
+                           [_transform_ring_(interior) for interior in sgeom.interiors])
         geom.get_value()[0] = new_geom
 
     def transform_grid(self, other_crs, grid, inverse=False):
-- 
2.43.0


From f4f884e3d994fc2200373e61023c452d11630d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:07 +0000
Subject: [PATCH 155/162] fix: tabular sources are located by source index and
 do not overwrite or require other variables

---
 src/ocgis/driver/base.py   | 16 +++++++++++++
 src/ocgis/driver/csv_.py   | 49 ++++++++++++++++++++++++--------------
 src/ocgis/driver/vector.py | 48 ++++++++++++++++---------------------
 3 files changed, 67 insertions(+), 46 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 6d8795d..a7ce08a 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -904,6 +904,22 @@ class AbstractTabularDriver(AbstractDriver):
         """Return the preferred distributed dimension name."""
         return list(dimensions_metadata.values())[0]['name']
 
+    def get_variables_to_load(self, variable):
+        """
+        Tabular sources are read in a single pass. Return ``variable`` and its neighbors loading from the same source that
+        have no value yet.
+
+        :rtype: list
+        """
+        ret = [variable]
+        if variable.parent is not None:
+            for v in list(variable.parent.values()):
+                if v is variable or getattr(v, '_request_dataset', None) is not self.rd:
+                    continue
+                if v._value is None and not v._has_initialized_value and v.dimensions == variable.dimensions:
+                    ret.append(v)
+        return ret
+
     @staticmethod
     def iterator_formatter_time_bounds(name, value, mask):
         if mask:
diff --git a/src/ocgis/driver/csv_.py b/src/ocgis/driver/csv_.py
index a7f99ec..cb87620 100644
--- a/src/ocgis/driver/csv_.py
+++ b/src/ocgis/driver/csv_.py
@@ -1,10 +1,12 @@
 import csv
+import itertools
 from collections import OrderedDict
 
+import numpy as np
 import six
 from ocgis import vm
 from ocgis.base import raise_if_empty
-from ocgis.constants import MPIWriteMode, KeywordArgument, DriverKey
+from ocgis.constants import MPIWriteMode, KeywordArgument, DriverKey, SourceIndexType
 from ocgis.driver.base import driver_scope, raise_if_rank_failed, AbstractTabularDriver
 
 
@@ -19,25 +21,27 @@ class DriverCSV(AbstractTabularDriver):
 
     def get_variable_value(self, variable):
         # For CSV files, it makes sense to load all variables from source simultaneously.
-        if variable.parent is None:
-            to_load = [variable]
-        else:
-            to_load = list(variable.parent.values())
+        to_load = self.get_variables_to_load(variable)
+        ret = {v.name: np.zeros(v.shape, dtype=v.dtype) for v in to_load}
 
         with driver_scope(self) as f:
             reader = csv.DictReader(f)
-            bounds_local = variable.dimensions[0].bounds_local
-            for idx, row in enumerate(reader):
-                if idx < bounds_local[0]:
-                    continue
-                else:
-                    if idx >= bounds_local[1]:
-                        break
-                for tl in to_load:
-                    if not tl.has_allocated_value:
-                        tl.allocate_value()
-                    tl.get_value()[idx - bounds_local[0]] = row[tl.name]
-        return variable.get_value()
+            # The records are located by the source index. Local bounds do not follow a slice of the dimension.
+            dimension = variable.dimensions[0]
+            if dimension._src_idx_type == SourceIndexType.FANCY:
+                rows = list(reader)
+                rows = [rows[ii] for ii in dimension._src_idx]
+            else:
+                bounds = dimension.bounds_local if dimension._src_idx is None else dimension._src_idx
+                rows = itertools.islice(reader, int(bounds[0]), int(bounds[1]))
+            for idx, row in enumerate(rows):
+                for v in to_load:
+                    ret[v.name][idx] = row[v.source_name]
+
+        for v in to_load:
+            if v is not variable:
+                v.set_value(ret[v.name])
+        return ret[variable.name]
 
     def _get_metadata_main_(self):
         with driver_scope(self) as f:
@@ -51,7 +55,9 @@ class DriverCSV(AbstractTabularDriver):
             meta['dimensions'] = OrderedDict()
             for varname in variable_names:
                 meta['variables'][varname] = {'name': varname, 'dtype': object, 'dimensions': ('n_records',)}
-            meta['dimensions']['n_records'] = {'name': 'n_records', 'size': sum(1 for _ in f)}
+            # Values may contain line breaks and blank lines are not records.
+            size = sum(1 for row in reader if len(row) > 0)
+            meta['dimensions']['n_records'] = {'name': 'n_records', 'size': size}
         return meta
 
     @classmethod
@@ -94,3 +100,10 @@ class DriverCSV(AbstractTabularDriver):
 
     def _init_variable_from_source_main_(self, *args, **kwargs):
         pass
+
+    @staticmethod
+    def _open_(uri, mode='r', **kwargs):
+        # Line endings inside of values are not to be translated.
+        if not six.PY2:
+            kwargs.setdefault('newline', '')
+        return open(uri, mode=mode, **kwargs)
diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index ef3b2d3..d6a1c50 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -121,34 +121,26 @@ class DriverVector(AbstractTabularDriver):
             if as_geometry_iterator:
                 return (row['geom'] for row in g)
 
-            ret = {}
-            if variable.parent is None:
-                ret[variable.name] = np.zeros(variable.shape, dtype=variable.dtype)
-                for idx, row in enumerate(g):
-                    ret[variable.name][idx] = row['properties'][variable.name]
-            else:
-                ret = {}
-                # Initialize the variable data as zero arrays.
-                for v in list(variable.parent.values()):
-                    if not isinstance(v, CoordinateReferenceSystem):
-                        ret[v.name] = np.ma.array(np.zeros(v.shape, dtype=v.dtype), mask=False)
-                # Fill those arrays.
-                for idx, row in enumerate(g):
-                    for dv in list(variable.parent.values()):
-                        if isinstance(dv, (CoordinateReferenceSystem, GeometryVariable)):
-                            continue
-                        dv = dv.name
-                        # Property value may be none. Set the data to masked if this is the case.
-                        if row['properties'][dv] is None:
-                            if ret[dv].dtype == object:
-                                ret[dv][idx] = ''
-                            ret[dv].mask[idx] = True
-                        else:
-                            ret[dv][idx] = row['properties'][dv]
-                    try:
-                        ret[constants.VariableName.GEOMETRY_VARIABLE][idx] = row['geom']
-                    except KeyError:
-                        pass
+            to_load = self.get_variables_to_load(variable)
+            # Initialize the variable data as zero arrays.
+            ret = OrderedDict()
+            for v in to_load:
+                ret[v.name] = np.ma.array(np.zeros(v.shape, dtype=v.dtype), mask=False)
+            # Fill those arrays.
+            for idx, row in enumerate(g):
+                for v in to_load:
+                    if isinstance(v, GeometryVariable):
+                        ret[v.name][idx] = row['geom']
+                        continue
+                    dv = v.name
+                    value = row['properties'][v.source_name]
+                    # Property value may be none. Set the data to masked if this is the case.
+                    if value is None:
+                        if ret[dv].dtype == object:
+                            ret[dv][idx] = ''
+                        ret[dv].mask[idx] = True
+                    else:
+                        ret[dv][idx] = value
 
         # Only supply a mask if something is actually masked. Otherwise, remove the mask.
         is_masked = any([v.mask.any() for v in ret.values()])
-- 
2.43.0


From 87efcbab711a8daa246d032302c52a9c7b0755c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:53 +0000
Subject: [PATCH 156/162] fix: convert every unlimited dimension to a fixed
 size

---
 src/ocgis/driver/nc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index eddcc95..85940cf 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -66,7 +66,7 @@ class DriverNetcdf(AbstractDriver):
         :param kwargs: Arguments to netCDF variable creation with additional keyword arguments below.
         :keyword bool file_only: (``=False``) If ``True``, do not write the value to the output file. Create an empty
          netCDF file.
-        :keyword bool unlimited_to_fixed_size: (``=False``) If ``True``, convert the unlimited dimension to a fixed size.
+        :keyword bool unlimited_to_fixedsize: (``=False``) If ``True``, convert unlimited dimensions to a fixed size.
         """
         # There should never be any write operations associated with an empty variable.
         raise_if_empty(var)
@@ -112,11 +112,10 @@ class DriverNetcdf(AbstractDriver):
                     assert max_length is not None
                     dimensions = [var.dimensions[0], Dimension('{}_ocgis_slen'.format(var.name), max_length)]
                 dimensions = list(dimensions)
-                # Convert the unlimited dimension to fixed size if requested.
+                # Convert unlimited dimensions to fixed size if requested.
                 for idx, d in enumerate(dimensions):
                     if d.is_unlimited and unlimited_to_fixed_size:
                         dimensions[idx] = Dimension(d.name, size=var.shape[idx])
-                        break
                 # Create the dimensions.
                 for dim in dimensions:
                     create_dimension_or_pass(dim, dataset, write_mode=write_mode)
-- 
2.43.0


From 5ce81d7bdbab20cb2ec315d298d15adaf77cdcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:54 +0000
Subject: [PATCH 157/162] fix: slices of a request apply to all of its datasets

---
 src/ocgis/collection/field.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index 29d6d5c..4256072 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -580,9 +580,7 @@ class Field(VariableCollection):
             # When strict is False, we don't care about extra dimension names in the slice. This is useful for a general
             # slicing operation such as slicing for time with or without the dimension.
             if not strict:
-                to_pop = [dname for dname in list(dslice.keys()) if dname not in self.dimensions]
-                for dname in to_pop:
-                    dslice.pop(dname)
+                dslice = {dname: value for dname, value in dslice.items() if dname in self.dimensions}
             if distributed:
                 data_variable = self.data_variables[0]
                 data_variable_dimensions = data_variable.dimensions
-- 
2.43.0


From ed73ff76b7837f6ba4fc90a4fc94c3c5f558c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 158/162] fix: write groups in parallel

---
 src/ocgis/collection/field.py | 19 +++++----
 src/ocgis/driver/nc.py        | 72 +++++++++++++++++++++++++----------
 2 files changed, 63 insertions(+), 28 deletions(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index 4256072..579c2de 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -1072,6 +1072,17 @@ class Field(VariableCollection):
         from ocgis import RequestDataset
         return RequestDataset(*args, **kwargs).create_field()
 
+    def load_instrumented_dimensions(self):
+        """
+        Attempt to load all instrumented dimensions once. Do not do this for the geometry variable. This is done to
+        ensure proper attributes are applied to dimension variables before writing.
+        """
+
+        to_load = (DimensionMapKey.REALIZATION, DimensionMapKey.TIME, DimensionMapKey.LEVEL, DimensionMapKey.Y,
+                   DimensionMapKey.X)
+        for k in to_load:
+            getattr(self, k)
+
     def write(self, *args, **kwargs):
         """
         See :meth:`ocgis.VariableCollection.write`.
@@ -1080,13 +1091,7 @@ class Field(VariableCollection):
         """
         from ocgis.driver.registry import get_driver_class
 
-        to_load = (DimensionMapKey.REALIZATION, DimensionMapKey.TIME, DimensionMapKey.LEVEL, DimensionMapKey.Y,
-                   DimensionMapKey.X)
-
-        # Attempt to load all instrumented dimensions once. Do not do this for the geometry variable. This is done to
-        # ensure proper attributes are applied to dimension variables before writing.
-        for k in to_load:
-            getattr(self, k)
+        self.load_instrumented_dimensions()
 
         driver = kwargs.pop('driver', None)
         if driver is None:
diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 85940cf..f2713e8 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -198,6 +198,9 @@ class DriverNetcdf(AbstractDriver):
         else:
             possible_ranks = vm.ranks
 
+        # Formatting the groups is collective. The ranks write one after another.
+        write_group = cls._get_write_group_(vc)
+
         # Write the data on each rank.
         for idx, rank_to_write in enumerate(possible_ranks):
             # The template write only occurs on the first rank.
@@ -206,29 +209,56 @@ class DriverNetcdf(AbstractDriver):
             # If this is not a template write, fill the data.
             elif write_mode == MPIWriteMode.ASYNCHRONOUS or vm.rank == rank_to_write:
                 with driver_scope(cls, opened_or_path=opened_or_path, mode=mode, **dataset_kwargs) as dataset:
-                    # Write global attributes if we are not filling data.
-                    if write_mode != MPIWriteMode.FILL:
-                        vc.write_attributes_to_netcdf_object(dataset)
-                    # This is the main variable write loop.
-                    variables_to_write = get_variables_to_write(vc)
-                    for variable in variables_to_write:
-                        # Load the variable's data before orphaning. The variable needs its parent to know which
-                        # group it is in.
-                        variable.load()
-                        # Call the individual variable write method in fill mode. Orphaning is required as a
-                        # variable will attempt to write its parent first.
-                        with orphaned(variable, keep_dimensions=True):
-                            variable.write(dataset, write_mode=write_mode, **variable_kwargs)
-                    # Recurse the children.
-                    for child in list(vc.children.values()):
-                        if write_mode != MPIWriteMode.FILL:
-                            group = nc.Group(dataset, child.name)
-                        else:
-                            group = dataset.groups[child.name]
-                        child.write(group, write_mode=write_mode, **kwargs)
-                    dataset.sync()
+                    cls._write_group_(write_group, dataset, write_mode, variable_kwargs)
             vm.barrier()
 
+    @classmethod
+    def _get_write_group_(cls, vc):
+        """
+        Collective! Format the children of a variable collection for writing.
+
+        :returns: A tuple with the variable collection and a list with the same tuple for each of the children.
+        """
+        children = []
+        for child in list(vc.children.values()):
+            raise_if_empty(child)
+            if hasattr(child, 'dimension_map'):
+                child.load_instrumented_dimensions()
+                driver = child.dimension_map.get_driver(as_class=True)
+                child = driver._get_field_write_target_(child)
+            # Global string lengths are needed by the write.
+            for var in child.values():
+                if var._string_max_length_global is None:
+                    var.set_string_max_length_global()
+            children.append(cls._get_write_group_(child))
+        return vc, children
+
+    @classmethod
+    def _write_group_(cls, write_group, dataset, write_mode, variable_kwargs):
+        vc, children = write_group
+        # Write global attributes if we are not filling data.
+        if write_mode != MPIWriteMode.FILL:
+            vc.write_attributes_to_netcdf_object(dataset)
+        # This is the main variable write loop.
+        variables_to_write = get_variables_to_write(vc)
+        for variable in variables_to_write:
+            # Load the variable's data before orphaning. The variable needs its parent to know which
+            # group it is in.
+            variable.load()
+            # Call the individual variable write method in fill mode. Orphaning is required as a
+            # variable will attempt to write its parent first.
+            with orphaned(variable, keep_dimensions=True):
+                variable.write(dataset, write_mode=write_mode, **variable_kwargs)
+        # Recurse the children.
+        for child in children:
+            child_name = child[0].name
+            if write_mode != MPIWriteMode.FILL:
+                group = nc.Group(dataset, child_name)
+            else:
+                group = dataset.groups[child_name]
+            cls._write_group_(child, group, write_mode, variable_kwargs)
+        dataset.sync()
+
     def _get_metadata_main_(self):
         with driver_scope(self) as ds:
             ret = parse_metadata(ds)
-- 
2.43.0


From c29dd58e4a6352d16ea9dbda0bc409a83bdd5ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 159/162] fix: use a fill value in files if values are masked
 on any rank

---
 src/ocgis/driver/nc.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index f2713e8..44cbcdd 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -80,6 +80,7 @@ class DriverNetcdf(AbstractDriver):
         assert isinstance(dataset, nc.Dataset)
 
         file_only = kwargs.pop(KeywordArgument.FILE_ONLY, False)
+        is_masked = kwargs.pop('is_masked', False)
         unlimited_to_fixed_size = kwargs.pop(KeywordArgument.UNLIMITED_TO_FIXED_SIZE, False)
 
         # No data should be written during a global write. Data will be filled in during the append process.
@@ -123,7 +124,7 @@ class DriverNetcdf(AbstractDriver):
 
             # Only use the fill value if something is masked.
             is_nc3 = dataset.data_model.startswith('NETCDF3')
-            if ((len(dimensions) > 0 and var.has_masked_values) and (
+            if ((len(dimensions) > 0 and (is_masked or var.has_masked_values)) and (
                     write_mode == MPIWriteMode.TEMPLATE or not file_only)) or (
                     is_nc3 and not var.has_allocated_value and len(
                 dimensions) > 0) or (env.USE_NETCDF4_MPI and var.has_mask and vm.size > 1):
@@ -199,7 +200,7 @@ class DriverNetcdf(AbstractDriver):
             possible_ranks = vm.ranks
 
         # Formatting the groups is collective. The ranks write one after another.
-        write_group = cls._get_write_group_(vc)
+        write_group = cls._get_write_group_(vc, write_mode)
 
         # Write the data on each rank.
         for idx, rank_to_write in enumerate(possible_ranks):
@@ -213,12 +214,25 @@ class DriverNetcdf(AbstractDriver):
             vm.barrier()
 
     @classmethod
-    def _get_write_group_(cls, vc):
+    def _get_write_group_(cls, vc, write_mode):
         """
-        Collective! Format the children of a variable collection for writing.
+        Collective! Format the children of a variable collection for writing and find the variables having masked values
+        on any rank.
 
-        :returns: A tuple with the variable collection and a list with the same tuple for each of the children.
+        :returns: A tuple with the variable collection, the names of masked variables (only available on the root rank
+         when writing a template) and a list with the same tuple for each of the children.
         """
+        masked_names = []
+        if write_mode == MPIWriteMode.TEMPLATE:
+            try:
+                local = [v.name for v in get_variables_to_write(vc) if v.ndim > 0 and v.has_masked_values]
+            except Exception:
+                # The variable may not be available from source. This rank raises the exception when filling the file.
+                local = []
+            gathered = vm.gather(local)
+            if vm.rank == 0:
+                masked_names = [name for names in gathered for name in names]
+
         children = []
         for child in list(vc.children.values()):
             raise_if_empty(child)
@@ -230,12 +244,12 @@ class DriverNetcdf(AbstractDriver):
             for var in child.values():
                 if var._string_max_length_global is None:
                     var.set_string_max_length_global()
-            children.append(cls._get_write_group_(child))
-        return vc, children
+            children.append(cls._get_write_group_(child, write_mode))
+        return vc, masked_names, children
 
     @classmethod
     def _write_group_(cls, write_group, dataset, write_mode, variable_kwargs):
-        vc, children = write_group
+        vc, masked_names, children = write_group
         # Write global attributes if we are not filling data.
         if write_mode != MPIWriteMode.FILL:
             vc.write_attributes_to_netcdf_object(dataset)
@@ -248,7 +262,8 @@ class DriverNetcdf(AbstractDriver):
             # Call the individual variable write method in fill mode. Orphaning is required as a
             # variable will attempt to write its parent first.
             with orphaned(variable, keep_dimensions=True):
-                variable.write(dataset, write_mode=write_mode, **variable_kwargs)
+                variable.write(dataset, write_mode=write_mode, is_masked=variable.name in masked_names,
+                               **variable_kwargs)
         # Recurse the children.
         for child in children:
             child_name = child[0].name
-- 
2.43.0


From c1114cf6479b186b77d348a109a2de74f1825a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:21 +0000
Subject: [PATCH 160/162] fix: tiles are written along the spatial dimensions
 in any order

---
 src/ocgis/util/large_array.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/util/large_array.py b/src/ocgis/util/large_array.py
index 0d693d9..d73ba3e 100644
--- a/src/ocgis/util/large_array.py
+++ b/src/ocgis/util/large_array.py
@@ -191,17 +191,18 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
                         slice_col = slice(col[0] - col_offset, col[1] - col_offset)
                         # if there is a spatial mask, update accordingly
                         if mask_spatial is not None:
-                            set_variable_spatial_mask(variable, mask_spatial, slice_row, slice_col)
+                            set_variable_spatial_mask(variable, mask_spatial, slice_row, slice_col,
+                                                      spatial_dimensions=field.grid.dimensions)
                             fill_mask = field.grid.get_mask(create=True)
                             fill_mask[:, :] = mask_spatial[slice_row, slice_col]
                             fill_mask = np.ma.array(np.zeros(fill_mask.shape), mask=fill_mask)
                             fds.variables[field.grid.mask_variable.name][slice_row, slice_col] = fill_mask
                         fill_value = variable.get_masked_value()
                         # fill the netCDF container variable adjusting for shape
-                        if len(vref.shape) == 3:
-                            vref[:, slice_row, slice_col] = fill_value
-                        elif len(vref.shape) == 4:
-                            vref[:, :, slice_row, slice_col] = fill_value
+                        # The spatial dimensions may be anywhere in the variable's dimensions.
+                        tile_slices = {field.grid.dimensions[0].name: slice_row, field.grid.dimensions[1].name: slice_col}
+                        if len(vref.shape) in (3, 4):
+                            vref[tuple([tile_slices.get(d, slice(None)) for d in vref.dimensions])] = fill_value
                         else:
                             raise NotImplementedError(vref.shape)
 
@@ -221,7 +222,7 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
     return fill_file
 
 
-def set_variable_spatial_mask(variable, mask_spatial, slice_row, slice_col):
+def set_variable_spatial_mask(variable, mask_spatial, slice_row, slice_col, spatial_dimensions=None):
     """
     Update the mask on ``variable`` in-place to match ``mask_spatial``. The array slice updated is constrained by
     ``slice_row`` and ``slice_col``.
@@ -235,10 +236,17 @@ def set_variable_spatial_mask(variable, mask_spatial, slice_row, slice_col):
     :type slice_row: slice
     :param slice_col: The column slice to update.
     :type slice_col: slice
+    :param spatial_dimensions: The row and column dimensions of ``variable``. The last two dimensions are used by default.
+    :type spatial_dimensions: sequence of :class:`ocgis.Dimension`
     """
 
     fill_mask = np.zeros(variable.shape, dtype=bool)
-    fill_mask[..., :, :] = mask_spatial[slice_row, slice_col]
+    if spatial_dimensions is None:
+        axes = [-2, -1]
+    else:
+        axes = [variable.dimension_names.index(d.name) for d in spatial_dimensions]
+    # This is a view with the row and column dimensions last.
+    np.moveaxis(fill_mask, axes, [-2, -1])[..., :, :] = mask_spatial[slice_row, slice_col]
     vmask = variable.get_mask(create=True)
     vmask = np.logical_or(fill_mask, vmask[:, :])
     variable.set_mask(vmask)
-- 
2.43.0


From 8c363b9596252e4ed76478e39b1fc8863adcd089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:30 +0000
Subject: [PATCH 161/162] fix: restore the callback of a request computed in
 tiles

---
 src/ocgis/util/large_array.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ocgis/util/large_array.py b/src/ocgis/util/large_array.py
index d73ba3e..690a067 100644
--- a/src/ocgis/util/large_array.py
+++ b/src/ocgis/util/large_array.py
@@ -40,15 +40,6 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
     assert isinstance(ops, OcgOperations)
     assert ops.output_format == constants.OutputFormatName.NETCDF
 
-    # Ensure that progress is not showing 100% at first.
-    if ops.callback is not None:
-        orgcallback = ops.callback
-
-        def zeropercentagecallback(p, m):
-            orgcallback(0., m)
-
-        ops.callback = zeropercentagecallback
-
     tile_dimension = int(tile_dimension)
     if tile_dimension <= 0:
         raise ValueError('"tile_dimension" must be greater than 0')
@@ -66,6 +57,15 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
     else:
         has_multivariate = False
 
+    # Ensure that progress is not showing 100% at first. The callback is replaced during the computation.
+    orgcallback = ops.callback
+    if ops.callback is not None:
+
+        def zeropercentagecallback(p, m):
+            orgcallback(0., m)
+
+        ops.callback = zeropercentagecallback
+
     # work on a copy of the operations to create the template file
     ops_file_only = deepcopy(ops)
     # we need the output to be file only for the first request
@@ -215,6 +215,7 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
             fds.close()
     finally:
         ocgis.env.OPTIMIZE_FOR_CALC = orig_oc
+        ops.callback = orgcallback
     if verbose:
         progress.endProgress()
         print('complete.')
-- 
2.43.0


From 53f5fcab5c56a4ebcd99390f7b7f2e8c0742d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:03 +0000
Subject: [PATCH 162/162] fix: transform every element of a part of a geometry
 variable, and only those

---
 src/ocgis/variable/geom.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 057ff47..54ff453 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1151,7 +1151,10 @@ class GeometryVariable(AbstractSpatialVariable):
             from_crs.transform_geometry(to_crs, self, inverse=inverse)
         elif from_crs != to_crs:
             # Be sure and project masked geometries to maintain underlying geometries.
-            r_value = self.get_value().reshape(-1)
+            # Work on a copy. The value may be a view on the value of another variable and not every view may be flattened
+            # without copying it.
+            value = self.get_value().copy()
+            r_value = value.flat
             r_loads = wkb.loads
             r_create = ogr.CreateGeometryFromWkb
             to_sr = to_crs.sr
@@ -1161,7 +1164,7 @@ class GeometryVariable(AbstractSpatialVariable):
             if the_mask is not None:
                 the_mask = the_mask.flatten()
 
-            for idx, geom in enumerate(r_value.flat):
+            for idx, geom in enumerate(value.flat):
                 try:
                     # Get the well known binary representation of the geometry object.
                     geom_wkb = geom.wkb
@@ -1177,6 +1180,7 @@ class GeometryVariable(AbstractSpatialVariable):
                 ogr_geom.AssignSpatialReference(from_sr)
                 ogr_geom.TransformTo(to_sr)
                 r_value[idx] = r_loads(ogr_geom.ExportToWkb())
+            self.set_value(value)
         # Even if coordinate systems are measured equivalent, for consistency the new crs is the destination CRS.
         self.crs = to_crs
 
-- 
2.43.0

