From 918e6496ba2fb6de9f01e52cc811d056a65e5ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:29 +0000
Subject: [PATCH 01/76] fix: refuse cell widths that do not divide a global
 region

The width of a -180:180 region was reduced modulo 360 to zero, which every
cell width divides, so the mesh could overrun or overlap itself.
---
 meshiphi/config_validation/config_validator.py | 6 +++++-
 meshiphi/mesh_generation/mesh_builder.py       | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index 65e4217..a3acae9 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -94,7 +94,11 @@ def validate_mesh_config(config):
             bound_max (float): Maximum value of boundary in the same axis
             cell_size (float): Initial cellbox size in the same axis
         """
-        assert(((bound_max - bound_min)%360/cell_size)%1 == 0), \
+        bound_size = (bound_max - bound_min) % 360
+        # A region spanning all longitudes is 360 degrees wide, rather than 0
+        if bound_size == 0 and bound_max != bound_min:
+            bound_size = 360
+        assert((bound_size/cell_size)%1 == 0), \
             f"{bound_max}-{bound_min}={bound_max-bound_min} is not evenly "+\
             f"divided by {cell_size}"
         
diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index ca03886..921fe8e 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -317,7 +317,9 @@ class MeshBuilder:
         
 
     def validate_bounds(self, bounds, cell_width, cell_height):
-        assert (bounds.get_long_max() - bounds.get_long_min()) % 360 % cell_width == 0, \
+        # A region spanning all longitudes is 360 degrees wide, rather than 0
+        region_width = (bounds.get_long_max() - bounds.get_long_min()) % 360 or 360
+        assert region_width % cell_width == 0, \
             f"""The defined longitude region <{bounds.get_long_min()} :{bounds.get_long_max()}>
             is not divisable by the initial cell width <{cell_width}>"""
 
-- 
2.43.0


From 76608af4de41a3c81ceef0ac8daeed42ef525961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:29 +0000
Subject: [PATCH 02/76] fix: link neighbours across the antimeridian after
 splitting

Cells of a region crossing the antimeridian (or of a loaded global mesh) were
compared by raw longitude, so splitting a cell on either side of it dropped
the links between the two sides.
---
 meshiphi/mesh_generation/neighbour_graph.py | 26 +++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/meshiphi/mesh_generation/neighbour_graph.py b/meshiphi/mesh_generation/neighbour_graph.py
index 1b75732..357a705 100644
--- a/meshiphi/mesh_generation/neighbour_graph.py
+++ b/meshiphi/mesh_generation/neighbour_graph.py
@@ -203,6 +203,28 @@ class NeighbourGraph:
         if len(south_west_corner_indx) > 0:
             self.neighbour_graph[south_west_corner_indx[0]][Direction.north_east] = [south_west_indx]
     
+    @staticmethod
+    def shift_over_antimeridian(bounds_a, bounds_b):
+        """
+            Measures the minimum longitude of bounds_b such that it can be compared
+            with the longitudes of bounds_a, even if they meet across the antimeridian.
+
+            Args:
+                bounds_a (Bounds): starting Bounds
+                bounds_b (Bounds): destination Bounds
+            Returns:
+                float: minimum longitude of bounds_b, shifted by a full turn
+                    if bounds_a and bounds_b meet across the antimeridian
+        """
+        long_a = bounds_a.get_long_min()
+        long_b = bounds_b.get_long_min()
+
+        if long_a + bounds_a.get_width() >= long_b + 360:
+            return long_b + 360
+        if long_b + bounds_b.get_width() >= long_a + 360:
+            return long_b - 360
+        return long_b
+
     def get_neighbour_case_bounds(self, bounds_a, bounds_b):
         """
             Given two bounds (bounds_a, bounds_b) returns a case number
@@ -230,6 +252,7 @@ class NeighbourGraph:
         lat_a = bounds_a.get_lat_min()
         long_b = bounds_b.get_long_min()
         lat_b = bounds_b.get_lat_min()
+        long_b = self.shift_over_antimeridian(bounds_a, bounds_b)
 
         if (long_a + bounds_a.get_width()) == long_b and (
                 lat_a + bounds_a.get_height()) == lat_b:
@@ -313,6 +336,9 @@ class NeighbourGraph:
             return long_a == -180  and cellbox_b.get_bounds().get_long_max() == 180 or long_b == -180 and cellbox_a.get_bounds().get_long_max() == 180 
         if self.is_global_mesh() and on_global_bound (cellbox_a , cellbox_b) :
             return self.get_global_mesh_neighbour_case(cellbox_a, cellbox_b)
+
+        long_b = self.shift_over_antimeridian(cellbox_a.get_bounds(),
+                                              cellbox_b.get_bounds())
         
         if (long_a + cellbox_a.get_bounds().get_width()) == long_b and (
                 lat_a + cellbox_a.get_bounds().get_height()) == lat_b:
-- 
2.43.0


From 953630a7353b13759498479a41eb89726527652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:34 +0000
Subject: [PATCH 03/76] fix: select tabular data inside, not outside,
 antimeridian crossing bounds

The longitude mask for bounds that cross the antimeridian was inverted, so
scalar and vector dataframes lost every point inside and could keep ones
outside.
---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 4 ++--
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 36cb389..87fce45 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -272,8 +272,8 @@ class ScalarDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                     (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 26cc222..6587775 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -327,8 +327,8 @@ class VectorDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                     (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
-- 
2.43.0


From de11f6057aa4bce2e0172ace7388185deb94ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:34 +0000
Subject: [PATCH 04/76] fix: COUNT the non-missing datapoints for every kind of
 dataset

With skipna (the default) gridded scalar and all vector datasets counted
missing values too, and vector datasets gave a missing count, to be filled
from the parent, where there was simply nothing to count.
---
 .../dataloaders/scalar/abstract_scalar.py     |  3 +-
 .../dataloaders/vector/abstract_vector.py     | 31 +++++++++++--------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 87fce45..6492f87 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -420,7 +420,8 @@ class ScalarDataLoader(DataLoaderInterface):
             logging.debug(f"\t{len(dps)} datapoints found for attribute '{self.data_name}' within bounds '{bounds}'")
             # If want the number of datapoints
             if agg_type =='COUNT':
-                return dps.size
+                if skipna:  return np.count_nonzero(~np.isnan(dps))
+                else:       return dps.size
             # If no data
             elif dps.size == 0:
                 return np.nan
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 6587775..b8b38ee 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -414,12 +414,17 @@ class VectorDataLoader(DataLoaderInterface):
             '''
             data_count = len(dps)
             logging.debug(f"\t{data_count} datapoints found for attribute '{self.data_name}' within bounds '{bounds}'")
+            # If want the number of datapoints
+            if agg_type =='COUNT':
+                # If not including nan's, only count non-nan values
+                if skipna:
+                    values = [int(dps[name].count()) for name in variable_names]
+                # Otherwise just want size
+                else:
+                    values = [data_count for _ in variable_names]
             # If no data
-            if data_count == 0:
+            elif data_count == 0:
                 values = [np.nan, np.nan]
-            # If want the number of datapoints
-            elif agg_type =='COUNT':
-                values = [data_count, data_count]
             elif agg_type == 'MIN':
                 index = dps['_magnitude'].idxmin(skipna=skipna)
                 if ~np.isnan(index):
@@ -466,19 +471,19 @@ class VectorDataLoader(DataLoaderInterface):
             # Info on size of array
             data_count = dps._magnitude.size 
             logging.debug(f"\t{data_count} datapoints found for attribute '{self.data_name}' within bounds '{bounds}'")
+            # If want count
+            if agg_type == 'COUNT':
+                # If not including nan's, only count non-nan values
+                if skipna:
+                    values = [dps[name].count().item() for name in variable_names]
+                # Otherwise just want size
+                else:
+                    values = [data_count for _ in variable_names]
             # If no data, return np.nan for each variable
-            if data_count == 0:
+            elif data_count == 0:
                 values = [np.nan for _ in variable_names]
             elif np.isnan(dps._magnitude).all():
                 values = [np.nan for _ in variable_names]
-            # If want count
-            elif agg_type == 'COUNT':
-                # If including nan's, just want size
-                if skipna:  
-                    values = [data_count for _ in variable_names]
-                # Otherwise count non-nan values
-                else:       
-                    values = [dps[name].count().item() for name in variable_names]
             elif agg_type == 'MIN':
                 # Get 2D index of minimum magnitude point
                 index = np.unravel_index(
-- 
2.43.0


From cc477964eaef3f301bb900b5a014a2f44e9a6d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:34 +0000
Subject: [PATCH 05/76] fix: MIN and MAX of vector data read from several files

Rows of different files share index labels, so looking the extreme point up
by its label gave several rows instead of one value per component.
---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index b8b38ee..000db78 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -412,6 +412,8 @@ class VectorDataLoader(DataLoaderInterface):
             Returns:
                 np.float64: Aggregated value
             '''
+            # Datapoints read from several files may share index labels
+            dps = dps.reset_index(drop=True)
             data_count = len(dps)
             logging.debug(f"\t{data_count} datapoints found for attribute '{self.data_name}' within bounds '{bounds}'")
             # If want the number of datapoints
-- 
2.43.0


From bb1a68c49c2a3817daeceb78d1a9f2024bb55905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 06/76] fix: fill missing vector components with the configured
 value

The constant was stored under the joint name of both components, so each
component stayed missing and a bogus attribute appeared.
---
 meshiphi/mesh_generation/cellbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/cellbox.py b/meshiphi/mesh_generation/cellbox.py
index c2bab10..11e957a 100644
--- a/meshiphi/mesh_generation/cellbox.py
+++ b/meshiphi/mesh_generation/cellbox.py
@@ -377,7 +377,7 @@ class CellBox:
                         agg_value[name] = loader.get_value(parent.bounds, data=parent_data_subset)[name]
                         parent = parent.get_parent()
                 else:  # not parent, so either float or Nan so set the agg_Data to value_fill_type
-                    agg_value[data_name] = source.get_value_fill_type()
+                    agg_value[name] = source.get_value_fill_type()
         return agg_value
 
     def deallocate_cellbox(self):
-- 
2.43.0


From db516793f86ceccc4ee80cf581bc78f34d798871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 07/76] fix: use numbers, not strings, for "Nan" and numeric
 value_fill_types

Configured as strings they were stored in cells as strings.
---
 meshiphi/mesh_generation/mesh_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 921fe8e..857eb01 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -228,7 +228,10 @@ class MeshBuilder:
                     return False
         value_fill_type = "parent"
         if 'value_fill_types' in data_source['params']:
-            if is_float (data_source  ['params']['value_fill_types']) or   data_source['params']['value_fill_types'] in ["parent" ,"Nan"]:
+            # Covers "Nan" too
+            if is_float (data_source  ['params']['value_fill_types']):
+                value_fill_type = float(data_source  ['params']['value_fill_types'])
+            elif data_source['params']['value_fill_types'] == "parent":
                 value_fill_type = data_source  ['params']['value_fill_types']
             else:
                 logging.warning("Invalid value for value_fill_types, setting to the default(parent) instead.")
-- 
2.43.0


From 30c14978e7bf816b380661520f83a43b7cb058e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 08/76] fix: treat value_fill_types of any invalid type as the
 default

Anything but a string raised a TypeError instead of the intended warning.
---
 meshiphi/mesh_generation/mesh_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 857eb01..cb9a588 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -224,7 +224,7 @@ class MeshBuilder:
             try:
                     float(element)
                     return True
-            except ValueError:
+            except (ValueError, TypeError):
                     return False
         value_fill_type = "parent"
         if 'value_fill_types' in data_source['params']:
-- 
2.43.0


From 3820ac27f3973216ce4594cf3c0b2b4a33fd3062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 09/76] fix: keep the first non-missing value of duplicated
 vector sources

The check for an existing value looked the joint name of both components up,
which is never a key, so a later vector source always overwrote an earlier one.
---
 meshiphi/mesh_generation/cellbox.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/meshiphi/mesh_generation/cellbox.py b/meshiphi/mesh_generation/cellbox.py
index 11e957a..f38f9aa 100644
--- a/meshiphi/mesh_generation/cellbox.py
+++ b/meshiphi/mesh_generation/cellbox.py
@@ -342,13 +342,14 @@ class CellBox:
                 else:  # not parent, so either float or Nan so set the agg_Data to value_fill_type
                     agg_value[data_name] = source.get_value_fill_type()
                     
-            # If already and value for {data_name} in cellbox and it's a NaN, overwrite
-            if (data_name in agg_dict):
-                if np.isnan(agg_dict[data_name]):
-                    logging.warning(f'\t{data_name} already exists in cellbox! Overwriting only NaN values')
-                    agg_dict.update(agg_value)
-            else:
-                agg_dict.update(agg_value)
+            # If already and value for {name} in cellbox and it's a NaN, overwrite
+            for name, value in agg_value.items():
+                if (name in agg_dict):
+                    if np.isnan(agg_dict[name]):
+                        logging.warning(f'\t{name} already exists in cellbox! Overwriting only NaN values')
+                        agg_dict[name] = value
+                else:
+                    agg_dict[name] = value
                 
         agg_cellbox = AggregatedCellBox(self.bounds, agg_dict, self.get_id())
         # free the memory space used by the cellbox
-- 
2.43.0


From 3cb5ef7dcb44b3d4157347b578fb52c0379a3dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:30 +0000
Subject: [PATCH 10/76] fix: compute the curl of gridded vector data along the
 right axes

The gridded field was differentiated with latitude and longitude swapped, and
a time dimension was mistaken for a spatial one.
---
 meshiphi/dataloaders/vector/abstract_vector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 000db78..618f6f3 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -963,7 +963,7 @@ class VectorDataLoader(DataLoaderInterface):
         # Get component values for each vector
         fx, fy = vector_field[:, :, 0], vector_field[:, :, 1]
         # If not enough datapoints to compute gradient
-        if 1 in fx.shape or 1 in fy.shape:
+        if 1 in fx.shape[:2] or 1 in fy.shape[:2]:
             logging.debug('\tUnable to compute gradient across cell for curl calculation')
             curl = np.nan
         else:
@@ -1071,10 +1071,11 @@ class VectorDataLoader(DataLoaderInterface):
         
         def meshgrid_from_xr(data, data_name_list):
             # Extract out each variable and combine as tuple
-            data_arrays = [data[name].values 
+            # Same axis order as for a dataframe
+            data_arrays = [data[name].transpose('long', 'lat', ...).values
                                 for name in data_name_list]
             # Zip them together to make 2D array of n-dimensional vectors
-            return np.dstack(data_arrays)
+            return np.stack(data_arrays, axis=2)
         
         if type(data) == pd.core.frame.DataFrame:
             return meshgrid_from_df(data, data_name_list)
-- 
2.43.0


From 2314e55dc4518d26c16daf635df5618877ac0df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:30 +0000
Subject: [PATCH 11/76] fix: allow splitting of gridded vector data by dmag

calc_dmag only worked for dataframes and raised an AttributeError for
xr.Dataset.
---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 618f6f3..2f1626c 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1018,7 +1018,7 @@ class VectorDataLoader(DataLoaderInterface):
         else:               dps = data
             
         data_names = self.data_name_list
-        each_vector = dps[data_names].to_numpy()
+        each_vector = np.stack([dps[name].to_numpy().ravel() for name in data_names], axis=-1)
         ave_vector = list(self.get_value(bounds, agg_type=agg_type).values())
         
         delta_vector = each_vector - ave_vector
-- 
2.43.0


From 43b8c87e6f336cc5d0fe0b85dbd32378e370a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:30 +0000
Subject: [PATCH 12/76] fix: rename the data column, not the index, of LUT data

---
 meshiphi/dataloaders/lut/abstract_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index ec8f987..751649d 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -398,7 +398,7 @@ class LutDataLoader(DataLoaderInterface):
         old_name = self.get_data_col_name()
         if old_name != new_name:
             logging.info(f"\tChanging data name from {old_name} to {new_name}")
-            return self.data.rename({old_name:new_name})
+            return self.data.rename(columns={old_name:new_name})
         else:
             logging.info(f"\tData is already labelled '{new_name}'")
             return self.data
-- 
2.43.0


From f598f1bcd6f4e46de98a2a92e79a242b36724843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:30 +0000
Subject: [PATCH 13/76] fix: default missing LUT splitting conditions to False

As for scalar and vector data, instead of raising a KeyError.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 751649d..7253ef2 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -337,10 +337,10 @@ class LutDataLoader(DataLoaderInterface):
         hom_type = 'CLR'
         # If there's no polygon that overlaps with bounds        
         if not any([polygon.intersects(bounds_polygon) for polygon in polygons]):
-            if splitting_conds['split_lock'] == True: 
+            if splitting_conds.get('split_lock', False) == True: 
                 hom_type = "HOM"
         # If we want to split on the boundary
-        elif splitting_conds['boundary']:
+        elif splitting_conds.get('boundary', False):
             if any(p.boundary.intersects(bounds_polygon) for p in polygons):
                 hom_type = 'HET'
             
-- 
2.43.0


From 2c501d201c35eb31a2005c9864f792ca6a2e730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:30 +0000
Subject: [PATCH 14/76] fix: keep each dated LUT polygon once, with its date

Entries sharing a date were each repeated once per sharing entry, failed if
they were MultiPolygons, and lost their date.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 7253ef2..a3c6263 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -148,14 +148,15 @@ class LutDataLoader(DataLoaderInterface):
         # List of rows to include in cleaned dataframe
         new_data = []
         # For each entry
-        for index, row in data.iterrows():
+        # (by position, as dated entries can share an index)
+        for position, (_, row) in enumerate(data.iterrows()):
             # Add row if Polygon
             if row.geometry.geom_type == 'Polygon':
-                new_data.append(data.loc[[index]])
+                new_data.append(data.iloc[[position]])
             # Split out multipolygons to single polygons, and add rows
             elif row.geometry.geom_type == 'MultiPolygon':
                 polygons = list(row.geometry.geoms)
-                new_df = pd.concat([data.loc[[index]]]*len(polygons))
+                new_df = pd.concat([data.iloc[[position]]]*len(polygons))
                 new_df['geometry'] = polygons
                 new_data.append(new_df)
             # Otherwise, geometry not usable
@@ -164,7 +165,8 @@ class LutDataLoader(DataLoaderInterface):
                     f'{row.geometry.geom_type} not acceptable geometry type.'+\
                      ' Must be a Polygon or MultiPolygon!'
                 )
-        data = pd.concat(new_data, ignore_index=True)
+        # Retain dates if there are any
+        data = pd.concat(new_data, ignore_index='time' not in data.index.names)
         
         return data
 
-- 
2.43.0


From 44c966ae35e770b32691d894f16fb1c7e6b57e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:53 +0000
Subject: [PATCH 15/76] fix: weight LUT polygons by their own overlap with the
 bounds

Every polygon was given the overlap of all of them together, so the MEAN, STD
and MEDIAN were not weighted, and polygons merely touching the bounds counted
in full.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index a3c6263..3fcead5 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -275,10 +275,16 @@ class LutDataLoader(DataLoaderInterface):
             # Skipna not easily parsed to remaining calculations, so force it here
             if skipna: polygons = polygons.dropna()
             # Mean, median, and std dev need to be weighted by size of polygons
-            polygons = polygons.assign(weights=lambda row: 
-                                        self.calculate_coverage(bounds, 
-                                                                row['geometry']))
-            if agg_type == 'MEAN':
+            polygons = polygons.assign(weights=[
+                                        self.calculate_coverage(bounds,
+                                                                pd.Series([geometry]))
+                                        for geometry in polygons['geometry']])
+            # Polygons that merely touch the bounds carry no weight
+            polygons = polygons.loc[polygons['weights'] > 0]
+            if len(polygons) == 0:
+                ret_val = np.nan
+
+            elif agg_type == 'MEAN':
                 ret_val = np.average(polygons[self.data_name], 
                                 weights=polygons['weights'])
             
-- 
2.43.0


From 5c52d2ffee32d87d0c40f392859b468074b31edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:53 +0000
Subject: [PATCH 16/76] fix: MEDIAN of LUT data is the value at half the
 ordered weight

It took polygons in arbitrary order and returned a whole row, which then
failed to be stored.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 3fcead5..3e9d451 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -289,7 +289,8 @@ class LutDataLoader(DataLoaderInterface):
                                 weights=polygons['weights'])
             
             elif agg_type == 'MEDIAN':
-                # Chunk by cumulative weight
+                # Chunk by cumulative weight, in order of value
+                polygons = polygons.sort_values(self.data_name)
                 polygons['cumulative_weights'] = polygons['weights'].cumsum(
                                                                     skipna=skipna)
                 # Find middle of cumulative weight
@@ -297,7 +298,10 @@ class LutDataLoader(DataLoaderInterface):
                 median_pos = total_weight/2
                 # Extract top half and return lowest value (value closest to halfway)
                 top_half = polygons.loc[polygons['cumulative_weights'] >= median_pos]
-                ret_val = top_half.iloc[0]
+                ret_val = top_half[self.data_name].iloc[0]
+                # As for the other aggregations, NaN's are propagated if not skipped
+                if polygons[self.data_name].isna().any():
+                    ret_val = np.nan
             
             elif agg_type == 'STD':
                 # Calculate std dev manually to account for weight
-- 
2.43.0


From f557d6ffb42529a11a6d9c51a32bdab7d6c86014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:53 +0000
Subject: [PATCH 17/76] fix: give each date the thickness of its own month

With a time range spanning several seasons, every date was listed with the
values of all of them.
---
 meshiphi/dataloaders/lut/thickness.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/meshiphi/dataloaders/lut/thickness.py b/meshiphi/dataloaders/lut/thickness.py
index a609656..6d69876 100644
--- a/meshiphi/dataloaders/lut/thickness.py
+++ b/meshiphi/dataloaders/lut/thickness.py
@@ -111,12 +111,10 @@ class ThicknessDataLoader(LutDataLoader):
             if intersection.geom_type in ['Polygon', 'MultiPolygon'] and \
                intersection != Polygon():
                     
-                region_df = pd.concat([
-                        pd.DataFrame({'time': dates,
-                                      'geometry': region.geometry & bounds_polygon,
-                                      'thickness': region.get_value(month)})
-                        for month in dates.month
-                    ])
+                region_df = pd.DataFrame({'time': dates,
+                                          'geometry': region.geometry & bounds_polygon,
+                                          'thickness': [region.get_value(month)
+                                                        for month in dates.month]})
                 
                 thickness_df = pd.concat([thickness_df, region_df])
                 
-- 
2.43.0


From 99d04f878f1ad56346f02040894142a73dd86b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:19 +0000
Subject: [PATCH 18/76] fix: order dated LUT polygons before selecting a time
 range

---
 meshiphi/dataloaders/lut/abstract_lut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 3e9d451..5f6b113 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -221,7 +221,8 @@ class LutDataLoader(DataLoaderInterface):
             data = self.data
         # Limit time to boundary
         if 'time' in data.index.names:
-            data = data.loc[bounds.get_time_min():bounds.get_time_max()]
+            # (slicing by date needs the dates in order)
+            data = data.sort_index().loc[bounds.get_time_min():bounds.get_time_max()]
             
         # Find intersection of each polygon to the boundary
         bounds_polygon = bounds.to_polygon()    
-- 
2.43.0


From 9c90f37d38008fcbb9ce055ba9ededebea685072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:08 +0000
Subject: [PATCH 19/76] fix: curl of cells holding no vectors

---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 2f1626c..024748b 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -963,7 +963,7 @@ class VectorDataLoader(DataLoaderInterface):
         # Get component values for each vector
         fx, fy = vector_field[:, :, 0], vector_field[:, :, 1]
         # If not enough datapoints to compute gradient
-        if 1 in fx.shape[:2] or 1 in fy.shape[:2]:
+        if min(fx.shape[:2]) < 2 or min(fy.shape[:2]) < 2:
             logging.debug('\tUnable to compute gradient across cell for curl calculation')
             curl = np.nan
         else:
-- 
2.43.0


From 6e7f9cec3cca7945c8b59807633752bfba4eeed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:54 +0000
Subject: [PATCH 20/76] fix: split boundaries whose middle lies beyond the
 antimeridian

---
 meshiphi/mesh_generation/boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 8d16204..5d24641 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -414,7 +414,7 @@ class Boundary:
                 original boundary.
         """
         lat_mid = self.get_lat_min() + (self.get_height() / 2)
-        long_mid = self.get_long_min() + (self.get_width() / 2)
+        long_mid = self.getcx()
 
         # 0 = south_west, 1 = north_west, 2 = south_east, 3 = north_east
         bounds = [
-- 
2.43.0


From b7135a72f7518dbfd6ae943855c9d8444358a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:54 +0000
Subject: [PATCH 21/76] fix: refuse to update a cellbox at an invalid index

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 1bda9a6..f58043e 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1461,7 +1461,7 @@ class EnvironmentMesh:
               index (int): the index of the cellbox to be updated
               values (dict): a dict contains perf. metrics names and values
         """
-        if index > -1 or index < len(self.agg_cellboxes):
+        if index > -1 and index < len(self.agg_cellboxes):
             self.agg_cellboxes[index].agg_data.update(values)
         else:
             raise ValueError('Invalid cellbox index')
-- 
2.43.0


From 39c082809629f8f1550deaa18e5a81bfce4cee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:54 +0000
Subject: [PATCH 22/76] fix: cells crossing the antimeridian contain the points
 on it

---
 meshiphi/mesh_generation/aggregated_cellbox.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshiphi/mesh_generation/aggregated_cellbox.py b/meshiphi/mesh_generation/aggregated_cellbox.py
index 23377d4..49c3570 100644
--- a/meshiphi/mesh_generation/aggregated_cellbox.py
+++ b/meshiphi/mesh_generation/aggregated_cellbox.py
@@ -167,6 +167,9 @@ class AggregatedCellBox:
         """
         shapely_boundary = self.boundary.to_polygon()
         point = Point(long, lat)
+        # The antimeridian lies between the two polygons of a cell crossing it
+        if shapely_boundary.geom_type == 'MultiPolygon' and abs(long) == 180:
+            return self.boundary.get_lat_min() < lat < self.boundary.get_lat_max()
         return shapely_boundary.contains(point)
     
     def __eq__(self, other):
-- 
2.43.0


From 07cf90ae893e61e8e6d78cd36ce22d40ed25ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:54 +0000
Subject: [PATCH 23/76] fix: split around points at the centre of a cell

---
 meshiphi/mesh_generation/environment_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index f58043e..22f858e 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -190,9 +190,9 @@ class EnvironmentMesh:
         """
         for point in points:
             splitting_waypoint = True
-            if self.query_inside_mesh(point):
-                while splitting_waypoint:
-                    splitting_waypoint = self._split_loc(point)
+            # No cell contains the point any more once it falls on the edge of a split
+            while splitting_waypoint and self.query_inside_mesh(point):
+                splitting_waypoint = self._split_loc(point)
 
     def get_cellbox(self, cellbox_id):
         """
-- 
2.43.0


From a706b13d288163ef6bbdff001fc5e2230e320c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:54 +0000
Subject: [PATCH 24/76] fix: keep the id in the data of a merged cell in step
 with its id

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 22f858e..75a51c7 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -758,7 +758,7 @@ class EnvironmentMesh:
 
         for cellbox in self.agg_cellboxes:
             cellbox.set_id(str(int(cellbox.get_id()) + increment))
-            cellbox.agg_data['id'] = str(int(cellbox.get_id()) + increment)
+            cellbox.agg_data['id'] = cellbox.get_id()
 
         self.neighbour_graph.increment_ids(increment)
         
-- 
2.43.0


From cd33e526822ba67fc34a2950f5d71655844e32ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:54 +0000
Subject: [PATCH 25/76] fix: leave the given mesh unmodified when merging

---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 75a51c7..3792571 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -17,6 +17,7 @@ from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
 
 from meshiphi.mesh_validation.sampler import Sampler
 import collections.abc
+import copy
 import math
 from pathlib import Path
 
@@ -218,6 +219,9 @@ class EnvironmentMesh:
 
         assert self.validate_merge_compatibility(mesh2), "The given mesh is not compatible with merging with this mesh" 
 
+        # work on a copy, as ids and neighbours of the given mesh get changed
+        mesh2 = copy.deepcopy(mesh2)
+
         # append config files
         if "merged" not in self.config.keys():
             self.config["merged"] = []
-- 
2.43.0


From ffe5295019e73f393f628934c4d1bceb4e49f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:09 +0000
Subject: [PATCH 26/76] fix: merge meshes across the antimeridian

---
 meshiphi/mesh_generation/environment_mesh.py | 75 +++++++++++++++++---
 1 file changed, 65 insertions(+), 10 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 3792571..77ccd75 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -575,6 +575,62 @@ class EnvironmentMesh:
                         self.neighbour_graph.get_graph()[cellbox_s.get_id()]["-3"].append(neighbour)
 
 
+    @staticmethod
+    def is_same_longitude(long_a, long_b):
+        """
+            returns whether two longitudes describe the same meridian, as -180 and 180 do
+
+            Args:
+                long_a (float): the first longitude
+                long_b (float): the second longitude
+            Returns:
+                bool: True if the longitudes are the same meridian
+        """
+        return long_a == long_b or abs(long_a - long_b) == 360
+
+    @staticmethod
+    def is_within_longitudes(cb_bounds, bounds):
+        """
+            returns whether the longitudes of a cellbox lie within those of the given bounds,
+            either of which may cross the antimeridian
+
+            Args:
+                cb_bounds (Boundary): the bounds of the cellbox
+                bounds (Boundary): the bounds the cellbox is compared to
+            Returns:
+                bool: True if the cellbox is completely within the longitudes of the bounds
+        """
+        west_inside = cb_bounds.get_long_min() >= bounds.get_long_min()
+        east_inside = cb_bounds.get_long_max() <= bounds.get_long_max()
+
+        cb_crosses = cb_bounds.get_long_min() >= cb_bounds.get_long_max()
+        bounds_cross = bounds.get_long_min() >= bounds.get_long_max()
+
+        # A cellbox on one side of the antimeridian, which bounds extend over
+        if bounds_cross and not cb_crosses:
+            return west_inside or east_inside
+        # A cellbox over the antimeridian, where bounds end unless they're global
+        if cb_crosses and not bounds_cross:
+            return bounds.get_width() == 360
+        return west_inside and east_inside
+
+    @staticmethod
+    def is_touching_longitudes(cb_bounds, bounds):
+        """
+            returns whether the longitudes of a cellbox touch or overlap those of the given bounds,
+            either of which may cross the antimeridian
+
+            Args:
+                cb_bounds (Boundary): the bounds of the cellbox
+                bounds (Boundary): the bounds the cellbox is compared to
+            Returns:
+                bool: True if the cellbox touches or overlaps the longitudes of the bounds
+        """
+        long_min = NeighbourGraph.shift_over_antimeridian(bounds, cb_bounds)
+
+        return (long_min + cb_bounds.get_width() >= bounds.get_long_min() and
+                long_min <= bounds.get_long_min() + bounds.get_width())
+
     def get_cellboxes_within_bounds(self, bounds):
         """
             returns the cellboxes within the given bounds. 
@@ -590,8 +646,7 @@ class EnvironmentMesh:
         for cellbox in self.agg_cellboxes:
             cb_bounds = cellbox.get_bounds()
 
-            if (cb_bounds.get_long_min() >= bounds.get_long_min() and 
-                cb_bounds.get_long_max() <= bounds.get_long_max() and 
+            if (self.is_within_longitudes(cb_bounds, bounds) and 
                 cb_bounds.get_lat_min() >= bounds.get_lat_min() and 
                 cb_bounds.get_lat_max() <= bounds.get_lat_max()):
             
@@ -616,8 +671,7 @@ class EnvironmentMesh:
 
         for cellbox in self.agg_cellboxes:
             if (cellbox.get_bounds().get_lat_min() == bounds.get_lat_max() and
-                cellbox.get_bounds().get_long_max() >= bounds.get_long_min() and
-                cellbox.get_bounds().get_long_min() <= bounds.get_long_max()):
+                self.is_touching_longitudes(cellbox.get_bounds(), bounds)):
             
                 north_cellboxes.append(cellbox)
             
@@ -629,8 +683,7 @@ class EnvironmentMesh:
 
         for cellbox in self.agg_cellboxes:
             if (cellbox.get_bounds().get_lat_max() == bounds.get_lat_min() and
-                cellbox.get_bounds().get_long_max() >= bounds.get_long_min() and
-                cellbox.get_bounds().get_long_min() <= bounds.get_long_max()):
+                self.is_touching_longitudes(cellbox.get_bounds(), bounds)):
             
                 south_cellboxes.append(cellbox)
             
@@ -641,7 +694,8 @@ class EnvironmentMesh:
         east_cellboxes = []
 
         for cellbox in self.agg_cellboxes:
-            if (cellbox.get_bounds().get_long_min() == bounds.get_long_max() and
+            if (self.is_same_longitude(cellbox.get_bounds().get_long_min(), bounds.get_long_max()) and
+                not self.is_within_longitudes(cellbox.get_bounds(), bounds) and
                 cellbox.get_bounds().get_lat_min() >= bounds.get_lat_min() and
                 cellbox.get_bounds().get_lat_max() <= bounds.get_lat_max()):
             
@@ -654,7 +708,8 @@ class EnvironmentMesh:
             west_cellboxes = []
     
             for cellbox in self.agg_cellboxes:
-                if (cellbox.get_bounds().get_long_max() == bounds.get_long_min() and
+                if (self.is_same_longitude(cellbox.get_bounds().get_long_max(), bounds.get_long_min()) and
+                    not self.is_within_longitudes(cellbox.get_bounds(), bounds) and
                     cellbox.get_bounds().get_lat_min() >= bounds.get_lat_min() and
                     cellbox.get_bounds().get_lat_max() <= bounds.get_lat_max()):
                 
@@ -697,7 +752,7 @@ class EnvironmentMesh:
         for cellbox in self.agg_cellboxes:
             cb_bounds = cellbox.get_bounds()
 
-            if cb_bounds.get_long_max() == mesh_bounds.get_long_max():
+            if self.is_same_longitude(cb_bounds.get_long_max(), mesh_bounds.get_long_max()):
                 right_cellboxes.append(cellbox)
 
         return right_cellboxes
@@ -710,7 +765,7 @@ class EnvironmentMesh:
         for cellbox in self.agg_cellboxes:
             cb_bounds = cellbox.get_bounds()
 
-            if cb_bounds.get_long_min() == mesh_bounds.get_long_min():
+            if self.is_same_longitude(cb_bounds.get_long_min(), mesh_bounds.get_long_min()):
                 left_cellboxes.append(cellbox)
 
         return left_cellboxes
-- 
2.43.0


From 4552cfa0568e50123a59488f9a281105b44dd093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:12 +0000
Subject: [PATCH 27/76] fix: validate mesh configs given as a file path

---
 meshiphi/config_validation/config_validator.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index a3acae9..3931214 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -109,16 +109,16 @@ def validate_mesh_config(config):
     jsonschema.validate(instance=config_json, schema=mesh_schema)
     
     # Check that the dates in the region are valid
-    assert_valid_time(config['region']['start_time'])
-    assert_valid_time(config['region']['end_time'])
+    assert_valid_time(config_json['region']['start_time'])
+    assert_valid_time(config_json['region']['end_time'])
     
     # Check that cellbox width and height evenly divide boundary
-    assert_valid_cellsize(config['region']['lat_min'],
-                          config['region']['lat_max'],
-                          config['region']['cell_height'])
-    assert_valid_cellsize(config['region']['long_min'],
-                          config['region']['long_max'],
-                          config['region']['cell_width'])
+    assert_valid_cellsize(config_json['region']['lat_min'],
+                          config_json['region']['lat_max'],
+                          config_json['region']['cell_height'])
+    assert_valid_cellsize(config_json['region']['long_min'],
+                          config_json['region']['long_max'],
+                          config_json['region']['cell_width'])
     
 def validate_vessel_config(config):
     """
-- 
2.43.0


From 9918bc49a383375a5fcc2ce4b73ff54a0f90cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:12 +0000
Subject: [PATCH 28/76] fix: refuse malformed relative dates in mesh configs

---
 meshiphi/config_validation/config_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index 3931214..c3e839b 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -66,7 +66,7 @@ def validate_mesh_config(config):
         """
         correctly_formatted = False
         # If relative time is parsed
-        if re.match(r'TODAY[+,-]\d+', time_str.replace(' ','')):
+        if re.fullmatch(r'TODAY[+-]\d+(\.\d+)?', time_str.replace(' ','')):
             correctly_formatted = True
         elif time_str == 'TODAY':
             correctly_formatted = True
-- 
2.43.0


From 24fd286eac3d6b163ec6e1c7efa98978ed6a8860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:12 +0000
Subject: [PATCH 29/76] fix: refuse boundaries starting east of 180 or ending
 west of -180

---
 meshiphi/mesh_generation/boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 5d24641..7cea517 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -192,7 +192,7 @@ class Boundary:
             raise ValueError('Boundary: range should contain two values')
         if lat_range[0] > lat_range [1]:
              raise ValueError(f'Boundary: Latitude start range {lat_range[0]} should be smaller than range end {lat_range[1]}')
-        if long_range[0] < -180 or long_range[1] > 180:
+        if min(long_range) < -180 or max(long_range) > 180:
             raise ValueError('Boundary: Longtitude range should be within -180:180')
         if time_range != []:
             if len(time_range) == 2:
-- 
2.43.0


From 466efa62a92827c9b8876f11dbf1c666badc7dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:12 +0000
Subject: [PATCH 30/76] fix: compare the time ranges of boundaries

---
 meshiphi/mesh_generation/boundary.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 7cea517..6f02633 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -456,23 +456,10 @@ class Boundary:
         boundary_checks += [(self.get_long_min() == other.get_long_min())]
         boundary_checks += [(self.get_long_max() == other.get_long_max())]
 
-        # Check if obects have the attributes to be tested
-        has_start_time = ([hasattr(self, 'start_time'), hasattr(other, 'start_time')])
-        has_end_time   = ([hasattr(self, 'end_time'),   hasattr(other, 'end_time')])
-
-        # If they both have the attribute, check that they are equal
-        if all(has_start_time):
-            boundary_checks += [(self.get_start_time() == other.get_start_time())]
-        # If only one has the attribute, they aren't equal
-        elif any(has_start_time):
-            boundary_checks += [False]
-        # Otherwise, we don't need to append to the check list
-
-        # Same logic, just with other temporal boundary
-        if all(has_end_time):
-            boundary_checks += [(self.get_end_time() == other.get_end_time())]
-        elif any(has_end_time):
-            boundary_checks += [False]
-        
+        # If they both have a temporal boundary, check that they are equal
+        if self.get_time_range() and other.get_time_range():
+            boundary_checks += [(self.get_time_min() == other.get_time_min())]
+            boundary_checks += [(self.get_time_max() == other.get_time_max())]
+
         # See if every check has passed
         return all(boundary_checks)
\ No newline at end of file
-- 
2.43.0


From 7d5e89fa6c8f29058b423f70e32236d0b9725108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:46 +0000
Subject: [PATCH 31/76] fix: sample the mesh at the pixel centres of non-square
 rasters

---
 meshiphi/mesh_generation/environment_mesh.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 77ccd75..b4a84f6 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1291,14 +1291,15 @@ class EnvironmentMesh:
             """
             mesh_height = self.bounds.get_lat_max() - self.bounds.get_lat_min()
             mesh_width = self.bounds.get_long_max() - self.bounds.get_long_min()
-            pixel_height = mesh_height / ncols
-            pixel_width = mesh_width / nlines
+            pixel_height = mesh_height / nlines
+            pixel_width = mesh_width / ncols
             samples = []
             # has to move in this direction as we start rendering from the upper left pixel
-            for lat in np.arange(self.bounds.get_lat_max(), self.bounds.get_lat_min(), -1*pixel_height):
-                for long in np.arange(self.bounds.get_long_min(), self.bounds.get_long_max(), pixel_width):
-                    pixel_lat = lat - 0.5 * pixel_height   # centeralize the pixel lat value
-                    pixel_long = long + 0.5*pixel_width   # centeralize the pixel long value
+            for line in range(nlines):
+                for col in range(ncols):
+                    # centeralize the pixel lat and long values
+                    pixel_lat = self.bounds.get_lat_max() - (line + 0.5) * pixel_height
+                    pixel_long = self.bounds.get_long_min() + (col + 0.5) * pixel_width
                     samples = np.append(samples, pixel_lat)
                     samples = np.append(samples, pixel_long)
             # shape the samples in 2d array (each entry in the array holds sample lat and long
-- 
2.43.0


From 52f696cced42a151bd344458952691b5ffb76b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:02 +0000
Subject: [PATCH 32/76] fix: rasters of meshes crossing the antimeridian

---
 meshiphi/mesh_generation/environment_mesh.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index b4a84f6..f31654f 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -16,6 +16,7 @@ from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
 
 
 from meshiphi.mesh_validation.sampler import Sampler
+from meshiphi.utils import longitude_domain
 import collections.abc
 import copy
 import math
@@ -1290,7 +1291,7 @@ class EnvironmentMesh:
 
             """
             mesh_height = self.bounds.get_lat_max() - self.bounds.get_lat_min()
-            mesh_width = self.bounds.get_long_max() - self.bounds.get_long_min()
+            mesh_width = self.bounds.get_width()
             pixel_height = mesh_height / nlines
             pixel_width = mesh_width / ncols
             samples = []
@@ -1299,7 +1300,7 @@ class EnvironmentMesh:
                 for col in range(ncols):
                     # centeralize the pixel lat and long values
                     pixel_lat = self.bounds.get_lat_max() - (line + 0.5) * pixel_height
-                    pixel_long = self.bounds.get_long_min() + (col + 0.5) * pixel_width
+                    pixel_long = longitude_domain(self.bounds.get_long_min() + (col + 0.5) * pixel_width)
                     samples = np.append(samples, pixel_lat)
                     samples = np.append(samples, pixel_long)
             # shape the samples in 2d array (each entry in the array holds sample lat and long
@@ -1452,7 +1453,7 @@ class EnvironmentMesh:
 
         # define image extent based on mesh bounds
         extent = [self.bounds.get_long_min(), self.bounds.get_lat_min(
-        ), self.bounds.get_long_max(), self.bounds.get_lat_max()]
+        ), self.bounds.get_long_min() + self.bounds.get_width(), self.bounds.get_lat_max()]
 
         logging.info("Generating the tif image ...")
         samples = generate_samples()
-- 
2.43.0


From dd3a8c1acf4fc39d9d0c97dae23b73f6fbeab4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:02 +0000
Subject: [PATCH 33/76] fix: export rasters of layers without any value

---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index f31654f..8a68026 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1411,8 +1411,8 @@ class EnvironmentMesh:
             """
             fp, color_file = tempfile.mkstemp(suffix='.txt')
             data = data[~np.isnan(data)]  # get rid of the nans before calculating range
-            _max = np.nanmax(data)
-            _min = np.nanmin(data)
+            _max = np.nanmax(data) if data.size > 0 else 0
+            _min = np.nanmin(data) if data.size > 0 else 0
             _range = _max-_min
             inf_color = '255 0 0' # red color for inf value
             colors = ['255 255 255', '173 216 230', '0 0 128', '0 0 139']  # default color
-- 
2.43.0


From 911631e632fa8626b6d9c96fbf5cd37531d1498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:41 +0000
Subject: [PATCH 34/76] fix: export rasters of layers with infinite values

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 8a68026..80adfc5 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1410,7 +1410,7 @@ class EnvironmentMesh:
 
             """
             fp, color_file = tempfile.mkstemp(suffix='.txt')
-            data = data[~np.isnan(data)]  # get rid of the nans before calculating range
+            data = data[np.isfinite(data)]  # get rid of the nans and infs before calculating range
             _max = np.nanmax(data) if data.size > 0 else 0
             _min = np.nanmin(data) if data.size > 0 else 0
             _range = _max-_min
-- 
2.43.0


From d20f34367f3b6c43b3eb83c99d93f6511f448f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:41 +0000
Subject: [PATCH 35/76] fix: pixels centred on a cellbox edge are not missing

---
 meshiphi/mesh_generation/environment_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 80adfc5..f1df6c3 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -3,6 +3,7 @@ import logging
 import geopandas as gpd
 import pandas as pd
 from shapely import wkt
+from shapely.geometry import Point
 import numpy as np
 import subprocess
 import sys
@@ -1321,7 +1322,8 @@ class EnvironmentMesh:
             long = sample[1]
             value = np.nan
             for agg_cellbox in self.agg_cellboxes:
-                if agg_cellbox.contains_point(lat, long):
+                # samples on the bounds of a cellbox count as being within it
+                if agg_cellbox.get_bounds().to_polygon().intersects(Point(long, lat)):
                     # get the agg_value
                     try:
                         value = agg_cellbox.agg_data[data_name]
-- 
2.43.0


From bea5bc6c0caf76cbc135e23123846bb0f47b37e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:02 +0000
Subject: [PATCH 36/76] fix: report one row per cell whose neighbours differ

---
 meshiphi/mesh_validation/mesh_comparator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_validation/mesh_comparator.py b/meshiphi/mesh_validation/mesh_comparator.py
index ded8c09..b1aa375 100644
--- a/meshiphi/mesh_validation/mesh_comparator.py
+++ b/meshiphi/mesh_validation/mesh_comparator.py
@@ -214,7 +214,7 @@ class MeshComparator:
                     mismatched_rows += [cellbox_row]
         # If there were mismatched rows
         if mismatched_rows:
-            mismatched_df = pd.concat(mismatched_rows, axis=1)
+            mismatched_df = pd.concat(mismatched_rows, axis=0)
             mismatched_df.index.name = 'geometry'
         # Otherise, create an empty dataframe
         else:
-- 
2.43.0


From cda88dd187ecff472a8de9148d06da99bef16fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:02 +0000
Subject: [PATCH 37/76] fix: ignore the order of attributes when comparing
 cellboxes

---
 meshiphi/mesh_validation/mesh_comparator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_validation/mesh_comparator.py b/meshiphi/mesh_validation/mesh_comparator.py
index b1aa375..01b8cf1 100644
--- a/meshiphi/mesh_validation/mesh_comparator.py
+++ b/meshiphi/mesh_validation/mesh_comparator.py
@@ -163,7 +163,7 @@ class MeshComparator:
                 cb2_series = cellboxes2[cb1_geom]
 
             # If attributes not the same between the two cellboxes with similar boundary 
-            if not cb1_series.index.equals(cb2_series.index):
+            if set(cb1_series.index) != set(cb2_series.index):
                 mismatched_rows += [cb2_series]
                 
         # If there were mismatched rows
-- 
2.43.0


From ec533a2b15d035282e102da47028e13867b18e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:02 +0000
Subject: [PATCH 38/76] fix: return no ids when two meshes do not differ

---
 meshiphi/mesh_validation/mesh_comparator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshiphi/mesh_validation/mesh_comparator.py b/meshiphi/mesh_validation/mesh_comparator.py
index 01b8cf1..e84b11c 100644
--- a/meshiphi/mesh_validation/mesh_comparator.py
+++ b/meshiphi/mesh_validation/mesh_comparator.py
@@ -28,6 +28,9 @@ class MeshComparator:
         if return_type in ['cellboxes', 'cb']:
             return df['cellboxes']
         elif return_type in ['id']:
+            # Nothing to look up if there were no differences
+            if df.empty:
+                return pd.Series(name='id', dtype=object)
             return df['id']
         elif return_type in ['dataframe', 'df']:
             return df
-- 
2.43.0


From 136467ed0dbb1f0e44015d7ce598df4ddc0ef3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:24 +0000
Subject: [PATCH 39/76] fix: aggregate downsampled blocks as a whole

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 9 +++------
 meshiphi/dataloaders/vector/abstract_vector.py | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 6492f87..06fe24b 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -767,16 +767,13 @@ class ScalarDataLoader(DataLoaderInterface):
                 data = data.coarsen(long=ds[0],boundary='pad').max()
             elif agg_type == 'MEAN':
                 # Returns mean of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').mean()
-                data = data.coarsen(long=ds[0],boundary='pad').mean()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').mean()
             elif agg_type == 'MEDIAN':
                 # Returns median of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').median()
-                data = data.coarsen(long=ds[0],boundary='pad').median()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').median()
             elif agg_type == 'STD':
                 # Returns std_dev of range
-                data = data.coarsen(lat=ds[1],boundary='pad').std()
-                data = data.coarsen(long=ds[0],boundary='pad').std()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').std()
             elif agg_type =='COUNT': 
                 # Returns every first element in bin
                 data = data.thin(lat=ds[1])
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 024748b..92fe428 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -773,16 +773,13 @@ class VectorDataLoader(DataLoaderInterface):
                 data = data.coarsen(long=ds[0],boundary='pad').max()
             elif agg_type == 'MEAN':
                 # Returns mean of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').mean()
-                data = data.coarsen(long=ds[0],boundary='pad').mean()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').mean()
             elif agg_type == 'MEDIAN':
                 # Returns median of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').median()
-                data = data.coarsen(long=ds[0],boundary='pad').median()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').median()
             elif agg_type == 'STD':
                 # Returns std_dev of range
-                data = data.coarsen(lat=ds[1],boundary='pad').std()
-                data = data.coarsen(long=ds[0],boundary='pad').std()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').std()
             elif agg_type =='COUNT': 
                 # Returns every first element in bin
                 data = data.thin(lat=ds[1])
-- 
2.43.0


From cc6b1502dea5707974fdd1943147f693e94c3b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:41 +0000
Subject: [PATCH 40/76] fix: accept aligned meshes across the antimeridian when
 merging

---
 meshiphi/mesh_generation/environment_mesh.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index f1df6c3..c91eaee 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -296,9 +296,14 @@ class EnvironmentMesh:
         if lat_diff % l_cell_height != 0:
             return False
 
-        long_diff = l_bounds.get_long_min() - s_bounds.get_long_min()
-        if long_diff % l_cell_width != 0:
-            return False 
+        # measured eastwards, as mesh2 may lie across the antimeridian
+        long_diff = (s_bounds.get_long_min() - l_bounds.get_long_min()) % 360
+        aligned = long_diff % l_cell_width == 0
+        # mesh2 may also start west of this mesh
+        if long_diff >= l_bounds.get_width():
+            aligned = aligned or (360 - long_diff) % l_cell_width == 0
+        if not aligned:
+            return False
 
 
         return True
-- 
2.43.0


From d8768d042f11d89f40831dc36b09b482c7ed4c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:46 +0000
Subject: [PATCH 41/76] fix: log the memory traced around a call

---
 meshiphi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index 5ddb0d6..f0c63d8 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -245,7 +245,7 @@ def memory_trace(func):
         top_stats = snapshot.statistics('traceback')
 
         stat = top_stats[0]
-        logging.info("{} memory blocks: {.1f} KiB".
+        logging.info("{} memory blocks: {:.1f} KiB".
                      format(stat.count, stat.size / 1024))
         logging.info("\n".join(stat.traceback.format()))
         return res
-- 
2.43.0


From e52ceac32bd95bcc2ca8bddebb7f842841f66371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:46 +0000
Subject: [PATCH 42/76] fix: round whole numbers to significant figures

---
 meshiphi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index f0c63d8..4cbd709 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -138,7 +138,7 @@ def round_to_sigfig(x, sigfig=5):
     # np.array.astype(int) to enable np.around to work later
     dec_pl = sigfig - np.floor(np.log10(np.abs(x), 
                                         where = loggable_idxs,
-                                        out   = np.zeros_like(x))
+                                        out   = np.zeros_like(x, dtype=float))
                                ).astype(int) - 1
     # Round to sig figs
     rounded = np.array(
-- 
2.43.0


From f4f3530733f4d1d07460fdf885607f54ebc09be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:47 +0000
Subject: [PATCH 43/76] fix: carry rounded minutes and hours over

---
 meshiphi/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index 4cbd709..23a130b 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -84,12 +84,10 @@ def convert_decimal_days(decimal_days, mins=False):
     Returns:
         new_time (str): The time in the new format
     """
-    frac_d, days = np.modf(decimal_days)
-    hours = frac_d * 24.0
-
     if mins:
-        frac_h, hours = np.modf(hours)
-        minutes = round(frac_h * 60.0)
+        # Round before dividing up, so that 60 minutes carry over into an hour
+        hours, minutes = divmod(round(decimal_days * 24 * 60), 60)
+        days, hours = divmod(hours, 24)
         if days:
             new_time = f"{round(days)} days {round(hours)} hours {minutes} minutes"
         elif hours:
@@ -97,6 +95,8 @@ def convert_decimal_days(decimal_days, mins=False):
         else:
             new_time = f"{minutes} minutes"
     else:
+        # Round before dividing up, so that 24 hours carry over into a day
+        days, hours = divmod(round(decimal_days * 24.0, 2), 24)
         hours = round(hours, 2)
         if days:
             new_time = f"{round(days)} days {hours} hours"
-- 
2.43.0


From 5996a395fbd357d727e9dd80e2936f1ce9eb9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:50 +0000
Subject: [PATCH 44/76] fix: allow shapes centred on the equator or prime
 meridian

---
 meshiphi/dataloaders/scalar/shape.py        | 8 ++++----
 meshiphi/dataloaders/vector/vector_shape.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index 32cf6f8..e776501 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -112,8 +112,8 @@ class ShapeDataLoader(ScalarDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny/2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx/2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny/2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx/2)] if self.centre[1] is None else self.centre[1]
         
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(), 
@@ -251,8 +251,8 @@ class ShapeDataLoader(ScalarDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(),
diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index 2948677..7be80fd 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -161,8 +161,8 @@ class VectorShapeDataLoader(VectorDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
@@ -217,8 +217,8 @@ class VectorShapeDataLoader(VectorDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
-- 
2.43.0


From 6c99ee58752d9d8d152ae8e6f8108598a07004e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:50 +0000
Subject: [PATCH 45/76] fix: default parameters of rectangles and vector shapes

---
 meshiphi/dataloaders/scalar/shape.py        |  2 +-
 meshiphi/dataloaders/vector/vector_shape.py | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index e776501..88f07b0 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -47,7 +47,7 @@ class ShapeDataLoader(ScalarDataLoader):
             if 'width' not in params:
                 params['width'] = 1
             if 'height' not in params:
-                params['width'] = 1
+                params['height'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default gradient params
diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index 7be80fd..d09f762 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -32,26 +32,26 @@ class VectorShapeDataLoader(VectorDataLoader):
 
         # Scaling factor to multiply data points by
         if 'multiplier_u' not in params:
-            params['multiplier'] = 1
+            params['multiplier_u'] = 1
         if 'multiplier_v' not in params:
-            params['multiplier'] = 1
+            params['multiplier_v'] = 1
 
         # Define default circle parameters
-        if params['dataloader_name'] == 'circle':
+        if params['dataloader_name'] == 'vector_circle':
             if 'radius' not in params:
                 params['radius'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default rectangle parameters
-        elif params['dataloader_name'] == 'rectangle':
+        elif params['dataloader_name'] == 'vector_rectangle':
             if 'width' not in params:
                 params['width'] = 1
             if 'height' not in params:
-                params['width'] = 1
+                params['height'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default gradient params
-        elif params['dataloader_name'] == 'gradient':
+        elif params['dataloader_name'] == 'vector_gradient':
             if 'vertical' not in params:
                 params['vertical'] = True
 
-- 
2.43.0


From d31477a18e51eaca467cdbdcbf4531db03392375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:50 +0000
Subject: [PATCH 46/76] fix: name vector GRF components as configured

---
 meshiphi/dataloaders/vector/vector_grf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/vector_grf.py b/meshiphi/dataloaders/vector/vector_grf.py
index 68648af..e295c9d 100644
--- a/meshiphi/dataloaders/vector/vector_grf.py
+++ b/meshiphi/dataloaders/vector/vector_grf.py
@@ -34,7 +34,8 @@ class VectorGRFDataLoader(VectorDataLoader):
             params['alpha'] = 3
         # Column/variable names
         if params['data_name'] is None:
-            params['data_name'] = 'uC,vC'
+            params['data_name'] = ','.join([params.get('vec_x', 'uC'),
+                                            params.get('vec_y', 'vC')])
         if 'vec_x' not in params:
             params['vec_x'] = params['data_name'].split(',')[0]
         if 'vec_y' not in params:
-- 
2.43.0


From 1660b13727d74bd598a4940412c93ee5a0775f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:53 +0000
Subject: [PATCH 47/76] fix: count each source point in the one cellbox holding
 it when validating

---
 meshiphi/mesh_validation/full_mesh_validator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_validation/full_mesh_validator.py b/meshiphi/mesh_validation/full_mesh_validator.py
index bf65eef..4d56fb3 100644
--- a/meshiphi/mesh_validation/full_mesh_validator.py
+++ b/meshiphi/mesh_validation/full_mesh_validator.py
@@ -127,7 +127,12 @@ class FullMeshValidator:
         raw_slice: DataFrame containing slice of data
         """
 
-        raw_slice = self.source_data[self.source_data['lat'].between(bounds.lat_range[0], bounds.lat_range[1])]
-        raw_slice = raw_slice[raw_slice['long'].between(bounds.long_range[0], bounds.long_range[1])]
-    
+        # Points on an edge shared by cellboxes belong to the one west/south of it
+        raw_slice = self.source_data[self.source_data['lat'].between(bounds.lat_range[0], bounds.lat_range[1], inclusive='right')]
+        if bounds.long_range[0] < bounds.long_range[1]:
+            raw_slice = raw_slice[raw_slice['long'].between(bounds.long_range[0], bounds.long_range[1], inclusive='right')]
+        else:
+            # Cellbox crosses the antimeridian
+            raw_slice = raw_slice[(raw_slice['long'] > bounds.long_range[0]) | (raw_slice['long'] <= bounds.long_range[1])]
+
         return raw_slice
-- 
2.43.0


From c04b6c815b0b955c8ac29190f639d69afa3242d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:53 +0000
Subject: [PATCH 48/76] fix: validate meshes whose first cellbox was split

---
 meshiphi/mesh_validation/mesh_validator.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index 039fdc6..0925d05 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -85,7 +85,7 @@ class MeshValidator:
         lat_range = [sample[0] , lat_end]
         long_range = [sample[1] , long_end ]
         time_range = self.mesh.get_bounds().get_time_range()
-        for source in self.mesh.cellboxes[0].get_data_source():
+        for source in self.get_data_sources():
             data_loader = source.get_data_loader() 
             data_name = data_loader.get_data_col_name()
             dp = data_loader.trim_datapoints( Boundary (lat_range , long_range , time_range))
@@ -93,6 +93,14 @@ class MeshValidator:
         logging.info("values from data are: {}".format(' '.join(map(str, values))))
         return values
 
+    def get_data_sources(self):
+        """
+            gets the data sources of the mesh
+            Returns:
+                list<Metadata>: data sources of the first cellbox that was not split
+        """
+        return next(cb for cb in self.mesh.cellboxes if cb is not None).get_data_source()
+
     def get_range_end(self, sample):
         """
             calculates the range end of the provided sample lat and long, claculation is based on the specified validation_length
@@ -129,7 +137,7 @@ class MeshValidator:
             time_range = self.mesh.get_bounds().get_time_range()
 
         
-            for source in self.mesh.cellboxes[0].get_data_source():
+            for source in self.get_data_sources():
                 data_loader = source.get_data_loader()
                 dp = data_loader.trim_datapoints( Boundary (lat_range , long_range , time_range))
                 
-- 
2.43.0


From 475cbec006a76c65a418f64553ca8bc8e3088576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:53 +0000
Subject: [PATCH 49/76] fix: validate datapoints on the bounds of cellboxes

---
 meshiphi/mesh_validation/mesh_validator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index 0925d05..b287f23 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -11,6 +11,7 @@ import math
 import logging
 from meshiphi.mesh_generation.boundary import Boundary
 from sklearn.metrics import mean_squared_error
+from shapely.geometry import Point
 import xarray as xr
 class MeshValidator:
 
@@ -147,7 +148,8 @@ class MeshValidator:
                     lat = point ['lat']
                     long = point ['long']
                     for agg_cellbox in self.env_mesh.agg_cellboxes:
-                        if agg_cellbox.contains_point(lat , long):
+                        # points on the bounds are part of the data too
+                        if agg_cellbox.get_bounds().to_polygon().covers(Point(long , lat)):
                             values = np.append ( values , agg_cellbox.agg_data [data_loader.data_name] )#get the agg_value 
                             break  # break to make sure we avoid getting multiple values (for lat and long on bounds of multiple cellboxes)
             logging.info("values from mesh are: {}".format(' '.join(map(str, values))))
-- 
2.43.0


From 094e7fc2a4607a178a3d873998b20ec69ce3665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:06 +0000
Subject: [PATCH 50/76] fix: keep an existing file when exporting to GeoJSON
 fails

---
 meshiphi/mesh_generation/environment_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index c91eaee..3011997 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1556,8 +1556,9 @@ class EnvironmentMesh:
                 json.dump(self.to_json(), path, indent=4)
            
         elif format.upper() == "GEOJSON":
+            geojson = self.to_geojson(format_params)
             with open(path, 'w') as path:
-                json.dump(self.to_geojson(format_params), path, indent=4)
+                json.dump(geojson, path, indent=4)
 
         elif format.upper() == "PNG":
             self.to_png(format_params, path)
-- 
2.43.0


From 6d4ae47fc947d262d6bf90dad01f390de25a9ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:52 +0000
Subject: [PATCH 51/76] fix: export rasters to paths containing spaces

---
 meshiphi/mesh_generation/environment_mesh.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 3011997..dd31619 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1434,9 +1434,8 @@ class EnvironmentMesh:
             os.close(fp)
             if "colour_conf" in params.keys():
                 color_file = params["colour_conf"]
-            cmd = "gdaldem color-relief " + input_file \
-                + ' ' + color_file + ' ' + input_file
-            subprocess.check_call(cmd, shell=True)
+            cmd = ["gdaldem", "color-relief", str(input_file), str(color_file), str(input_file)]
+            subprocess.check_call(cmd)
             # remove additional files created while generating the tif
             file_path = os.path.abspath(input_file)
             dir_path = os.path.split(file_path)[0]
-- 
2.43.0


From 0b26c810a72b35d12bce03899e12b0a26eef543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:48 +0000
Subject: [PATCH 52/76] fix: take the dimension order of vector magnitudes from
 the components, not from the dataset

---
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 92fe428..eb51750 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -212,10 +212,10 @@ class VectorDataLoader(DataLoaderInterface):
                 Same as parent method
             '''
             x, y = names
-            data['_magnitude'] = (data.dims, 
+            data['_magnitude'] = (data[x].dims, 
                                   np.linalg.norm([data[x].data, data[y].data], 
                                                  axis=0))
-            data['_direction'] = (data.dims, 
+            data['_direction'] = (data[x].dims, 
                                   np.arctan2(data[y].data, data[x].data))
             return data
         
-- 
2.43.0


From 20adbce46389de669bc9a41586cb3e79cf2f7b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:43 +0000
Subject: [PATCH 53/76] fix: let the MODIS dataloader name its files and load
 only the ice concentration

---
 meshiphi/dataloaders/scalar/modis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/modis.py b/meshiphi/dataloaders/scalar/modis.py
index 4f0fe82..48bd90e 100644
--- a/meshiphi/dataloaders/scalar/modis.py
+++ b/meshiphi/dataloaders/scalar/modis.py
@@ -18,7 +18,7 @@ class MODISDataLoader(ScalarDataLoader):
                 MODIS dataset within limits of bounds. 
                 Dataset has coordinates 'lat', 'long', and variable 'SIC'
         '''
-        logging.info(f"- Opening file {self.file}")
+        logging.info(f"- Opening files {self.files}")
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
         else:                       data = xr.open_mfdataset(self.files)
@@ -27,6 +27,8 @@ class MODISDataLoader(ScalarDataLoader):
 
         # Set areas obscured by cloud to NaN values
         data = data.where(data.cloud != 1, drop=True)
+        # Limit to just SIC, dropping the cloud mask
+        data = data['SIC'].to_dataset()
         # Trim to initial datapoints
         data = self.trim_datapoints(bounds, data=data)
         
-- 
2.43.0


From cd4304af51dc5a23b320b7fbbe9e22c36a6d7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:43 +0000
Subject: [PATCH 54/76] fix: put ECMWF wave forecasts in time order so that
 they can be selected by date

---
 meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
index 4e3d895..a528393 100644
--- a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
+++ b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
@@ -83,6 +83,8 @@ class ECMWFSigWaveHeightDataLoader(ScalarDataLoader):
                          f'[ {bounds.get_time_min()} : {bounds.get_time_max()} ]')
             raise FileNotFoundError('No ECMWF Wave files found within specified time range!')
         data = xr.concat(data_array,'time')
+        # Files are in reverse order, so sort 'time' axis so that sel() will work
+        data = data.sortby('time')
         
         # Extract just SWH
         data = data['swh'].to_dataset()
-- 
2.43.0


From dd64744c59adb4c9bfeb8b7587fd6b076abe4cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:03 +0000
Subject: [PATCH 55/76] fix: compute the MODIS cloud mask so that several files
 can be read

---
 meshiphi/dataloaders/scalar/modis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/modis.py b/meshiphi/dataloaders/scalar/modis.py
index 48bd90e..188441a 100644
--- a/meshiphi/dataloaders/scalar/modis.py
+++ b/meshiphi/dataloaders/scalar/modis.py
@@ -26,7 +26,7 @@ class MODISDataLoader(ScalarDataLoader):
         data = data.rename({'iceArea': 'SIC'})
 
         # Set areas obscured by cloud to NaN values
-        data = data.where(data.cloud != 1, drop=True)
+        data = data.where(data.cloud.compute() != 1, drop=True)
         # Limit to just SIC, dropping the cloud mask
         data = data['SIC'].to_dataset()
         # Trim to initial datapoints
-- 
2.43.0


From 961075d4d08227bee6f60616210966e28e34f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:03 +0000
Subject: [PATCH 56/76] fix: read IceNet dates from the file name alone, not
 from dots in its folder

---
 meshiphi/dataloaders/scalar/icenet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/icenet.py b/meshiphi/dataloaders/scalar/icenet.py
index 596f639..7cf224f 100644
--- a/meshiphi/dataloaders/scalar/icenet.py
+++ b/meshiphi/dataloaders/scalar/icenet.py
@@ -3,6 +3,7 @@ from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
 import logging
 
 from datetime import datetime, timedelta
+from os.path import basename
 
 import xarray as xr
 from pandas import to_timedelta
@@ -30,7 +31,7 @@ class IceNetDataLoader(ScalarDataLoader):
             Assumes file names are in the format 
             <hemisphere>_daily_forecast.<YYYY-MM-DD>.nc
             '''
-            return datetime.strptime(filename.split('.')[1], '%Y-%m-%d')
+            return datetime.strptime(basename(filename).split('.')[1], '%Y-%m-%d')
         
         # Convert temporal boundary to datetime objects for comparison
         max_time = datetime.strptime(bounds.get_time_max(), '%Y-%m-%d')
-- 
2.43.0


From a91e0b62dcfacf41b970a28897ae58aedddeae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:25 +0000
Subject: [PATCH 57/76] fix: load vector data read from several files before
 aggregating it

---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index eb51750..de9c80e 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -470,6 +470,8 @@ class VectorDataLoader(DataLoaderInterface):
                 dict:
                     {variable_name: np.float64}: Aggregated value in a dictionary
             '''
+            # Data from multiple files is read lazily, so load values first
+            dps = dps.compute()
             # Info on size of array
             data_count = dps._magnitude.size 
             logging.debug(f"\t{data_count} datapoints found for attribute '{self.data_name}' within bounds '{bounds}'")
-- 
2.43.0


From f9894ea476edddb1c936d83c90ff12a4dfe0b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:25 +0000
Subject: [PATCH 58/76] fix: give polygons read without a data_name their
 documented default name

---
 meshiphi/dataloaders/lut/lut_geojson.py   | 2 +-
 meshiphi/dataloaders/lut/lut_shapefile.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/lut/lut_geojson.py b/meshiphi/dataloaders/lut/lut_geojson.py
index 548fe81..3f61d60 100644
--- a/meshiphi/dataloaders/lut/lut_geojson.py
+++ b/meshiphi/dataloaders/lut/lut_geojson.py
@@ -28,7 +28,7 @@ class LutGeoJSON(LutDataLoader):
         params = super().add_default_params(params)
         
         # Name of data being read in from GeoJSONs
-        if 'data_name' not in params:
+        if params['data_name'] is None:
             params['data_name'] = 'dummy_data'
             
         return params
diff --git a/meshiphi/dataloaders/lut/lut_shapefile.py b/meshiphi/dataloaders/lut/lut_shapefile.py
index 852e5b2..a27ebd1 100644
--- a/meshiphi/dataloaders/lut/lut_shapefile.py
+++ b/meshiphi/dataloaders/lut/lut_shapefile.py
@@ -28,7 +28,7 @@ class LutShapefile(LutDataLoader):
         params = super().add_default_params(params)
         
         # Name of data being read in from GeoJSONs
-        if 'data_name' not in params:
+        if params['data_name'] is None:
             params['data_name'] = 'dummy_data'
             
         return params
-- 
2.43.0


From 02426d753e9df60e99bb12202b32f8e216b18d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:02 +0000
Subject: [PATCH 59/76] fix: keep a data_name given for polygons read from CSV

---
 meshiphi/dataloaders/lut/lut_csv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/lut/lut_csv.py b/meshiphi/dataloaders/lut/lut_csv.py
index abef752..6a5035a 100644
--- a/meshiphi/dataloaders/lut/lut_csv.py
+++ b/meshiphi/dataloaders/lut/lut_csv.py
@@ -36,8 +36,9 @@ class LutCSV(LutDataLoader):
         assert (len(csv_df.columns) == 2), \
                 "Dataloader only accepts .csv with 2 columns, 'geometry' and {{data_name}}"
         
-        # Set data name to column in CSV
-        self.data_name = list(set(csv_df.columns.values) - set(['geometry']))[0]
+        # Set data name to column in CSV, unless set in params
+        if self.data_name is None:
+            self.data_name = list(set(csv_df.columns.values) - set(['geometry']))[0]
         # Convert strings to shapely geometries
         csv_df['geometry'] = csv_df['geometry'].apply(wkt.loads)
         # Create boundary denoting the world 
-- 
2.43.0


From 911b840c68dadcc34b25f296b99fd627f0769876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:36 +0000
Subject: [PATCH 60/76] fix: let add_dataloader() give new data to every
 cellbox and return the builder

---
 meshiphi/mesh_generation/mesh_builder.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index cb9a588..431e2b3 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -306,18 +306,23 @@ class MeshBuilder:
                        'params': params}
         value_fill_type = self.check_value_fill_type(data_source)
         
-        meta_data_obj = Metadata(
-            dataloader, updated_splitting_cond,  value_fill_type)
-        
+        updated = set()
         for cellbox in self.mesh.cellboxes:
-            if isinstance(cellbox, CellBox):
+            # Parents of split cellboxes need the new data too, as they may be 
+            # used to fill cellboxes without any
+            while isinstance(cellbox, CellBox) and id(cellbox) not in updated:
+                updated.add(id(cellbox))
                 cellbox.set_minimum_datapoints(min_dp)
                 # Add new meta data to list of data sources per cellbox
+                meta_data_obj = Metadata(
+                    dataloader, updated_splitting_cond, value_fill_type,
+                    dataloader.trim_datapoints(cellbox.get_bounds()))
                 cellbox.set_data_source(
                     cellbox.get_data_source() + [meta_data_obj]
                 )
+                cellbox = cellbox.get_parent()
 
-        
+        return self
 
     def validate_bounds(self, bounds, cell_width, cell_height):
         # A region spanning all longitudes is 360 degrees wide, rather than 0
@@ -572,7 +577,8 @@ class MeshBuilder:
         logging.info ("Splitting cellboxes...")
         # loop over the data_sources then cellboxes to implement depth-first splitting. should be simpler and loop over cellboxes only once we switch to breadth-first splitting
         # this impl assumws all the cellboxes have the same data sources. should not be the caase once we switch to breadth-first splitting.
-        data_sources = self.mesh.cellboxes[0].get_data_source()
+        data_sources = next(cellbox for cellbox in self.mesh.cellboxes
+                            if isinstance(cellbox, CellBox)).get_data_source()
         
         # Set up data_source progress bar
         ds_pbar = tqdm(range(0, len(data_sources)), position=0, 
-- 
2.43.0


From ce03f6b6b7f492f6f7162738b8e8c7a375b07452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:57 +0000
Subject: [PATCH 61/76] fix: keep the neighbour graph of a built mesh apart
 from its builder's

---
 meshiphi/mesh_generation/mesh_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 431e2b3..b4aa538 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -16,6 +16,7 @@ Example:
 
 """
 
+import copy
 import logging
 import math
 import numpy as np
@@ -631,8 +632,9 @@ class MeshBuilder:
                 logging.debug(f'aggregating cellbox ({agg_cell_count}/{len(self.mesh.cellboxes)})')
                 agg_cellboxes.append(cellbox.aggregate())
 
+        # Copy neighbour graph so that building further doesn't modify this mesh
         env_mesh = EnvironmentMesh(self.mesh.get_bounds(
-        ), agg_cellboxes, self.neighbour_graph, self.get_config())
+        ), agg_cellboxes, copy.deepcopy(self.neighbour_graph), self.get_config())
 
         return env_mesh
 
-- 
2.43.0


From 264b9821471a63a43a5a512664744362d3e2a292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:59 +0000
Subject: [PATCH 62/76] fix: add_mag_dir fails when given the names of the
 components

---
 meshiphi/dataloaders/vector/abstract_vector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index de9c80e..d2352d5 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -221,13 +221,13 @@ class VectorDataLoader(DataLoaderInterface):
         
         # Set defaults if not passed to method
         if data is None:        data = self.data
-        if data_names is None:  names = self.data_name_list
+        if data_names is None:  data_names = self.data_name_list
         
         # Perform operation on appropriate datatype
         if type(data) == pd.core.frame.DataFrame:
-            return add_mag_dir_to_df(data, names)
+            return add_mag_dir_to_df(data, data_names)
         elif type(data) == xr.core.dataset.Dataset:
-            return add_mag_dir_to_xr(data, names)
+            return add_mag_dir_to_xr(data, data_names)
 
     def calculate_coverage(self, bounds, data=None):
         """
-- 
2.43.0


From de19a3d7aff1116e558ced5b75cdc0206662b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:59 +0000
Subject: [PATCH 63/76] fix: calc_dmag with agg_type MAX measures from the
 largest vector instead of the average

---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index d2352d5..d73f1fc 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1018,7 +1018,7 @@ class VectorDataLoader(DataLoaderInterface):
             
         data_names = self.data_name_list
         each_vector = np.stack([dps[name].to_numpy().ravel() for name in data_names], axis=-1)
-        ave_vector = list(self.get_value(bounds, agg_type=agg_type).values())
+        ave_vector = list(self.get_value(bounds, agg_type='MEAN').values())
         
         delta_vector = each_vector - ave_vector
         
-- 
2.43.0


From cbdbf4eea6c4def39ffeeb2dcdda1e05b6a25398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:12 +0000
Subject: [PATCH 64/76] fix: set_data_col_name_list always fails, since it
 passes on a string and counts the derived columns

---
 meshiphi/dataloaders/vector/abstract_vector.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index d73f1fc..6feb15d 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -835,7 +835,8 @@ class VectorDataLoader(DataLoaderInterface):
             columns = data.columns
             # Filter out lat, long, time columns leaves us with data column name
             filtered_cols = filter(lambda col: \
-                                    col not in ['lat','long','time'], columns)
+                                    col not in ['lat','long','time',
+                                                '_magnitude','_direction'], columns)
             data_names = list(filtered_cols)
             # Turn into comma seperated string and return
             return ','.join(data_names)
@@ -845,7 +846,8 @@ class VectorDataLoader(DataLoaderInterface):
             Extracts variable name directly from xr.Dataset metadata
             '''
             # Extract data variables from xr.Dataset
-            data_names = list(data.keys())
+            data_names = [name for name in data.keys()
+                          if name not in ['_magnitude','_direction']]
             # Turn into comma seperated string and return
             return ','.join(data_names)
         
@@ -924,12 +926,11 @@ class VectorDataLoader(DataLoaderInterface):
         assert len(new_names) == 2, f"'new_names' must have a length of 2! Instead it has length {len(new_names)}"
         str_items = [isinstance(name, str) for name in new_names]
         assert all(str_items), f"'new_names' must be list of 'str'. Currently {sum(str_items)} / 2 are strings!"
-        new_data_name = ','.join(new_names)
         
         # Set names
         logging.info(f'\tSetting data names to {new_names}')
         self.data_name_list = new_names
-        return self.set_data_col_name(new_data_name)
+        return self.set_data_col_name(new_names)
 
     def calc_curl(self, bounds, data=None, collapse=True, agg_type='MAX'):
         '''
-- 
2.43.0


From 2e18d508f52c132363811ca88432014b58753d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:21 +0000
Subject: [PATCH 65/76] fix: draw meshes whose region crosses the antimeridian

---
 meshiphi/mesh_plotting/mesh_plotter.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_plotting/mesh_plotter.py b/meshiphi/mesh_plotting/mesh_plotter.py
index 4635489..9c379d1 100644
--- a/meshiphi/mesh_plotting/mesh_plotter.py
+++ b/meshiphi/mesh_plotting/mesh_plotter.py
@@ -24,12 +24,21 @@ class MeshPlotter:
 
         self.figscale = figscale
         
-        self.aspect_ratio = (self.long_max - self.long_min) / (self.lat_max - self.lat_min)
+        # width of the region, and projection centred on it if it crosses the antimeridian
+        width = self.long_max - self.long_min
+        projection = ccrs.PlateCarree()
+        extent = [self.long_min, self.long_max, self.lat_min, self.lat_max]
+        if width <= 0:
+            width += 360
+            projection = ccrs.PlateCarree(central_longitude=self.long_min + width / 2)
+            extent = [-width / 2, width / 2, self.lat_min, self.lat_max]
+
+        self.aspect_ratio = width / (self.lat_max - self.lat_min)
 
         self.fig = plt.figure(figsize=(self.figscale * self.aspect_ratio, self.figscale))
 
-        self.plot = plt.axes(projection=ccrs.PlateCarree())
-        self.plot.set_extent([self.long_min, self.long_max, self.lat_min, self.lat_max])
+        self.plot = plt.axes(projection=projection)
+        self.plot.set_extent(extent, crs=projection)
 
 
     def plot_bool(self, value_name, colour):
-- 
2.43.0


From 719ecf7415571fc48fef56f9620c3654f3f32172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:21 +0000
Subject: [PATCH 66/76] fix: import rioxarray, whose .rio accessor fast
 reprojection uses

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 1 +
 meshiphi/dataloaders/vector/abstract_vector.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 06fe24b..05db5e0 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -8,6 +8,7 @@ import numpy as np
 import xarray as xr
 import pandas as pd
 from rasterio.enums import Resampling
+import rioxarray
 
 from meshiphi.mesh_generation.boundary import Boundary
 
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 6feb15d..1762c48 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -8,6 +8,7 @@ import numpy as np
 import xarray as xr
 import pandas as pd
 from rasterio.enums import Resampling
+import rioxarray
 
 from meshiphi.mesh_generation.boundary import Boundary
 
-- 
2.43.0


From b4aab10c808ee2be13bf76e1058d37c5c7361e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:21 +0000
Subject: [PATCH 67/76] fix: read look-up tables whose value column comes
 before the geometry

---
 meshiphi/dataloaders/lut/lut_csv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/lut_csv.py b/meshiphi/dataloaders/lut/lut_csv.py
index 6a5035a..ce966bf 100644
--- a/meshiphi/dataloaders/lut/lut_csv.py
+++ b/meshiphi/dataloaders/lut/lut_csv.py
@@ -47,7 +47,8 @@ class LutCSV(LutDataLoader):
         defined_polygon = unary_union(csv_df.geometry)
         undefined_polygon = world_polygon - defined_polygon
         # Set remainder to have value np.nan
-        csv_df.loc[len(csv_df.index)] = [undefined_polygon, np.nan]
+        csv_df.loc[len(csv_df.index)] = [undefined_polygon if col == 'geometry' else np.nan
+                                          for col in csv_df.columns]
         # Limit to boundary
         csv_df = self.trim_datapoints(bounds, data=csv_df)
 
-- 
2.43.0


From 144f6430c14c926b3ca7de8a598d198be3750c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:20 +0000
Subject: [PATCH 68/76] fix: keep a loaded mesh apart from the document it was
 loaded from

load_from_json() kept the neighbour lists and configuration of the document in
the mesh, so that splitting or merging the mesh changed the document, and every
other mesh loaded from it.
---
 meshiphi/mesh_generation/environment_mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index dd31619..b4ea145 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -86,6 +86,9 @@ class EnvironmentMesh:
             Returns:
                 EnvironmentMesh: object that contains all the json file mesh information.\n
         """
+        # The mesh is modified in place when it is split or merged, which must
+        # not reach the document it was loaded from
+        mesh_json = copy.deepcopy(mesh_json)
         config = mesh_json['config']['mesh_info']
         cellboxes_json = mesh_json['cellboxes']
         agg_cellboxes = []
-- 
2.43.0


From bd89a97816e657469c4f8e241b85a00c5354ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:20 +0000
Subject: [PATCH 69/76] fix: refuse cell sizes that are not positive

A negative cell size passed validation and gave a mesh without cells, or a
StopIteration while building.
---
 meshiphi/config_validation/config_validator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index c3e839b..d6ee8f1 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -94,6 +94,7 @@ def validate_mesh_config(config):
             bound_max (float): Maximum value of boundary in the same axis
             cell_size (float): Initial cellbox size in the same axis
         """
+        assert(cell_size > 0), f"Cell size {cell_size} is not positive"
         bound_size = (bound_max - bound_min) % 360
         # A region spanning all longitudes is 360 degrees wide, rather than 0
         if bound_size == 0 and bound_max != bound_min:
-- 
2.43.0


From c4b87d03316566dd520b98ed42b35df1ec802d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:25 +0000
Subject: [PATCH 70/76] fix: take aggregate types in lower case, as documented

get_value() documents that the aggregation type can be upper or lower case, but
lower case raised a ValueError where there is data, and downsample() silently
left the data as it was.
---
 meshiphi/dataloaders/lut/abstract_lut.py       | 1 +
 meshiphi/dataloaders/scalar/abstract_scalar.py | 2 ++
 meshiphi/dataloaders/vector/abstract_vector.py | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 5f6b113..2ef16f6 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -259,6 +259,7 @@ class LutDataLoader(DataLoaderInterface):
         
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
         # If want the number of datapoints
         if agg_type =='COUNT':
             ret_val = len(polygons)
diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 05db5e0..ba220a3 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -455,6 +455,7 @@ class ScalarDataLoader(DataLoaderInterface):
         # Set to params if no specific aggregate type specified
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
             
         # Limit data series to just the data, excluding coords/index
         dps = self.trim_datapoints(bounds, data=data)[self.data_name]
@@ -796,6 +797,7 @@ class ScalarDataLoader(DataLoaderInterface):
         # Set to params if no specific aggregate type specified
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
         
         # If no downsampling
         if self.downsample_factors == (1,1) or \
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 1762c48..f15a67a 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -519,6 +519,7 @@ class VectorDataLoader(DataLoaderInterface):
         # Set to params if no specific aggregate type specified
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
             
         # Limit data to boundary
         if data is None:
@@ -804,6 +805,7 @@ class VectorDataLoader(DataLoaderInterface):
         # Set to params if no specific aggregate type specified
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
         
         # If no downsampling
         if self.downsample_factors == (1,1) or \
-- 
2.43.0


From 444d584797675194f6ddac8d62b2c44230b97ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:36 +0000
Subject: [PATCH 71/76] fix: split and merge a mesh that was built and not
 loaded

The neighbour graph of a built mesh had integer ids and directions, so that
split_and_replace() and merge_mesh() raised KeyError until the mesh was written
and loaded again.
---
 meshiphi/mesh_generation/mesh_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index b4aa538..91d649b 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -633,8 +633,12 @@ class MeshBuilder:
                 agg_cellboxes.append(cellbox.aggregate())
 
         # Copy neighbour graph so that building further doesn't modify this mesh
+        # (with ids and directions as strings, as in a loaded mesh, so that it can be split and merged)
+        neighbour_graph = NeighbourGraph.from_json(
+            {str(node): {str(direction): list(ids) for direction, ids in neighbours.items()}
+             for node, neighbours in self.neighbour_graph.get_graph().items()})
         env_mesh = EnvironmentMesh(self.mesh.get_bounds(
-        ), agg_cellboxes, copy.deepcopy(self.neighbour_graph), self.get_config())
+        ), agg_cellboxes, neighbour_graph, self.get_config())
 
         return env_mesh
 
-- 
2.43.0


From c5e19a0724b3c32e41015ebc38abce9bd1fb80e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:28 +0000
Subject: [PATCH 72/76] fix: keep the config of a built mesh apart from its
 builder's

Merging into a built mesh recorded the merge in the config its builder was given,
and so in every other mesh of that builder.
---
 meshiphi/mesh_generation/mesh_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 91d649b..700b97f 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -638,7 +638,7 @@ class MeshBuilder:
             {str(node): {str(direction): list(ids) for direction, ids in neighbours.items()}
              for node, neighbours in self.neighbour_graph.get_graph().items()})
         env_mesh = EnvironmentMesh(self.mesh.get_bounds(
-        ), agg_cellboxes, neighbour_graph, self.get_config())
+        ), agg_cellboxes, neighbour_graph, copy.deepcopy(self.get_config()))
 
         return env_mesh
 
-- 
2.43.0


From f52d8488bd9d30917424d617dea79d67d6fcc112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:06 +0000
Subject: [PATCH 73/76] fix: merge into a built mesh with cells that start at
 the antimeridian

Cellboxes of a mesh that was built and not loaded may start at a longitude of 180,
and were then taken to extend over the antimeridian, and so kept below the merged mesh.
---
 meshiphi/mesh_generation/environment_mesh.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index b4ea145..2f28eec 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -610,10 +610,15 @@ class EnvironmentMesh:
             Returns:
                 bool: True if the cellbox is completely within the longitudes of the bounds
         """
-        west_inside = cb_bounds.get_long_min() >= bounds.get_long_min()
+        cb_long_min = cb_bounds.get_long_min()
+        # Cellboxes which start at the antimeridian don't extend over it
+        if cb_long_min == 180:
+            cb_long_min = -180
+
+        west_inside = cb_long_min >= bounds.get_long_min()
         east_inside = cb_bounds.get_long_max() <= bounds.get_long_max()
 
-        cb_crosses = cb_bounds.get_long_min() >= cb_bounds.get_long_max()
+        cb_crosses = cb_long_min >= cb_bounds.get_long_max()
         bounds_cross = bounds.get_long_min() >= bounds.get_long_max()
 
         # A cellbox on one side of the antimeridian, which bounds extend over
-- 
2.43.0


From 603166e0bba20fff34c01abe971bab145812f6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 74/76] fix: sample a mesh over the antimeridian within its
 bounds

MeshValidator drew its samples between the bounds' longitudes as numbers:
for a region from 170 to -170 these lay everywhere but in the mesh, and the
end of a sample's window was cut to the wrong side.
---
 meshiphi/mesh_validation/mesh_validator.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index b287f23..ee50207 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -10,6 +10,7 @@ import json
 import math
 import logging
 from meshiphi.mesh_generation.boundary import Boundary
+from meshiphi.utils import longitude_domain
 from sklearn.metrics import mean_squared_error
 from shapely.geometry import Point
 import xarray as xr
@@ -60,7 +61,12 @@ class MeshValidator:
         SAMPLE_DIM = 2  # each sample contains lat and long
     
         bounds = self.mesh.get_bounds()
-        samples = Sampler(SAMPLE_DIM , number_of_samples).generate_samples([bounds.lat_range , bounds.long_range])
+        long_range = [bounds.get_long_min(), bounds.get_long_max()]
+        # bounds that go over the antimeridian
+        if long_range[0] >= long_range[1]:
+            long_range[1] += 360
+        samples = Sampler(SAMPLE_DIM , number_of_samples).generate_samples([bounds.lat_range , long_range])
+        samples[:, 1] = longitude_domain(samples[:, 1])
         # compare the sampled lat and long values in data_file to the values obtained by mesh ( agg_values returned by  get_value)
         actual_value = np.array([])
         mesh_value = np.array([])
@@ -115,9 +121,13 @@ class MeshValidator:
         # make sure we are not exceeding the mesh bounds
         if lat_end > self.mesh.get_bounds().get_lat_max():
             lat_end = self.mesh.get_bounds().get_lat_max()
-        if long_end > self.mesh.get_bounds().get_long_max():
-            long_end = self.mesh.get_bounds().get_long_max()
-        return lat_end,long_end
+        long_max = self.mesh.get_bounds().get_long_max()
+        # the bounds end over the antimeridian
+        if long_max < sample[1]:
+            long_max += 360
+        if long_end > long_max:
+            long_end = long_max
+        return lat_end, longitude_domain(long_end)
 
 
     def get_values_from_mesh (self , sample):
-- 
2.43.0


From 08243359394897c02f7dc646bcdbc834db21b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:34 +0000
Subject: [PATCH 75/76] fix: read wind of ERA5 files with longitudes in 0..360

ERA5 files hold longitudes from 0 to 360, as all other ERA5 loaders expect.
The wind loader kept them, so that everything west of Greenwich had no wind.
---
 meshiphi/dataloaders/vector/era5_wind.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshiphi/dataloaders/vector/era5_wind.py b/meshiphi/dataloaders/vector/era5_wind.py
index a075775..19f809d 100644
--- a/meshiphi/dataloaders/vector/era5_wind.py
+++ b/meshiphi/dataloaders/vector/era5_wind.py
@@ -35,6 +35,11 @@ class ERA5WindDataLoader(VectorDataLoader):
         data = data.rename({'latitude': 'lat',
                             'longitude': 'long'})
 
+        # Change domain of dataset from [0:360) to [-180:180)
+        data = data.assign_coords(long=((data.long + 180) % 360) - 180)
+        # Sort the 'long' axis so that sel() will work
+        data = data.sortby('long')
+
         # Set min time to start of month to ensure we include data as we only have a
         # monthly cadence. Assuming time is in str format
         time_min = datetime.strptime(bounds.get_time_min(), '%Y-%m-%d')
-- 
2.43.0


From e6fbf778bbca151a30a6a7f061e3abc56a280313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:03 +0000
Subject: [PATCH 76/76] fix: accept only YYYY-MM-DD among the ISO dates in a
 mesh configuration

---
 meshiphi/config_validation/config_validator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index d6ee8f1..94ae29c 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -73,10 +73,11 @@ def validate_mesh_config(config):
         # Otherwise check if date is parsed correctly
         else:
             try:
-                # Checks if formatted as YYYY-MM-DD with a valid date
-                datetime.date.fromisoformat(time_str)
+                # Checks if formatted as YYYY-MM-DD with a valid date. Other 
+                # ISO formats (e.g. YYYYMMDD) are parsed too since Python 3.11
+                date = datetime.date.fromisoformat(time_str)
                 # If so, then it's correct
-                correctly_formatted = True
+                correctly_formatted = date.isoformat() == time_str
             except ValueError:
                 # Otherwise, keep correctly_formatted = False
                 pass
-- 
2.43.0

