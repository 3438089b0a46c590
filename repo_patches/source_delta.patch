From 286db12102670e193ebb5021bd675d005ea994ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 01/58] fix: use builtin int, np.int is removed in numpy 1.24+
 and density queries raised AttributeError

---
 bathygrid/bgrid.py | 4 ++--
 bathygrid/tile.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 1392517..3b4b34b 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -506,7 +506,7 @@ class BathyGrid(BaseGrid):
         elif layername in ['density', 'hypothesis_count']:
             # density has to have an integer based nodatavalue
             try:
-                nodatavalue = np.int(nodatavalue)
+                nodatavalue = int(nodatavalue)
             except ValueError:
                 nodatavalue = 0
         y_size = self.height / resolution
@@ -1040,7 +1040,7 @@ class BathyGrid(BaseGrid):
             elif lyr in ['density', 'hypothesis_count']:
                 # density has to have an integer based nodatavalue
                 try:
-                    nodatavalue = np.int(nodatavalue)
+                    nodatavalue = int(nodatavalue)
                 except ValueError:
                     nodatavalue = 0
             finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), nodatavalue)
diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 5f44f47..990b734 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -799,7 +799,7 @@ class SRTile(Tile):
         elif layer in ['density', 'hypothesis_count']:
             # density has to have an integer based nodatavalue
             try:
-                nodatavalue = np.int(nodatavalue)
+                nodatavalue = int(nodatavalue)
             except ValueError:
                 nodatavalue = 0
         else:
-- 
2.43.0


From 8d1fdc2edfe6c1cf5cbab6e469f4e1964e12ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 02/58] fix: shoalest uncertainty comes from the sounding that
 provided the cell depth

---
 bathygrid/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/algorithms.py b/bathygrid/algorithms.py
index c08d628..2fd81f0 100644
--- a/bathygrid/algorithms.py
+++ b/bathygrid/algorithms.py
@@ -123,8 +123,8 @@ def np_grid_shoalest(depth: np.array, cell_indices: np.array, grid: np.ndarray,
 
     depth_idx = None
     if tvu_enabled or thu_enabled:
-        depth_sort = np.argsort(depth)
-        depth_idx = np.searchsorted(depth[depth_sort], depth_min)
+        # sort by cell and then depth, the first point of each cell is the point that provided the shoalest depth
+        depth_idx = np.lexsort((depth, cell_indices))[uidx]
     if tvu_enabled:
         tvu_shoalest = tvu[depth_idx]
         tvu_grid[urow, ucol] = tvu_shoalest
-- 
2.43.0


From 3525ca438cb59b4d0605ed39cf643df3a42d79ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 03/58] fix: flush mean_depth and number_of_tiles to disk after
 adding points

---
 bathygrid/bgrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 3b4b34b..85c611f 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -703,6 +703,7 @@ class BathyGrid(BaseGrid):
         self._update_base_grid()
         self._update_tiles(container_name, progress_bar)
         self._update_mean_depth()
+        self._save_grid()  # mean_depth and number_of_tiles are updated after the points are added, so flush them too
         self.data = None  # points are in the tiles, clear this attribute to free up memory
 
     def _remove_tile(self, flat_index: int):
-- 
2.43.0


From 7198256bac80f55a9db7f171ac9d7ce33479038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 04/58] fix: do not bring emptied subgrids back when loading a
 variable resolution grid

---
 bathygrid/backends.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 0d1e6f4..3892292 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -347,7 +347,8 @@ class BaseStorage(OperationalGrid):
                         newgrid = storage_cls()
                         newgrid.name = os.path.split(subgrid_folder)[1]
                         newgrid.load(root_folder)
-                        self.tiles[row][col] = newgrid
+                        # a subgrid that had all points removed is not a part of the grid anymore
+                        self.tiles[row][col] = None if newgrid.is_empty else newgrid
                     else:
                         self.tiles[row][col] = None
 
-- 
2.43.0


From 77c3918b34bb86bddb3e4e7d260b9afdec3b602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 05/58] fix: clear stale subgrids from the grid root folder
 when saving

---
 bathygrid/backends.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 3892292..4fa931c 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -265,10 +265,11 @@ class BaseStorage(OperationalGrid):
                         print_progress_bar(cnt + 1, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
                     self._save_tile(tile, cnt)
             else:  # this grid has grids underneath it, we need to save those grids via recursion
+                root_folder = os.path.join(self.output_folder, self.name)
                 for cnt, subgrid in enumerate(self.tiles.flat):
                     if progress_bar:
                         print_progress_bar(cnt + 1, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
-                    subgrid_folder, row, col = self._get_tile_folder(self.output_folder, cnt)
+                    subgrid_folder, row, col = self._get_tile_folder(root_folder, cnt)
                     if subgrid is None:
                         self._clear_tile(subgrid_folder)
                     else:
-- 
2.43.0


From 51311440ed837018993b6a2e454cb161a6104ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 06/58] fix: variable resolution subgrids inherit
 is_backscatter

---
 bathygrid/maingrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/maingrid.py b/bathygrid/maingrid.py
index 88b81c2..586e050 100644
--- a/bathygrid/maingrid.py
+++ b/bathygrid/maingrid.py
@@ -58,7 +58,7 @@ class VRGridTile(SRGrid):
             ofolder = ''
         return self.storage_class(min_x=tile_x_origin, min_y=tile_y_origin, max_x=tile_x_origin + self.tile_size,
                                   max_y=tile_y_origin + self.tile_size, tile_size=self.subtile_size,
-                                  set_extents_manually=True, output_folder=ofolder)
+                                  set_extents_manually=True, output_folder=ofolder, is_backscatter=self.is_backscatter)
 
 
 class SRGridZarr(ZarrGrid):
@@ -116,4 +116,4 @@ class VRGridTileZarr(SRGridZarr):
             ofolder = ''
         return self.storage_class(min_x=tile_x_origin, min_y=tile_y_origin, max_x=tile_x_origin + self.tile_size,
                                   max_y=tile_y_origin + self.tile_size, tile_size=self.subtile_size,
-                                  set_extents_manually=True, output_folder=ofolder)
+                                  set_extents_manually=True, output_folder=ofolder, is_backscatter=self.is_backscatter)
-- 
2.43.0


From f3ca453c849f572ed35329e60e1a38411c63b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 07/58] fix: include the last cell boundary when gridded data
 reaches the edge of the grid

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 85c611f..80c75a2 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1791,8 +1791,8 @@ class BathyGrid(BaseGrid):
             x = (np.arange(self.min_x, self.max_x, resolution) + resolution / 2)[new_mins[1]:new_maxs[1]]
             y = (np.arange(self.min_y, self.max_y, resolution) + resolution / 2)[new_mins[0]:new_maxs[0]]
         else:  # get the cell boundaries for each cell, will be one longer than the node locations option (this is what matplotlib pcolormesh wants)
-            x = np.arange(self.min_x, self.max_x, resolution)[new_mins[1]:new_maxs[1] + 1]
-            y = np.arange(self.min_y, self.max_y, resolution)[new_mins[0]:new_maxs[0] + 1]
+            x = np.arange(self.min_x, self.max_x + resolution, resolution)[new_mins[1]:new_maxs[1] + 1]
+            y = np.arange(self.min_y, self.max_y + resolution, resolution)[new_mins[0]:new_maxs[0] + 1]
         return x, y, surfs, new_mins, new_maxs
 
     def _validate_layer_query(self, x_loc: np.array, y_loc: np.array, layer: str = 'depth', resolution: float = None,
-- 
2.43.0


From 83f5868a3b6a7453bb1774a96907dae307e34133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 08/58] fix: nodatavalue of an integer layer no longer leaks in
 to the layers that follow it in a chunk

---
 bathygrid/bgrid.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 80c75a2..e7ff677 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1037,14 +1037,16 @@ class BathyGrid(BaseGrid):
         for lyr in layers:
             if lyr in ['depth', 'intensity', 'vertical_uncertainty', 'horizontal_uncertainty', 'total_uncertainty', 'hypothesis_ratio']:
                 # ensure nodatavalue is a float32
-                nodatavalue = np.float32(nodatavalue)
+                layer_nodatavalue = np.float32(nodatavalue)
             elif lyr in ['density', 'hypothesis_count']:
                 # density has to have an integer based nodatavalue
                 try:
-                    nodatavalue = int(nodatavalue)
+                    layer_nodatavalue = int(nodatavalue)
                 except ValueError:
-                    nodatavalue = 0
-            finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), nodatavalue)
+                    layer_nodatavalue = 0
+            else:
+                layer_nodatavalue = nodatavalue
+            finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), layer_nodatavalue)
             for cnt, data in enumerate(layerdata):
                 if lyr in data:
                     finaldata[lyr][curdcol[cnt]:curdcol[cnt] + cells_per_tile, curdrow[cnt]:curdrow[cnt] + cells_per_tile] = data[lyr]
-- 
2.43.0


From 552eb9e5a0168b0f7961deace8650304c1b40554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 09/58] fix: compare both chunk dimensions when deciding
 whether the tiles fit in one chunk

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index e7ff677..8f6c6d3 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1075,7 +1075,7 @@ class BathyGrid(BaseGrid):
         if arr.ndim != 2 or len(chunk_shape) != 2:
             raise NotImplementedError('_split_to_approx_shape: assumes two dimensions')
 
-        if chunk_shape >= arr.shape:
+        if chunk_shape[0] >= arr.shape[0] and chunk_shape[1] >= arr.shape[1]:
             valid = arr != None
             if valid.any():
                 return [arr[valid].tolist()]
-- 
2.43.0


From 3b46ded6478227cb0d50b03a3072e3dde93d5596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 10/58] fix: skip tiles that are not gridded at the requested
 resolution when building chunks

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 8f6c6d3..de0e05b 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1171,6 +1171,8 @@ class BathyGrid(BaseGrid):
             curmaxdimension = 0
             for trow, tcol in index_list:
                 tile, data, geo, data_col, data_row, tile_cell_count = self.get_tile_data(trow, tcol, resolution, layer, nodatavalue, z_positive_up)
+                if geo is None:  # the tile has not been gridded at this resolution, there is no georeference or data to include
+                    continue
                 curdata.append(data)
                 curdcol.append(data_col)
                 curdrow.append(data_row)
-- 
2.43.0


From 24c6315d37ed4ac2872d6f0e953bf5989bb4a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 11/58] fix: report the dimension of chunks that contain a
 single tile

---
 bathygrid/bgrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index de0e05b..58e32b4 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1182,9 +1182,9 @@ class BathyGrid(BaseGrid):
                 else:
                     # merge the georeference of the two datasets, everything remains the same except the origin, which is now the global origin
                     curgeo = [min([curgeo[0], geo[0]]), curgeo[1], curgeo[2], max([curgeo[3], geo[3]]), curgeo[4], curgeo[5]]
-                    # here we take the greatest dimension currently
-                    curmaxdimension = max((max(curdcol) - min(curdcol) + tile_cell_count) * resolution,
-                                          (max(curdrow) - min(curdrow) + tile_cell_count) * resolution)
+                # here we take the greatest dimension currently
+                curmaxdimension = max((max(curdcol) - min(curdcol) + tile_cell_count) * resolution,
+                                      (max(curdrow) - min(curdrow) + tile_cell_count) * resolution)
             if all([d == {} for d in curdata]):  # skipping empty chunk, happens with VR where the tile has no data at this resolution
                 continue
             assert all(curcellcount)  # all the cell counts per tile should be the same for the one resolution
-- 
2.43.0


From 5b62c2d5e7ce37e35bda6c97f928084cf502fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 12/58] fix: an updated tile no longer forces the tiles that
 follow it to be cleared and regridded

---
 bathygrid/bgrid.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 58e32b4..42fa769 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1314,6 +1314,7 @@ class BathyGrid(BaseGrid):
             if progress_bar:
                 print_progress_bar(cnt + 1, self.tiles.size, 'Gridding {} - {}:'.format(self.name, algorithm))
             if tile:
+                clear_tile = clear_existing
                 if regrid_option == 'update':
                     if not clear_existing:  # this should always be false with update, but check just in case someone wants to fully clear everything
                         # update only those tiles with new points/removed points.  If the point count hasn't changed, we skip
@@ -1323,7 +1324,7 @@ class BathyGrid(BaseGrid):
                                     self.resolutions.append(rz)
                             continue
                     if isinstance(tile, SRTile):
-                        clear_existing = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
+                        clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                 if algorithm == 'cube':
                     border_data = self.get_tile_neighbor_points(tile, tile.width / 10)
                     if grid_border_data is not None:
@@ -1334,13 +1335,13 @@ class BathyGrid(BaseGrid):
                 else:
                     border_data = None
                 if isinstance(tile, BathyGrid) and auto_resolution:  # vrgrid subgrids can calc their own resolution
-                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 elif isinstance(tile, SRTile) and auto_resolution and self.name not in sr_grid_root_names:  # tiles in vrgridtile can be different resolutions
-                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 else:
-                    rez = tile.grid(algorithm, resolution, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, resolution, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 if isinstance(rez, float) or isinstance(rez, int):
                     rez = [rez]
@@ -1423,6 +1424,7 @@ class BathyGrid(BaseGrid):
 
         for cnt, tile in enumerate(self.tiles.flat):
             if tile:
+                clear_tile = clear_existing
                 if regrid_option == 'update':
                     if not clear_existing:  # this should always be false with update, but check just in case someone wants to fully clear everything
                         # update only those tiles with new points/removed points.  If the point count hasn't changed, we skip
@@ -1432,7 +1434,7 @@ class BathyGrid(BaseGrid):
                                     self.resolutions.append(rz)
                             continue
                     if isinstance(tile, SRTile):
-                        clear_existing = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
+                        clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                 if self.sub_type in ['srtile', 'quadtile']:
                     self._load_tile_data_to_memory(tile)
                 tile_indices.append(cnt)
@@ -1448,7 +1450,7 @@ class BathyGrid(BaseGrid):
                             border_data = grid_border_data
                 else:
                     border_data = None
-                data_for_workers.append([tile, algorithm, resolution, clear_existing, regrid_option, auto_resolution, self.name, self.grid_parameters, border_data])
+                data_for_workers.append([tile, algorithm, resolution, clear_tile, regrid_option, auto_resolution, self.name, self.grid_parameters, border_data])
                 chunk_index += 1
                 if chunk_index == chunks_at_a_time:
                     print('processing surface: group {} out of {}'.format(cur_run, total_runs))
-- 
2.43.0


From 4a89856a5fd45f93b760e39a4d71fd6334c00c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 13/58] fix: account for a non-zero grid origin when adjusting
 the extents

---
 bathygrid/grids.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index 86bbbfe..485b7e6 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -91,10 +91,10 @@ class BaseGrid(Grid):
         If this BathyGrid is allowed to grow, we extend the boundaries by integer increments of tile_size
         """
         if self.can_grow:
-            nearest_lower_x = np.floor((self.min_x - self.origin_x) / self.tile_size) * self.tile_size
-            nearest_higher_x = np.ceil((self.max_x - self.origin_x) / self.tile_size) * self.tile_size
-            nearest_lower_y = np.floor((self.min_y - self.origin_y) / self.tile_size) * self.tile_size
-            nearest_higher_y = np.ceil((self.max_y - self.origin_y) / self.tile_size) * self.tile_size
+            nearest_lower_x = np.floor((self.min_x - self.origin_x) / self.tile_size) * self.tile_size + self.origin_x
+            nearest_higher_x = np.ceil((self.max_x - self.origin_x) / self.tile_size) * self.tile_size + self.origin_x
+            nearest_lower_y = np.floor((self.min_y - self.origin_y) / self.tile_size) * self.tile_size + self.origin_y
+            nearest_higher_y = np.ceil((self.max_y - self.origin_y) / self.tile_size) * self.tile_size + self.origin_y
             if nearest_higher_x == self.max_x:  # higher value cant be equal, our binning relies on it being less than
                 nearest_higher_x += self.tile_size
             if nearest_higher_y == self.max_y:
-- 
2.43.0


From 45292dd192a35e96966dd5910c0340d831845376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 14/58] fix: csv elevation is positive up regardless of the
 sign of the mean depth, matching geotiff and bag

---
 bathygrid/bgrid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 42fa769..753cc90 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2264,8 +2264,7 @@ class OperationalGrid(BathyGrid):
             dfmt = ['%.3f', '%.3f']
             for cnt, lname in enumerate(lyrs):
                 if lname == 'depth' and z_positive_up:
-                    if self.mean_depth > 0:  # currently positive down
-                        lyrdata[cnt] = lyrdata[cnt] * -1
+                    lyrdata[cnt] = lyrdata[cnt] * -1  # layers are always returned as positive down, see get_tile_data
                     lname = 'elevation'
                 dataset += [lyrdata[cnt].ravel()]
                 dnames += [lname]
-- 
2.43.0


From 9d17ff9469157c578a81f631c1f701d50031f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 15/58] fix: validate new points before altering the grid, a
 rejected add no longer registers the container or coordinate system

---
 bathygrid/bgrid.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 753cc90..06df0b2 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -371,12 +371,12 @@ class BathyGrid(BaseGrid):
             if self.epsg != int(epsg):
                 raise ValueError('BathyGrid: Found existing coordinate system {}, new coordinate system {} must match'.format(self.epsg,
                                                                                                                               epsg))
-        if epsg:
-            self.epsg = int(epsg)
         if self.vertical_reference and (self.vertical_reference != vertical_reference):
             if not (self.vertical_reference.find('MLLW') != -1 and vertical_reference.find('MLLW') != -1):
                 raise ValueError('BathyGrid: Found existing vertical reference {}, new vertical reference {} must match'.format(self.vertical_reference,
                                                                                                                                 vertical_reference))
+        if epsg:
+            self.epsg = int(epsg)
         if min_time:
             min_time = int(min_time)
             if self.min_time:
@@ -2143,16 +2143,21 @@ class OperationalGrid(BathyGrid):
         if type(self.data) in [np.ndarray, Array]:
             if not self.data.dtype.names:
                 raise ValueError('BathyGrid: numpy array provided for data, but no names were found, array must be a structured array')
-            if 'x' not in self.data.dtype.names or 'y' not in self.data.dtype.names:
-                raise ValueError('BathyGrid: numpy structured array provided for data, but "x" or "y" not found in variable names')
+            if 'x' not in self.data.dtype.names or 'y' not in self.data.dtype.names or 'z' not in self.data.dtype.names:
+                raise ValueError('BathyGrid: numpy structured array provided for data, but "x", "y" or "z" not found in variable names')
         elif type(self.data) == xr.Dataset:
-            if 'x' not in self.data:
-                raise ValueError('BathyGrid: xarray Dataset provided for data, but "x" or "y" not found in variable names')
+            if 'x' not in self.data or 'y' not in self.data or 'z' not in self.data:
+                raise ValueError('BathyGrid: xarray Dataset provided for data, but "x", "y" or "z" not found in variable names')
             if self.data['z'].ndim > 1:
                 raise ValueError('BathyGrid: xarray Dataset provided for data, but found multiple dimensions, must be one dimensional: {}'.format(self.data.dims))
             self._convert_dataset()  # internally we just convert xarray dataset to numpy for ease of use
         else:
             raise ValueError('QuadTree: numpy structured array or dask array with "x" and "y" as variable must be provided')
+        # everything is validated before the grid is altered, a rejected dataset should leave no trace
+        if self.data.size == 0:
+            raise ValueError('BathyGrid: no points found in the provided data')
+        if not (np.isfinite(self.data['x']).all() and np.isfinite(self.data['y']).all()):
+            raise ValueError('BathyGrid: found "x" or "y" values that are not finite in the provided data')
 
     def save(self, folder_path: str = None, progress_bar: bool = True):
         """
-- 
2.43.0


From 6205fd2b9436d98082bb75692df5fbf128ec4013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 16/58] fix: attribution of a container is no longer taken from
 another container that has a _0 suffix

---
 bathygrid/bgrid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 06df0b2..7ab30f1 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2412,13 +2412,13 @@ class OperationalGrid(BathyGrid):
                 'storage_type': self.storage_type}
         ucontainers = self.return_unique_containers()
         for cont_name in ucontainers:
-            try:  # this works for kluster added containers, that have a suffix with an index
-                data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name + '_0'],
-                                                       'multibeam_lines': self.container[cont_name + '_0']}
+            try:  # this works for all standard container names
+                data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name],
+                                                       'multibeam_lines': self.container[cont_name]}
             except KeyError:
-                try:  # this works for all other standard container names
-                    data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name],
-                                                           'multibeam_lines': self.container[cont_name]}
+                try:  # this works for kluster added containers, that have a suffix with an index
+                    data['source_{}'.format(cont_name)] = {'time': self.container_timestamp[cont_name + '_0'],
+                                                           'multibeam_lines': self.container[cont_name + '_0']}
                 except KeyError:
                     nearest_cont_name = [nm for nm in self.container if nm.find(cont_name) != -1]
                     if nearest_cont_name[0]:
-- 
2.43.0


From 8f76d66692cc14642267c60e6483f11a0e532c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 17/58] fix: variable resolution neighbor points are the points
 near the shared border, empty subtiles are skipped

---
 bathygrid/bgrid.py | 47 +++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 7ab30f1..f444f25 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -936,6 +936,17 @@ class BathyGrid(BaseGrid):
             tils.append(None)
         return tils
 
+    @staticmethod
+    def _return_neighbor_data(til: Union[Tile, BaseGrid]):
+        """
+        Get all points for the provided neighbor, which can be a Tile or (with variable resolution) a grid of Tiles
+        """
+
+        if isinstance(til, Tile):
+            return til.data
+        subdata = [subtil.data for subtil in til.tiles.flat if subtil]
+        return np.concatenate([sdata if isinstance(sdata, np.ndarray) else sdata.compute() for sdata in subdata])
+
     def get_tile_neighbor_points(self, til: Tile, buffer_value: float):
         """
         Get the point data for all points that are in neighboring tiles to the provided tile and are within the buffer value
@@ -958,40 +969,20 @@ class BathyGrid(BaseGrid):
         tils = self.get_tile_neighbors(til)
         # up
         if tils[0]:
-            if isinstance(tils[0], Tile):  # single resolution option
-                newdata = tils[0].data[tils[0].data['y'] >= (tils[0].max_y - buffer_value)]
-                data.append(newdata)
-            else:  # for variable resolution, tils will be a list of grids, get all tiles in the grid
-                for subtil in tils[0].tiles.flat:
-                    newdata = subtil.data[subtil.data['y'] >= (subtil.max_y - buffer_value)]
-                    data.append(newdata)
+            newdata = self._return_neighbor_data(tils[0])
+            data.append(newdata[newdata['y'] >= (tils[0].max_y - buffer_value)])
         # right
         if tils[1]:
-            if isinstance(tils[1], Tile):  # single resolution option
-                newdata = tils[1].data[tils[1].data['x'] <= (tils[1].min_x + buffer_value)]
-                data.append(newdata)
-            else:
-                for subtil in tils[1].tiles.flat:
-                    newdata = subtil.data[subtil.data['x'] <= (subtil.min_x + buffer_value)]
-                    data.append(newdata)
+            newdata = self._return_neighbor_data(tils[1])
+            data.append(newdata[newdata['x'] <= (tils[1].min_x + buffer_value)])
         # down
         if tils[2]:
-            if isinstance(tils[2], Tile):  # single resolution option
-                newdata = tils[2].data[tils[2].data['y'] <= (tils[2].min_y + buffer_value)]
-                data.append(newdata)
-            else:
-                for subtil in tils[2].tiles.flat:
-                    newdata = subtil.data[subtil.data['y'] <= (subtil.min_y + buffer_value)]
-                    data.append(newdata)
+            newdata = self._return_neighbor_data(tils[2])
+            data.append(newdata[newdata['y'] <= (tils[2].min_y + buffer_value)])
         # left
         if tils[3]:
-            if isinstance(tils[3], Tile):  # single resolution option
-                newdata = tils[3].data[tils[3].data['x'] >= (tils[3].max_x - buffer_value)]
-                data.append(newdata)
-            else:
-                for subtil in tils[3].tiles.flat:
-                    newdata = subtil.data[subtil.data['x'] >= (subtil.max_x - buffer_value)]
-                    data.append(newdata)
+            newdata = self._return_neighbor_data(tils[3])
+            data.append(newdata[newdata['x'] >= (tils[3].max_x - buffer_value)])
         if data:
             data = np.concatenate(data)
             if not isinstance(data, np.ndarray):
-- 
2.43.0


From 6b089a9377917cfc547939971baa5fc258757da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 18/58] fix: density at a location looks to the coarser
 resolutions when the finer resolution cell is empty

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index f444f25..c75a7c7 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1854,6 +1854,8 @@ class BathyGrid(BaseGrid):
                 no_values_yet = np.isnan(layer_values)
             else:
                 no_values_yet = layer_values == nodatavalue
+            if layer in ['density', 'hypothesis_count']:  # empty cells in these layers are zero, coarser resolutions might have the answer
+                no_values_yet = no_values_yet | (layer_values == 0)
             if not no_values_yet.any():  # we have an answer for all xy locations
                 break
             surf_x, surf_y, surfs, new_mins, new_maxs = self.return_surf_xyz(layer, rez, cell_boundaries=True,
-- 
2.43.0


From bd14918d9f571976d6a1050c7ea8f231371afb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 19/58] fix: use the coarsest resolution for depths beyond the
 lookup, not the finest

---
 bathygrid/bgrid.py | 4 +++-
 bathygrid/tile.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index c75a7c7..85aa390 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -425,7 +425,9 @@ class BathyGrid(BaseGrid):
             raise ValueError('Bathygrid: Unable to calculate resolution when mean_depth is None')
         dpth_keys = list(depth_resolution_lookup.keys())
         # get next positive value in keys of resolution lookup
-        range_index = np.argmax((np.array(dpth_keys) - self.mean_depth) > 0)
+        is_deeper = (np.array(dpth_keys) - self.mean_depth) > 0
+        # deeper than all entries in the lookup, use the coarsest resolution
+        range_index = np.argmax(is_deeper) if is_deeper.any() else len(dpth_keys) - 1
         calc_resolution = depth_resolution_lookup[dpth_keys[range_index]]
         # ensure that resolution does not exceed the tile size for obvious reasons
         clipped_rez = min(self.tile_size, calc_resolution)
diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 990b734..88f4977 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -248,7 +248,9 @@ class SRTile(Tile):
             raise ValueError('SRTile: Unable to calculate resolution when there are no points in the tile')
         dpth_keys = list(depth_resolution_lookup.keys())
         # get next positive value in keys of resolution lookup
-        range_index = np.argmax((np.array(dpth_keys) - self.mean_depth) > 0)
+        is_deeper = (np.array(dpth_keys) - self.mean_depth) > 0
+        # deeper than all entries in the lookup, use the coarsest resolution
+        range_index = np.argmax(is_deeper) if is_deeper.any() else len(dpth_keys) - 1
         calc_resolution = depth_resolution_lookup[dpth_keys[range_index]]
         # ensure that resolution does not exceed the tile size for obvious reasons
         clipped_rez = min(self.width, calc_resolution)
-- 
2.43.0


From e84844fa54fac1b0a55f1c20401b5594e6c08cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 20/58] fix: center the coordinates in the slope fit, projected
 coordinates gave the wrong slopes

---
 bathygrid/algorithms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bathygrid/algorithms.py b/bathygrid/algorithms.py
index 2fd81f0..e1404b8 100644
--- a/bathygrid/algorithms.py
+++ b/bathygrid/algorithms.py
@@ -268,7 +268,9 @@ def calculate_slopes(x: np.array, y: np.array, z: np.array, cell_indices: np.arr
 
     for row, col, x_cell, y_cell, z_cell in zip(urow, ucol, x_split, y_split, z_split):
         # following equation of plane ax + by + c = z we set up the Ax = B matrices and do the least squares fit
-        a_data = np.column_stack([x_cell, y_cell, np.ones(x_cell.shape[0], dtype=np.float32)])
+        # center the coordinates, with large eastings/northings the fit is otherwise too poorly conditioned to get the slopes
+        x_center, y_center = x_cell.mean(), y_cell.mean()
+        a_data = np.column_stack([x_cell - x_center, y_cell - y_center, np.ones(x_cell.shape[0], dtype=np.float32)])
         b_data = np.column_stack([z_cell])
         fit, residual, rnk, s = np.linalg.lstsq(a_data, b_data, rcond=None)
 
@@ -277,7 +279,7 @@ def calculate_slopes(x: np.array, y: np.array, z: np.array, cell_indices: np.arr
         # y slope is the change in z in the y direction, which is the b parameter in z = ax + by + c (or the second entry in fit)
         y_slope_grid[row, col] = fit[1][0]
         if visualize:
-            lstsq_grid[row, col] = fit[0] * lstsq_x[row, col] + fit[1] * lstsq_y[row, col] + fit[2]
+            lstsq_grid[row, col] = fit[0] * (lstsq_x[row, col] - x_center) + fit[1] * (lstsq_y[row, col] - y_center) + fit[2]
     if visualize:
         ax.plot_wireframe(lstsq_x.T, lstsq_y.T, lstsq_grid.T, color='k')
         ax.set_xlabel('x')
-- 
2.43.0


From 26c857fa64d678bdeebb1334ad2663496e7d1952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 21/58] fix: mean depth includes all points in the grid, not
 just those of the last add

---
 bathygrid/bgrid.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 85aa390..12c0f8c 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -402,13 +402,19 @@ class BathyGrid(BaseGrid):
 
     def _update_mean_depth(self):
         """
-        Calculate the mean depth of all loaded points before they are loaded into tiles and cleared from this object
+        Calculate the mean depth of all points in the grid.  When adding, the new points (still loaded in this object) are
+        merged with the existing mean depth.  When removing, we go back to the points in the tiles.
         """
 
-        if self.data is None or not self.data['z'].any():
+        if self.is_empty:
             self.mean_depth = 0.0
+            return
+        total_count = self.points_count
+        if self.data is not None:
+            depth_sum = self.mean_depth * (total_count - self.data.size) + float(self.data['z'].mean()) * self.data.size
         else:
-            self.mean_depth = np.round(self.data['z'].mean(), 3)
+            depth_sum = sum(tile.mean_depth * tile.points_count for tile in self.tiles.flat if tile)
+        self.mean_depth = round(float(depth_sum / total_count), 3)
 
     def _calculate_resolution_lookup(self):
         """
@@ -754,6 +760,7 @@ class BathyGrid(BaseGrid):
                         self._load_tile(cnt, only_points=True)
             if self.is_empty:
                 self.tiles = None
+            self._update_mean_depth()
             self._save_grid()
 
     def get_tiles_by_resolution(self, resolution: float = None, layer: Union[str, list] = 'depth',
-- 
2.43.0


From 000b9994571d73f4704ca33c0670fc031d6883e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 22/58] fix: a layer that is missing in a tile no longer shifts
 the other requested layers

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 12c0f8c..7e237f5 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1230,8 +1230,8 @@ class BathyGrid(BaseGrid):
             if tile:
                 row, col = self._tile_idx_to_row_col(cnt)
                 tile, newdata, geo, data_col, data_row, tile_cell_count = self.get_tile_data(row, col, resolution, layer, nodatavalue, z_positive_up)
-                for cnt, lyr in enumerate(newdata.keys()):
-                    data[cnt][data_col:data_col + tile_cell_count, data_row:data_row + tile_cell_count] = newdata[lyr]
+                for lyr in newdata.keys():
+                    data[layer.index(lyr)][data_col:data_col + tile_cell_count, data_row:data_row + tile_cell_count] = newdata[lyr]
                     empty = False
         if empty:
             data = None
-- 
2.43.0


From dda657e0f9e693ea238cad18a2bb8ba86b43c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 23/58] fix: zarr variable resolution grid does not need a mean
 depth to determine resolution, same as numpy

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 7e237f5..e2afb07 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -15,7 +15,7 @@ from bathygrid.grids import BaseGrid
 from bathygrid.tile import SRTile, Tile
 from bathygrid.utilities import bin2d_with_indices, dask_find_or_start_client, print_progress_bar, \
     utc_seconds_to_formatted_string, formatted_string_to_utc_seconds, create_folder, gdal_raster_create, return_gdal_version
-from bathygrid.grid_variables import depth_resolution_lookup, maximum_chunk_dimension, sr_grid_root_names
+from bathygrid.grid_variables import depth_resolution_lookup, maximum_chunk_dimension, sr_grid_root_names, vr_grid_root_names
 from bathygrid.__version__ import __version__ as bathyvers
 
 
@@ -1514,7 +1514,7 @@ class BathyGrid(BaseGrid):
         if resolution is None:
             auto_resolution = auto_resolution_mode.lower()
             self.grid_resolution = 'AUTO_{}'.format(auto_resolution_mode).upper()
-            if self.name != 'VRGridTile_Root':
+            if self.name not in vr_grid_root_names:
                 if auto_resolution == 'depth':
                     resolution = self._calculate_resolution_lookup()
                 elif auto_resolution == 'density':
-- 
2.43.0


From 914f1bae3852cc98f4da49eb87410d3dfb2264c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 24/58] fix: create_folder supports a relative folder name

---
 bathygrid/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index 9f0dd53..09cb0b5 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -86,7 +86,8 @@ def create_folder(output_directory: str, fldrname: str):
         path to the created folder
     """
 
-    os.makedirs(output_directory, exist_ok=True)
+    if output_directory:  # empty for a relative path that is just the folder name
+        os.makedirs(output_directory, exist_ok=True)
     tstmp = datetime.utcnow().strftime('%Y%m%d_%H%M%S')
     try:
         fldr_path = os.path.join(output_directory, fldrname)
-- 
2.43.0


From d572e0a1fe2e8f54496c2ea0c4f64b163e43af37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 25/58] fix: validate the gridding options before altering the
 grid

---
 bathygrid/bgrid.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index e2afb07..d5e5251 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -14,7 +14,8 @@ from typing import Union
 from bathygrid.grids import BaseGrid
 from bathygrid.tile import SRTile, Tile
 from bathygrid.utilities import bin2d_with_indices, dask_find_or_start_client, print_progress_bar, \
-    utc_seconds_to_formatted_string, formatted_string_to_utc_seconds, create_folder, gdal_raster_create, return_gdal_version
+    utc_seconds_to_formatted_string, formatted_string_to_utc_seconds, create_folder, gdal_raster_create, return_gdal_version, \
+    is_power_of_two
 from bathygrid.grid_variables import depth_resolution_lookup, maximum_chunk_dimension, sr_grid_root_names, vr_grid_root_names
 from bathygrid.__version__ import __version__ as bathyvers
 
@@ -1503,13 +1504,20 @@ class BathyGrid(BaseGrid):
         if clear_existing and regrid_option == 'update':
             print('Warning: regrid_option=update is ignored when using clear_existing=True.  The entire grid will be re-gridded.')
 
+        if self.is_empty:
+            raise ValueError('BathyGrid: Grid is empty, no points have been added')
+        if algorithm not in ['mean', 'shoalest', 'cube']:
+            raise ValueError("Bathygrid: Unrecognized algorithm {}, must be one of ['mean', 'shoalest', 'cube']".format(algorithm))
+        if resolution is not None:
+            resolution = float(resolution)
+            if not is_power_of_two(resolution):
+                raise ValueError('Bathygrid: Resolution must be a power of two, got {}'.format(resolution))
+        elif auto_resolution_mode.lower() not in ['depth', 'density']:
+            raise ValueError("Bathygrid: Unrecognized auto_resolution_mode {}, must be one of ['depth', 'density']".format(auto_resolution_mode))
+
         self.grid_algorithm = algorithm
         self.grid_resolution = resolution
         self.grid_parameters = grid_parameters
-        if resolution is not None:
-            resolution = float(resolution)
-        if self.is_empty:
-            raise ValueError('BathyGrid: Grid is empty, no points have been added')
         auto_resolution = ''
         if resolution is None:
             auto_resolution = auto_resolution_mode.lower()
-- 
2.43.0


From db4dae29433ba01f4c24e1b09b3176c18b4a1a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 26/58] fix: a mean depth of zero is valid when determining the
 resolution

---
 bathygrid/bgrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index d5e5251..2877c6f 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -16,7 +16,7 @@ from bathygrid.tile import SRTile, Tile
 from bathygrid.utilities import bin2d_with_indices, dask_find_or_start_client, print_progress_bar, \
     utc_seconds_to_formatted_string, formatted_string_to_utc_seconds, create_folder, gdal_raster_create, return_gdal_version, \
     is_power_of_two
-from bathygrid.grid_variables import depth_resolution_lookup, maximum_chunk_dimension, sr_grid_root_names, vr_grid_root_names
+from bathygrid.grid_variables import depth_resolution_lookup, maximum_chunk_dimension, sr_grid_root_names
 from bathygrid.__version__ import __version__ as bathyvers
 
 
@@ -428,7 +428,7 @@ class BathyGrid(BaseGrid):
             resolution to use at the existing mean_depth
         """
 
-        if not self.mean_depth:
+        if self.mean_depth is None:
             raise ValueError('Bathygrid: Unable to calculate resolution when mean_depth is None')
         dpth_keys = list(depth_resolution_lookup.keys())
         # get next positive value in keys of resolution lookup
@@ -1522,7 +1522,7 @@ class BathyGrid(BaseGrid):
         if resolution is None:
             auto_resolution = auto_resolution_mode.lower()
             self.grid_resolution = 'AUTO_{}'.format(auto_resolution_mode).upper()
-            if self.name not in vr_grid_root_names:
+            if self.name in sr_grid_root_names:  # the tiles of the other grids determine their own resolution
                 if auto_resolution == 'depth':
                     resolution = self._calculate_resolution_lookup()
                 elif auto_resolution == 'density':
-- 
2.43.0


From d3019988c6ab0bd1469fa5c5ef4e575a952a805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 27/58] fix: bag vertical coordinate system matches the
 positive up elevation that is written

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 2877c6f..86acdeb 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2366,8 +2366,8 @@ class OperationalGrid(BathyGrid):
             process_step_description = 'Generated By GDAL {}'.format(return_gdal_version())
         if not vert_crs:
             vert_crs = 'VERT_CS["unknown", VERT_DATUM["unknown", 2000]]'
-        vert_crs.replace('"depth (D)",down', '"gravity-related height (H),up')  # WKT2
-        vert_crs.replace('"Depth",DOWN', '"Gravity-related height",UP')  # WKT1
+        vert_crs = vert_crs.replace('"depth (D)",down', '"gravity-related height (H)",up')  # WKT2
+        vert_crs = vert_crs.replace('"Depth",DOWN', '"Gravity-related height",UP')  # WKT1
 
         bag_options = ['VAR_INDIVIDUAL_NAME=' + individual_name, 'VAR_ORGANISATION_NAME=' + organizational_name,
                        'VAR_POSITION_NAME=' + position_name, 'VAR_DATE=' + attr_date, 'VAR_VERT_WKT=' + vert_crs,
-- 
2.43.0


From 464a15312bf7895f2a6cbf8b158f56c53a25c06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 28/58] fix: coordinates that round to the tile boundary are
 kept within the adjusted extents

---
 bathygrid/grids.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index 485b7e6..5393b5e 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -95,9 +95,13 @@ class BaseGrid(Grid):
             nearest_higher_x = np.ceil((self.max_x - self.origin_x) / self.tile_size) * self.tile_size + self.origin_x
             nearest_lower_y = np.floor((self.min_y - self.origin_y) / self.tile_size) * self.tile_size + self.origin_y
             nearest_higher_y = np.ceil((self.max_y - self.origin_y) / self.tile_size) * self.tile_size + self.origin_y
-            if nearest_higher_x == self.max_x:  # higher value cant be equal, our binning relies on it being less than
+            if nearest_lower_x > self.min_x:  # coordinate is so close to the boundary that the offset rounds to the boundary
+                nearest_lower_x -= self.tile_size
+            if nearest_lower_y > self.min_y:
+                nearest_lower_y -= self.tile_size
+            if nearest_higher_x <= self.max_x:  # higher value cant be equal, our binning relies on it being less than
                 nearest_higher_x += self.tile_size
-            if nearest_higher_y == self.max_y:
+            if nearest_higher_y <= self.max_y:
                 nearest_higher_y += self.tile_size
             self.min_x, self.min_y = nearest_lower_x, nearest_lower_y
             self.max_x, self.max_y = nearest_higher_x, nearest_higher_y
-- 
2.43.0


From 68916425801469ec2079c0e8035ee33b7160b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 29/58] fix: a grid with some tiles not gridded yet counts as
 gridded and can be read

---
 bathygrid/bgrid.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 86acdeb..5c3b098 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -105,8 +105,8 @@ class BathyGrid(BaseGrid):
     @property
     def no_grid(self):
         """
-        Simple check to see if this instance contains gridded data or not.  Looks for the first existing Tile and checks
-        if that Tile has a grid.
+        Simple check to see if this instance contains gridded data or not.  There is a grid as soon as one of the Tiles
+        has been gridded, others might have been added after that.
 
         Returns
         -------
@@ -120,13 +120,11 @@ class BathyGrid(BaseGrid):
         for tile in self.tiles.flat:
             if tile:
                 if isinstance(tile, BathyGrid):
-                    for subtile in tile.tiles.flat:
-                        if subtile:
-                            tile = subtile
-                if tile.cells:
+                    if not tile.no_grid:
+                        return False
+                elif tile.cells:
                     return False
-                else:
-                    return True
+        return True
 
     @property
     def has_vertical_uncertainty(self):
@@ -197,14 +195,15 @@ class BathyGrid(BaseGrid):
     @property
     def layer_names(self):
         """
-        Get the existing layer names in the tiles by checking the first real tile
+        Get the existing layer names in the tiles by checking the first real tile that has been gridded
         """
 
         if self.tiles is not None:
             for tile in self.tiles.flat:
                 if tile:
                     layernames = tile.layer_names
-                    return layernames
+                    if layernames:
+                        return layernames
         return []
 
     @property
@@ -855,6 +854,8 @@ class BathyGrid(BaseGrid):
         data_col, data_row = row_number * tile_cell_count, column_number * tile_cell_count
         geo = tile.get_geotransform(resolution)
         data = {}
+        if isinstance(tile, BathyGrid) and tile.no_grid:  # points were added to this subgrid, but it has not been gridded yet
+            return tile, data, geo, data_col, data_row, tile_cell_count
         for cnt, lyr in enumerate(layer):
             newdata = tile.get_layers_by_name(lyr, resolution, nodatavalue=nodatavalue, z_positive_up=z_positive_up)
             if newdata is not None:
-- 
2.43.0


From 414e5411ac0a21614c2e25f75b68454a0adcc3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 30/58] fix: saving a grid without tiles

---
 bathygrid/backends.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 4fa931c..e9e47b4 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -257,6 +257,8 @@ class BaseStorage(OperationalGrid):
         if folderpath:
             self.output_folder = folderpath
             self._save_grid()
+            if self.tiles is None:  # nothing added yet or everything removed again, there are no tiles to save
+                return
             if progress_bar:
                 print_progress_bar(0, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
             if self.sub_type in ['srtile', 'quadtile']:
-- 
2.43.0


From 5c86c7bb5c7bcea120b84c901fb8a85b6b735015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 31/58] fix: resolutions of removed tiles are dropped from the
 grid

---
 bathygrid/bgrid.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 5c3b098..e4db19a 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -439,6 +439,16 @@ class BathyGrid(BaseGrid):
         clipped_rez = min(self.tile_size, calc_resolution)
         return float(clipped_rez)
 
+    def _update_resolutions(self):
+        """
+        Drop the resolutions that are no longer found in any tile, for when tiles have been removed from the grid
+        """
+
+        tile_resolutions = []
+        if self.tiles is not None:
+            tile_resolutions = [rz for tile in self.tiles.flat if tile for rz in tile.resolutions]
+        self.resolutions = [rz for rz in self.resolutions if rz in tile_resolutions]
+
     def resolution_by_density(self, starting_resolution: float = None):
         """
         Determine the resolution according to the density of the points in all tiles, returns the coarsest resolution
@@ -760,6 +770,7 @@ class BathyGrid(BaseGrid):
                         self._load_tile(cnt, only_points=True)
             if self.is_empty:
                 self.tiles = None
+            self._update_resolutions()
             self._update_mean_depth()
             self._save_grid()
 
-- 
2.43.0


From c48de696c6ff9e44c7631a29b42338e71bcc9985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 32/58] fix: container and slope queries when soundings were
 added since the last gridding

---
 bathygrid/tile.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 88f4977..c4e9835 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -363,6 +363,22 @@ class SRTile(Tile):
             if 'y_slope' in self.cells[resolution]:
                 self.cells[resolution].pop('y_slope')
 
+    def _return_cell_indices(self, resolution: float):
+        """
+        Return the index of the cell that each point belongs to.  Points that were added since the tile was last gridded
+        have not been assigned to a cell yet, we find the cell for those points here.
+        """
+        cindx = self.cell_indices[resolution]
+        if not isinstance(cindx, np.ndarray):
+            cindx = cindx.compute()
+        new_points = cindx == -1
+        if new_points.any():
+            cindx = np.array(cindx)
+            x_val, y_val, cedgex, cedgey = [arr if isinstance(arr, np.ndarray) else arr.compute() for arr in
+                                            (self.data['x'], self.data['y'], self.cell_edges_x[resolution], self.cell_edges_y[resolution])]
+            cindx[new_points] = bin2d_with_indices(x_val[new_points], y_val[new_points], cedgex, cedgey)
+        return cindx
+
     def _grid_algorithm_initialize(self, resolution: float, only_container: str = None):
         vert_val = np.array([])
         horiz_val = np.array([])
@@ -388,12 +404,9 @@ class SRTile(Tile):
             depth_val = self.data['z']
         if not isinstance(self.data, np.ndarray):
             depth_val = depth_val.compute()
+        cindx = self._return_cell_indices(resolution)
         if only_container:
-            cindx = self.cell_indices[resolution][self.container[only_container][0]:self.container[only_container][1]]
-        else:
-            cindx = self.cell_indices[resolution]
-        if not isinstance(cindx, np.ndarray):
-            cindx = cindx.compute()
+            cindx = cindx[self.container[only_container][0]:self.container[only_container][1]]
         return vert_val, horiz_val, depth_val, vert_grid, horiz_grid, cindx
 
     def _cube_grid_algorithm_initialize(self, data: np.ndarray, resolution: float, only_container: str = None):
@@ -422,12 +435,9 @@ class SRTile(Tile):
         if not isinstance(data, np.ndarray):
             depth_val = depth_val.compute()
 
+        cindx = self._return_cell_indices(resolution)
         if only_container:
-            cindx = self.cell_indices[resolution][self.container[only_container][0]:self.container[only_container][1]]
-        else:
-            cindx = self.cell_indices[resolution]
-        if not isinstance(cindx, np.ndarray):
-            cindx = cindx.compute()
+            cindx = cindx[self.container[only_container][0]:self.container[only_container][1]]
         return vert_val, horiz_val, depth_val, totalunc_grid, hypcnt_grid, hypratio_grid, cindx
 
     def _run_mean_grid(self, resolution: float, only_container: str = None):
@@ -521,10 +531,7 @@ class SRTile(Tile):
             x_val = self.data['x']
             y_val = self.data['y']
             depth_val = self.data['z']
-        if not isinstance(self.cell_indices[resolution], np.ndarray):
-            cindx = self.cell_indices[resolution].compute()
-        else:
-            cindx = self.cell_indices[resolution]
+        cindx = self._return_cell_indices(resolution)
         if not isinstance(self.cell_edges_x[resolution], np.ndarray):
             cedgex = self.cell_edges_x[resolution].compute()
             cedgey = self.cell_edges_y[resolution].compute()
-- 
2.43.0


From da7f5cf0437465feaffad7ba7e0611aeb46372af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 33/58] fix: container query of a CUBE grid

---
 bathygrid/tile.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index c4e9835..3121507 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -422,16 +422,13 @@ class SRTile(Tile):
             hypcnt_grid = self.cells[resolution]['hypothesis_count']
             hypratio_grid = self.cells[resolution]['hypothesis_ratio']
         else:
-            totalunc_grid = np.array([])
-            hypcnt_grid = np.array([])
-            hypratio_grid = np.array([])
-
-        if only_container:
-            depth_val = data['z'][self.container[only_container][0]:self.container[only_container][1]]
+            # only the depth and density of the container are retained
+            totalunc_grid = np.full(self.cells[resolution][self.depth_key].shape, np.float32(np.nan), dtype=np.float32)
+            hypcnt_grid = np.full(self.cells[resolution][self.depth_key].shape, 0, dtype=int)
+            hypratio_grid = np.full(self.cells[resolution][self.depth_key].shape, np.float32(np.nan), dtype=np.float32)
             self.cells[resolution][only_container] = np.full(self.cells[resolution][self.depth_key].shape, np.float32(np.nan), dtype=np.float32)
             self.cells[resolution][only_container + '_density'] = np.full(self.cells[resolution][self.depth_key].shape, 0, dtype=int)
-        else:
-            depth_val = data['z']
+        depth_val = data['z']
         if not isinstance(data, np.ndarray):
             depth_val = depth_val.compute()
 
@@ -479,6 +476,8 @@ class SRTile(Tile):
             data = np.concatenate([self.data, border_data])
         else:
             data = self.data
+        if only_container:
+            data = data[self.container[only_container][0]:self.container[only_container][1]]
         vert_val, horiz_val, depth_val, totalunc_grid, hypcnt_grid, hypratio_grid, cindx = self._cube_grid_algorithm_initialize(data, resolution, only_container=only_container)
         if not isinstance(data, np.ndarray):
             x_val = data['x'].compute()
-- 
2.43.0


From f8092a25a90ab9842d6a66d0498901c1cd5476e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 34/58] fix: layer query with the y locations as tuple

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index e4db19a..338f264 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1829,7 +1829,7 @@ class BathyGrid(BaseGrid):
         asarrays = True
         if isinstance(x_loc, (tuple, list)):
             x_loc = np.array(list(x_loc))
-        if isinstance(y_loc, list):
+        if isinstance(y_loc, (tuple, list)):
             y_loc = np.array(list(y_loc))
         if isinstance(x_loc, np.ndarray) and isinstance(y_loc, np.ndarray) and x_loc.shape != y_loc.shape:
             raise ValueError('x and y locations must be the same shape, x_loc:{} y_loc:{}'.format(x_loc, y_loc))
-- 
2.43.0


From 6460f79d4abd0ac30605658eef2805367ba1c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 35/58] fix: gridding with CUBE without the bathycube module is
 refused before the grid is altered

---
 bathygrid/bgrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 338f264..2fc405a 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -11,6 +11,7 @@ import h5py
 from pyproj import CRS
 from typing import Union
 
+from bathygrid import algorithms
 from bathygrid.grids import BaseGrid
 from bathygrid.tile import SRTile, Tile
 from bathygrid.utilities import bin2d_with_indices, dask_find_or_start_client, print_progress_bar, \
@@ -1520,6 +1521,8 @@ class BathyGrid(BaseGrid):
             raise ValueError('BathyGrid: Grid is empty, no points have been added')
         if algorithm not in ['mean', 'shoalest', 'cube']:
             raise ValueError("Bathygrid: Unrecognized algorithm {}, must be one of ['mean', 'shoalest', 'cube']".format(algorithm))
+        if algorithm == 'cube' and not algorithms.cube_enabled:
+            raise EnvironmentError('BathyGrid: the cube algorithm requires the bathycube module, which was not found!')
         if resolution is not None:
             resolution = float(resolution)
             if not is_power_of_two(resolution):
-- 
2.43.0


From 74e3db67a58a0c1a3f19fb0476c9d35dd4c09552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 36/58] fix: container queries no longer leave layers in the
 grid

---
 bathygrid/tile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 3121507..e9065eb 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -840,6 +840,9 @@ class SRTile(Tile):
             data = np.copy(self.cells[resolution][layer].compute())
         except:
             data = np.copy(self.cells[resolution][layer])
+        if container_query:  # only built for this query, they are not layers of this tile
+            self.cells[resolution].pop(layer)
+            self.cells[resolution].pop(layer + '_density', None)
         if np.count_nonzero(np.isnan(data)) == data.size:
             return None
         if layer.lower() == 'depth' and z_positive_up:
-- 
2.43.0


From 267f96a270289c446d58564ac59be4909cfafa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 37/58] fix: points with the variables in another order can be
 added to existing tiles

---
 bathygrid/tile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index e9065eb..f9d4586 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -282,6 +282,8 @@ class SRTile(Tile):
             self.container[container] = [self.data.size, self.data.size + data.size]
             if not isinstance(self.data, np.ndarray):
                 self.data = self.data.compute()
+            if data.dtype.names != self.data.dtype.names:  # same variables in a different order
+                data = data[list(self.data.dtype.names)]
             self.data = np.concatenate([self.data, data])
             for resolution in self.cell_indices:
                 self.cell_indices[resolution] = np.append(self.cell_indices[resolution], np.full(data.shape, -1))
-- 
2.43.0


From a6ecc240fc92ab5a73baa8f6c5be9110b19a4382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:10 +0000
Subject: [PATCH 38/58] fix: points with other variables than the tiles they
 fall in are refused before the grid is altered

---
 bathygrid/bgrid.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 2fc405a..a673da3 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -681,6 +681,27 @@ class BathyGrid(BaseGrid):
                     self._load_tile(ul, only_points=True)
             self.number_of_tiles = np.count_nonzero(self.tiles != None)
 
+    def _validate_tile_variables(self, data: np.ndarray):
+        """
+        Points can only be added to an existing tile if they have the same variables as the points in that tile.  Check
+        this before the grid is altered.
+
+        Parameters
+        ----------
+        data
+            numpy structured array of the new points
+        """
+
+        if self.tiles is not None:
+            for tile in self.tiles.flat:
+                if isinstance(tile, BathyGrid):
+                    tile._validate_tile_variables(data)
+                elif tile and tile.data is not None and set(tile.data.dtype.names) != set(data.dtype.names):
+                    in_tile = (data['x'] >= tile.min_x) & (data['x'] < tile.max_x) & (data['y'] >= tile.min_y) & (data['y'] < tile.max_y)
+                    if in_tile.any():
+                        raise ValueError('BathyGrid: found variables {} in the provided data, must match the existing points of tile {}: {}'.format(
+                            data.dtype.names, tile.name, tile.data.dtype.names))
+
     def add_points(self, data: Union[xr.Dataset, Array, np.ndarray], container_name: str, file_list: list = None,
                    crs: int = None, vertical_reference: str = None, min_time: float = None, max_time: float = None,
                    progress_bar: bool = True):
@@ -718,6 +739,7 @@ class BathyGrid(BaseGrid):
             raise ValueError('{} is already within this bathygrid instance, remove_points first if you want to replace this data'.format(container_name))
         self.data = data
         self._validate_input_data()
+        self._validate_tile_variables(self.data)
         self._update_metadata(container_name, file_list, crs, vertical_reference, min_time, max_time)
         self._update_base_grid()
         self._update_tiles(container_name, progress_bar)
-- 
2.43.0


From 2afa6bfe2f7ac4865071967dfeea624c77c247f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 39/58] fix: refused points are no longer taken for new points
 by a later remove

---
 bathygrid/bgrid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index a673da3..5ca53bc 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -738,9 +738,13 @@ class BathyGrid(BaseGrid):
         if container_name in self.container:
             raise ValueError('{} is already within this bathygrid instance, remove_points first if you want to replace this data'.format(container_name))
         self.data = data
-        self._validate_input_data()
-        self._validate_tile_variables(self.data)
-        self._update_metadata(container_name, file_list, crs, vertical_reference, min_time, max_time)
+        try:
+            self._validate_input_data()
+            self._validate_tile_variables(self.data)
+            self._update_metadata(container_name, file_list, crs, vertical_reference, min_time, max_time)
+        except Exception:
+            self.data = None  # these points are refused, they must not be seen as new points by later operations
+            raise
         self._update_base_grid()
         self._update_tiles(container_name, progress_bar)
         self._update_mean_depth()
-- 
2.43.0


From c37354dfe69998305b13c9b601c7068e61b4f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 40/58] fix: resolution larger than the gridded tiles is
 refused before the grid is altered

---
 bathygrid/bgrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 5ca53bc..017d122 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1553,6 +1553,9 @@ class BathyGrid(BaseGrid):
             resolution = float(resolution)
             if not is_power_of_two(resolution):
                 raise ValueError('Bathygrid: Resolution must be a power of two, got {}'.format(resolution))
+            smallest_tile = self.tile_size if self.sub_type in ['srtile', 'quadtile'] else self.subtile_size
+            if resolution > smallest_tile:
+                raise ValueError('Bathygrid: Resolution {} is larger than the size of the tiles that are gridded: {}'.format(resolution, smallest_tile))
         elif auto_resolution_mode.lower() not in ['depth', 'density']:
             raise ValueError("Bathygrid: Unrecognized auto_resolution_mode {}, must be one of ['depth', 'density']".format(auto_resolution_mode))
 
-- 
2.43.0


From 78b2fea2ff243cc8f9a2fda23706eb0969c8bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 41/58] fix: create_grid refuses invalid options before the
 folder is made, and sub tiles larger than the tiles

---
 bathygrid/convenience.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bathygrid/convenience.py b/bathygrid/convenience.py
index aba8525..4c670d4 100644
--- a/bathygrid/convenience.py
+++ b/bathygrid/convenience.py
@@ -36,12 +36,6 @@ def _validate_load_path(folder_path: str):
 
 
 def _validate_create_options(folder_path: str, grid_type: str, grid_backend: str, tile_size: float, subtile_size: float):
-    if folder_path:
-        fpath, fname = os.path.split(folder_path)
-        folderpath = create_folder(fpath, fname)
-    else:
-        folderpath = ''
-
     if grid_type not in ['single_resolution', 'variable_resolution_tile']:
         raise ValueError("Grid type {} invalid, must be one of ['single_resolution', 'variable_resolution_tile']".format(grid_type))
     if grid_backend not in ['numpy', 'zarr']:
@@ -50,6 +44,13 @@ def _validate_create_options(folder_path: str, grid_type: str, grid_backend: str
         raise ValueError('Tile size {} must be a power of two'.format(tile_size))
     if grid_type == 'variable_resolution_tile' and not is_power_of_two(subtile_size):
         raise ValueError('Sub tile size {} must be a power of two'.format(subtile_size))
+    if grid_type == 'variable_resolution_tile' and subtile_size > tile_size:
+        raise ValueError('Sub tile size {} must not be larger than the tile size {}'.format(subtile_size, tile_size))
+    if folder_path:
+        fpath, fname = os.path.split(folder_path)
+        folderpath = create_folder(fpath, fname)
+    else:
+        folderpath = ''
     return folderpath
 
 
-- 
2.43.0


From 0b8282a336c92be498a130719141330ee0c02770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 42/58] fix: times that can not be used are refused before the
 grid is altered

---
 bathygrid/bgrid.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 017d122..6688320 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -376,22 +376,21 @@ class BathyGrid(BaseGrid):
             if not (self.vertical_reference.find('MLLW') != -1 and vertical_reference.find('MLLW') != -1):
                 raise ValueError('BathyGrid: Found existing vertical reference {}, new vertical reference {} must match'.format(self.vertical_reference,
                                                                                                                                 vertical_reference))
+        # everything is converted before the grid is altered, rejected values should leave no trace
+        new_epsg, new_min_time, new_max_time = self.epsg, self.min_time, self.max_time
         if epsg:
-            self.epsg = int(epsg)
+            new_epsg = int(epsg)
         if min_time:
             min_time = int(min_time)
             if self.min_time:
-                mintime = min(formatted_string_to_utc_seconds(self.min_time), min_time)
-                self.min_time = utc_seconds_to_formatted_string(mintime)
-            else:
-                self.min_time = utc_seconds_to_formatted_string(min_time)
+                min_time = min(formatted_string_to_utc_seconds(self.min_time), min_time)
+            new_min_time = utc_seconds_to_formatted_string(min_time)
         if max_time:
             max_time = int(max_time)
             if self.max_time:
-                maxtime = max(formatted_string_to_utc_seconds(self.max_time), max_time)
-                self.max_time = utc_seconds_to_formatted_string(maxtime)
-            else:
-                self.max_time = utc_seconds_to_formatted_string(max_time)
+                max_time = max(formatted_string_to_utc_seconds(self.max_time), max_time)
+            new_max_time = utc_seconds_to_formatted_string(max_time)
+        self.epsg, self.min_time, self.max_time = new_epsg, new_min_time, new_max_time
 
         if file_list:
             self.container[container_name] = file_list
-- 
2.43.0


From 6ad0133ccfb51e198931e2d7252631f2f6555b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 43/58] fix: points with variables that are not real numbers
 are refused before the grid is altered

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 6688320..44b2ee9 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2209,6 +2209,8 @@ class OperationalGrid(BathyGrid):
         # everything is validated before the grid is altered, a rejected dataset should leave no trace
         if self.data.size == 0:
             raise ValueError('BathyGrid: no points found in the provided data')
+        if any(self.data.dtype[name].kind not in 'iuf' for name in ['x', 'y', 'z']):
+            raise ValueError('BathyGrid: "x", "y" and "z" must be real numbers, found {}'.format(self.data.dtype))
         if not (np.isfinite(self.data['x']).all() and np.isfinite(self.data['y']).all()):
             raise ValueError('BathyGrid: found "x" or "y" values that are not finite in the provided data')
 
-- 
2.43.0


From 0c8d558ce5feb877faae7afead7d667f613e389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 44/58] fix: points with variables in another order are stored
 in the order of the existing points, so that tiles can be merged

---
 bathygrid/bgrid.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 44b2ee9..5ecaeef 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -4,6 +4,7 @@ import matplotlib.pyplot as plt
 from xml.etree import ElementTree as et
 from xml.dom import minidom
 import numpy as np
+from numpy.lib.recfunctions import repack_fields
 from dask.array import Array
 import xarray as xr
 from datetime import datetime
@@ -701,6 +702,33 @@ class BathyGrid(BaseGrid):
                         raise ValueError('BathyGrid: found variables {} in the provided data, must match the existing points of tile {}: {}'.format(
                             data.dtype.names, tile.name, tile.data.dtype.names))
 
+    def _order_as_tile_variables(self, data: np.ndarray):
+        """
+        Points of different tiles are merged at times (see get_tile_neighbor_points), which needs the variables to be in the
+        same order in all tiles.  Use the order of the existing points.
+
+        Parameters
+        ----------
+        data
+            numpy structured array of the new points
+
+        Returns
+        -------
+        np.ndarray
+            numpy structured array of the new points, with the variables in the order of the existing points
+        """
+
+        if self.tiles is not None:
+            for tile in self.tiles.flat:
+                if isinstance(tile, BathyGrid) and not tile.is_empty:
+                    return tile._order_as_tile_variables(data)
+                elif isinstance(tile, Tile) and tile.data is not None:
+                    names = list(tile.data.dtype.names)
+                    if set(names) == set(data.dtype.names) and names != list(data.dtype.names):
+                        data = repack_fields(data[names])
+                    return data
+        return data
+
     def add_points(self, data: Union[xr.Dataset, Array, np.ndarray], container_name: str, file_list: list = None,
                    crs: int = None, vertical_reference: str = None, min_time: float = None, max_time: float = None,
                    progress_bar: bool = True):
@@ -740,6 +768,7 @@ class BathyGrid(BaseGrid):
         try:
             self._validate_input_data()
             self._validate_tile_variables(self.data)
+            self.data = self._order_as_tile_variables(self.data)
             self._update_metadata(container_name, file_list, crs, vertical_reference, min_time, max_time)
         except Exception:
             self.data = None  # these points are refused, they must not be seen as new points by later operations
-- 
2.43.0


From 57ba4e0945245701fa402181b2db2fa048e58044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 45/58] fix: cube with points that have no uncertainty is
 refused before the grid is altered

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 5ecaeef..2b39003 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1577,6 +1577,8 @@ class BathyGrid(BaseGrid):
             raise ValueError("Bathygrid: Unrecognized algorithm {}, must be one of ['mean', 'shoalest', 'cube']".format(algorithm))
         if algorithm == 'cube' and not algorithms.cube_enabled:
             raise EnvironmentError('BathyGrid: the cube algorithm requires the bathycube module, which was not found!')
+        if algorithm == 'cube' and not (self.has_vertical_uncertainty and self.has_horizontal_uncertainty):
+            raise ValueError('BathyGrid: the cube algorithm requires points with both vertical (tvu) and horizontal (thu) uncertainty')
         if resolution is not None:
             resolution = float(resolution)
             if not is_power_of_two(resolution):
-- 
2.43.0


From 86ba424ba02acd38fe7b3f92d3eddcf4a24280db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 46/58] fix: create_folder makes a folder when the folder with
 the time tag is there already, as for two grids within a second

---
 bathygrid/utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index 09cb0b5..28bcc76 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -97,6 +97,10 @@ def create_folder(output_directory: str, fldrname: str):
             fldr_path = os.path.join(output_directory, fldrname)
         else:
             fldr_path = os.path.join(output_directory, fldrname + '_{}'.format(tstmp))
+            count = 1
+            while os.path.exists(fldr_path):  # more than one folder within this second
+                fldr_path = os.path.join(output_directory, fldrname + '_{}_{}'.format(tstmp, count))
+                count += 1
             os.mkdir(fldr_path)
     return fldr_path
 
-- 
2.43.0


From 5cfa53cb5b04bdcc0c74b2242f6317e174115a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 47/58] fix: geotransform of grids and tiles is not rounded to
 single precision

---
 bathygrid/bgrid.py | 2 +-
 bathygrid/grids.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 2b39003..588fa52 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -340,7 +340,7 @@ class BathyGrid(BaseGrid):
         [x origin, x pixel size, x rotation, y origin, y rotation, -y pixel size]
         """
 
-        parent_transform = [np.float32(self.min_x), resolution, 0, np.float32(self.max_y), 0, -resolution]
+        parent_transform = [float(self.min_x), resolution, 0, float(self.max_y), 0, -resolution]
 
         return parent_transform
 
diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index 5393b5e..dccf86c 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -311,6 +311,6 @@ class TileGrid(Grid):
         [x origin, x pixel size, x rotation, y origin, y rotation, -y pixel size]
         """
         if resolution in self.cells:
-            return [np.float32(self.min_x), resolution, 0, np.float32(self.max_y), 0, -resolution]
+            return [float(self.min_x), resolution, 0, float(self.max_y), 0, -resolution]
         else:
             return None
-- 
2.43.0


From 68045cf8f014cfd03525ce115a31952ee898d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 48/58] fix: tile boundaries are not rounded to single
 precision

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 588fa52..490f06b 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -946,8 +946,8 @@ class BathyGrid(BaseGrid):
         """
 
         cellboundaries_x, cellboundaries_y = np.meshgrid(self.tile_edges_x, self.tile_edges_y)
-        total_x = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5), dtype=np.float32)
-        total_y = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5), dtype=np.float32)
+        total_x = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5))
+        total_y = np.zeros((cellboundaries_x.shape[0], cellboundaries_x.shape[1] * 5))
         total_x[:, ::5] = cellboundaries_x
         total_y[:, ::5] = cellboundaries_y
         total_x[:, 1::5] = cellboundaries_x + self.tile_size
-- 
2.43.0


From 1175a6cd9b9c1f141d8557bc9759bc16fe18dfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 49/58] fix: a tile that is gridded again with other CUBE
 options remembers them for container queries

---
 bathygrid/tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index f9d4586..091b2b9 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -736,9 +736,9 @@ class SRTile(Tile):
             self.clear_grid()
         self._clear_temp_data(resolution)
 
+        self.grid_parameters = grid_parameters
         if resolution not in self.cells or algorithm != self.algorithm:
             self.algorithm = algorithm
-            self.grid_parameters = grid_parameters
             self.new_grid(resolution, algorithm)
         if not isinstance(self.cell_edges_x[resolution], np.ndarray):
             self.cell_edges_x[resolution] = self.cell_edges_x[resolution].compute()
-- 
2.43.0


From 26948b7fc385b180bc91dd9e4f7602173688bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 50/58] fix: file lists and grid parameters that are handed in
 are copied, the caller can go on to use them

---
 bathygrid/bgrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 490f06b..4dbd107 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1,4 +1,5 @@
 import os
+import copy
 from dask.distributed import wait, progress
 import matplotlib.pyplot as plt
 from xml.etree import ElementTree as et
@@ -394,7 +395,7 @@ class BathyGrid(BaseGrid):
         self.epsg, self.min_time, self.max_time = new_epsg, new_min_time, new_max_time
 
         if file_list:
-            self.container[container_name] = file_list
+            self.container[container_name] = copy.copy(file_list)  # the caller might go on to use this list
         else:
             self.container[container_name] = ['Unknown']
         self.container_timestamp[container_name] = datetime.utcnow().strftime('%Y%m%d_%H%M%S')
@@ -1591,7 +1592,7 @@ class BathyGrid(BaseGrid):
 
         self.grid_algorithm = algorithm
         self.grid_resolution = resolution
-        self.grid_parameters = grid_parameters
+        self.grid_parameters = copy.copy(grid_parameters)  # the caller might go on to use this dict
         auto_resolution = ''
         if resolution is None:
             auto_resolution = auto_resolution_mode.lower()
-- 
2.43.0


From aebb8a1b055e69424ee48dd69c12fa891d2abffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 51/58] fix: altering the attribution or the resolutions that
 are handed out no longer alters the grid

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 4dbd107..264d2d7 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1608,7 +1608,7 @@ class BathyGrid(BaseGrid):
             self._grid_parallel(algorithm, resolution, clear_existing, regrid_option, auto_resolution=auto_resolution, progress_bar=progress_bar, border_data=border_data)
         else:
             self._grid_regular(algorithm, resolution, clear_existing, regrid_option, auto_resolution=auto_resolution, progress_bar=progress_bar, border_data=border_data)
-        return self.resolutions
+        return list(self.resolutions)
 
     def plot(self, layer: str = 'depth', resolution: float = None):
         """
@@ -2513,4 +2513,4 @@ class OperationalGrid(BathyGrid):
                                                                           'multibeam_lines': self.container[nearest_cont_name[0]]}
                     else:
                         raise ValueError('Unable to find entry for container {}, if you have a suffix with a _ and a number, bathygrid will interpret that as an index starting with 0'.format(cont_name))
-        return data
+        return copy.deepcopy(data)  # the lists are those of the grid, keep the caller from altering them
-- 
2.43.0


From 66a2c7166d6eb5b545131cd9a22e260944d4b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 52/58] fix: layer query at a location that is given as numpy
 scalars

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 264d2d7..91e5a70 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1896,7 +1896,7 @@ class BathyGrid(BaseGrid):
             y_loc = np.array(list(y_loc))
         if isinstance(x_loc, np.ndarray) and isinstance(y_loc, np.ndarray) and x_loc.shape != y_loc.shape:
             raise ValueError('x and y locations must be the same shape, x_loc:{} y_loc:{}'.format(x_loc, y_loc))
-        if isinstance(x_loc, (float, int)) or isinstance(y_loc, (float, int)):
+        if isinstance(x_loc, (float, int, np.number)) or isinstance(y_loc, (float, int, np.number)):
             try:
                 x_loc = float(x_loc)
                 y_loc = float(y_loc)
-- 
2.43.0


From 84e4acf196c593f8df7be3bd42c5859ee3459e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 53/58] fix: grid that is loaded from the older metadata
 without a tile mask is saved so that it can be opened again

---
 bathygrid/backends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index e9e47b4..7404388 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -63,7 +63,7 @@ class BaseStorage(OperationalGrid):
             data.pop('output_folder')
         for ky in bathygrid_numpy_to_list:
             try:  # the old way prior to 1.1.2 was to store these in json, but they are too large really
-                data[ky] = np.array(data[ky])
+                data[ky] = np.array([] if data[ky] is None else data[ky])  # empty as below, the mask is not set for a grid that never grew
             except KeyError:
                 data[ky] = self._load_array(folderpath + '/{}'.format(ky)).compute()
                 tmpdata = np.array(data[ky])
-- 
2.43.0


From 44b3475dbadc32bf546020e8519049933e41b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 54/58] fix: mean depth after an addition that failed with a
 disk error and was removed again

---
 bathygrid/bgrid.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 91e5a70..04ef67a 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -774,11 +774,13 @@ class BathyGrid(BaseGrid):
         except Exception:
             self.data = None  # these points are refused, they must not be seen as new points by later operations
             raise
-        self._update_base_grid()
-        self._update_tiles(container_name, progress_bar)
-        self._update_mean_depth()
-        self._save_grid()  # mean_depth and number_of_tiles are updated after the points are added, so flush them too
-        self.data = None  # points are in the tiles, clear this attribute to free up memory
+        try:
+            self._update_base_grid()
+            self._update_tiles(container_name, progress_bar)
+            self._update_mean_depth()
+            self._save_grid()  # mean_depth and number_of_tiles are updated after the points are added, so flush them too
+        finally:  # also when writing to disk failed, they must not be seen as new points by later operations
+            self.data = None  # points are in the tiles, clear this attribute to free up memory
 
     def _remove_tile(self, flat_index: int):
         """
-- 
2.43.0


From 56b748e094c3c6da28def471bb00a5a8e4e8a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 55/58] fix: removal of a container that failed with a disk
 error can be repeated

---
 bathygrid/bgrid.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 04ef67a..54466b4 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -809,8 +809,6 @@ class BathyGrid(BaseGrid):
         """
 
         if container_name in self.container:
-            self.container.pop(container_name)
-            self.container_timestamp.pop(container_name)
             if not self.is_empty:
                 flat_tiles = self.tiles.ravel()
                 if progress_bar:
@@ -826,11 +824,19 @@ class BathyGrid(BaseGrid):
                         # just save and reload the points
                         self._save_tile(flat_tiles[cnt], cnt, only_points=True)
                         self._load_tile(cnt, only_points=True)
+            # only now that it is gone from all tiles, so that a removal that failed with a disk error can be repeated
+            file_list = self.container.pop(container_name)
+            timestamp = self.container_timestamp.pop(container_name)
             if self.is_empty:
                 self.tiles = None
             self._update_resolutions()
             self._update_mean_depth()
-            self._save_grid()
+            try:
+                self._save_grid()
+            except BaseException:
+                self.container[container_name] = file_list
+                self.container_timestamp[container_name] = timestamp
+                raise
 
     def get_tiles_by_resolution(self, resolution: float = None, layer: Union[str, list] = 'depth',
                                 nodatavalue: float = np.float32(np.nan), z_positive_up: bool = False):
-- 
2.43.0


From 737aca4d0dd298b5a7e1fbd2f42c4cd479f24562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 56/58] fix: update after a gridding that failed with a disk
 error includes the tiles that were not written

---
 bathygrid/bgrid.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 54466b4..a8cec58 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1612,10 +1612,17 @@ class BathyGrid(BaseGrid):
                     resolution = self.resolution_by_density()
         self.resolutions = []
 
-        if use_dask:
-            self._grid_parallel(algorithm, resolution, clear_existing, regrid_option, auto_resolution=auto_resolution, progress_bar=progress_bar, border_data=border_data)
-        else:
-            self._grid_regular(algorithm, resolution, clear_existing, regrid_option, auto_resolution=auto_resolution, progress_bar=progress_bar, border_data=border_data)
+        to_grid = [cnt for cnt, tile in enumerate(self.tiles.flat) if isinstance(tile, SRTile) and
+                   (tile.point_count_changed or clear_existing or regrid_option != 'update')]
+        try:
+            if use_dask:
+                self._grid_parallel(algorithm, resolution, clear_existing, regrid_option, auto_resolution=auto_resolution, progress_bar=progress_bar, border_data=border_data)
+            else:
+                self._grid_regular(algorithm, resolution, clear_existing, regrid_option, auto_resolution=auto_resolution, progress_bar=progress_bar, border_data=border_data)
+        except BaseException:  # tiles might be gridded but not written to disk (disk error), have the next update include them
+            for cnt in to_grid:
+                self.tiles.flat[cnt].point_count_changed = True
+            raise
         return list(self.resolutions)
 
     def plot(self, layer: str = 'depth', resolution: float = None):
-- 
2.43.0


From 0644668f2f835521fc014d522e5c6c2a6c21c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 57/58] fix: number of tiles after removing an addition that
 failed with a disk error

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index a8cec58..d36a0d8 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -792,8 +792,8 @@ class BathyGrid(BaseGrid):
         if tile:
             if self.existing_tile_mask is not None and self.existing_tile_mask.any():
                 self.existing_tile_mask.flat[flat_index] = False
-            self.number_of_tiles -= 1
             self.tiles.flat[flat_index] = None
+            self.number_of_tiles = np.count_nonzero(self.tiles != None)  # not yet counted if adding points failed with a disk error
 
     def remove_points(self, container_name: str = None, progress_bar: bool = True):
         """
-- 
2.43.0


From a5e33950312422f4212337e703fb92060aa7100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 58/58] fix: removal that failed while deleting a tile folder
 can be repeated

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index d36a0d8..4aa126b 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -809,7 +809,7 @@ class BathyGrid(BaseGrid):
         """
 
         if container_name in self.container:
-            if not self.is_empty:
+            if self.tiles is not None:  # also visit tiles that are None, deleting their folder might have failed in an earlier removal
                 flat_tiles = self.tiles.ravel()
                 if progress_bar:
                     print_progress_bar(0, len(flat_tiles), 'Removing {}:'.format(container_name))
-- 
2.43.0

