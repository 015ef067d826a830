From d5fa61d66ac283f5bb7a3f95dab73d7255f164bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 01/25] fix: let the Cython depression filling visit every
 interior row and column

The loops treated torow/tocol as exclusive, unlike the pure Python
implementation, so sweeps skipped cells and filling stopped before the
minimal depressionless surface was reached. DEMs with 3 rows or columns
could not be processed at all.
---
 malstroem/algorithms/speedups/_fill.pyx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/malstroem/algorithms/speedups/_fill.pyx b/malstroem/algorithms/speedups/_fill.pyx
index 293699a..5b664ce 100644
--- a/malstroem/algorithms/speedups/_fill.pyx
+++ b/malstroem/algorithms/speedups/_fill.pyx
@@ -28,8 +28,6 @@ cimport cython
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILL, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
 
@@ -38,11 +36,12 @@ def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYP
 
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    # torow and tocol are inclusive
+    while row != torow + rowstep:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while col != tocol + colstep:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if(filled_value > dtm_value):
@@ -72,8 +71,6 @@ def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYP
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain_no_flats(np.ndarray[DTYPE_t_DTM, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILLNOFLAT, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol, DTYPE_t_FILLNOFLAT short, DTYPE_t_FILLNOFLAT diag):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
 
@@ -82,11 +79,12 @@ def _fill_terrain_no_flats(np.ndarray[DTYPE_t_DTM, ndim=2] dtm not None, np.ndar
 
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    # torow and tocol are inclusive
+    while row != torow + rowstep:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while col != tocol + colstep:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if filled_value > dtm_value:
-- 
2.43.0


From 14028c05434ef2efefab76ee20c82ce5e10ec3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 02/25] fix: BluespotTool failed when no filter function was
 given

---
 malstroem/bluespots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malstroem/bluespots.py b/malstroem/bluespots.py
index aa861be..d45455f 100644
--- a/malstroem/bluespots.py
+++ b/malstroem/bluespots.py
@@ -160,7 +160,8 @@ class BluespotTool(object):
         raw_bluespot_stats = label.label_stats(depths, raw_labeled)
         if not self.input_bluespot_filter_function:
             self.logger.info("Final number of bluespots (No filter specified): {}".format(raw_nlabels))
-            self.output_labeled_raster.write(raw_labeled)
+            labeled, nlabels, bluespot_stats = raw_labeled, raw_nlabels, raw_bluespot_stats
+            self.output_labeled_raster.write(labeled)
         else:
             self.logger.info("Number of bluespots found before filtering: {}".format(raw_nlabels))
             self.logger.info("Calculating filtered bluespots")
-- 
2.43.0


From 0a7cdc783bfda2564405c4f6e32a85b77007d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 03/25] fix: fill DEMs whose data type is not float32

The Cython sweeps only accept float32 terrain, so 'filled', 'flowdir',
'pourpts -dem' and 'complete' failed on float64 and integer DEMs. Convert
to the DEM data type the way DemTool already does.
---
 malstroem/algorithms/fill.py | 5 ++++-
 malstroem/scripts/dem.py     | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/malstroem/algorithms/fill.py b/malstroem/algorithms/fill.py
index 2002ce4..5e31c7f 100644
--- a/malstroem/algorithms/fill.py
+++ b/malstroem/algorithms/fill.py
@@ -14,7 +14,7 @@
 from __future__ import (absolute_import, division, print_function) #, unicode_literals)
 from builtins import *
 import numpy as np
-from .dtypes import DTYPE_FILL, DTYPE_FILLNOFLAT
+from .dtypes import DTYPE_DTM, DTYPE_FILL, DTYPE_FILLNOFLAT
 
 
 def _fill_terrain(dtm, filled, fromrow, torow, fromcol, tocol):
@@ -131,6 +131,7 @@ def fill_terrain(dtm):
         Depressionless DEM
 
     """
+    dtm = dtm.astype(DTYPE_DTM, casting='same_kind', copy=False)
     filled = _initialize_filled(dtm, DTYPE_FILL)
 
     keep_going = True
@@ -192,6 +193,7 @@ def fill_terrain_no_flats(dtm, short=0, diag=0):
     -------
 
     """
+    dtm = dtm.astype(DTYPE_DTM, casting='same_kind', copy=False)
     filled = _initialize_filled(dtm, DTYPE_FILLNOFLAT)
 
     keep_going = True
@@ -243,6 +245,7 @@ def minimum_safe_short_and_diag(dem):
     -------
 
     """
+    dem = dem.astype(DTYPE_DTM, casting='same_kind', copy=False)
     maxval = DTYPE_FILLNOFLAT(max(abs(np.amax(dem)), abs(np.amin(dem))))
     nextval = np.nextafter(maxval, DTYPE_FILLNOFLAT(float('inf')))
     short = (nextval - maxval) * (1024 if DTYPE_FILLNOFLAT == np.float64 else 10)
diff --git a/malstroem/scripts/dem.py b/malstroem/scripts/dem.py
index c186b2e..0700b1b 100644
--- a/malstroem/scripts/dem.py
+++ b/malstroem/scripts/dem.py
@@ -18,7 +18,7 @@ import click
 import click_log
 
 from malstroem import io
-from malstroem.algorithms import fill, flow
+from malstroem.algorithms import dtypes, fill, flow
 
 NODATASUBST = -999
 
@@ -49,7 +49,9 @@ def process_depths(dem, filled, out):
     filled_reader = io.RasterReader(filled, nodatasubst=NODATASUBST)
     depths_writer = io.RasterWriter(out, dem_reader.transform, dem_reader.crs, NODATASUBST)
 
-    depths_data = filled_reader.read() - dem_reader.read()
+    # The filled DEM was derived from the DEM in this data type
+    dem_data = dem_reader.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
+    depths_data = filled_reader.read() - dem_data
 
     depths_writer.write(depths_data)
 
-- 
2.43.0


From 21db99982c97b91a38368254f759906b8e7cdd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 04/25] fix: substitute nodata also when the nodata value is 0

---
 malstroem/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 91b193b..bd43325 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -75,7 +75,7 @@ class RasterReader(object):
         ndarray
         """
         data = self._bnd.ReadAsArray()
-        if self.nodata and self.nodatasubst is not None:
+        if self.nodata is not None and self.nodatasubst is not None:
             mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
             data[mask] = self.nodatasubst
         return data
-- 
2.43.0


From 6c4faebe1fbf919822484b4c1fb2d4a311d62806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 05/25] fix: nodata substitute wrapped around in unsigned
 rasters

---
 malstroem/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index bd43325..464ff87 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -77,6 +77,9 @@ class RasterReader(object):
         data = self._bnd.ReadAsArray()
         if self.nodata is not None and self.nodatasubst is not None:
             mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
+            # The substitute may not fit in the data type (eg a negative value in an unsigned raster)
+            dtype = np.result_type(data.dtype, np.min_scalar_type(self.nodatasubst))
+            data = data.astype(dtype, copy=False)
             data[mask] = self.nodatasubst
         return data
 
-- 
2.43.0


From e110f66426c0e5cca47d81cf3e9615f7335493c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 06/25] fix: stop tracing accumulated flow at cells without a
 flow direction

Pure Python raised TypeError and the Cython version continued in a
direction taken from uninitialised memory.
---
 malstroem/algorithms/flow.py            | 2 ++
 malstroem/algorithms/speedups/_flow.pyx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/malstroem/algorithms/flow.py b/malstroem/algorithms/flow.py
index 180788a..2c84c47 100644
--- a/malstroem/algorithms/flow.py
+++ b/malstroem/algorithms/flow.py
@@ -338,6 +338,8 @@ def trace_accumulated_flow(flowdir, accum, cell):
         accum[cell[0], cell[1]] = s + 1
         # Go to downstream cell
         direction = flowdir[cell[0], cell[1]]
+        if direction == FLOWDIR_NODIR:
+            break
         cell = cell_in_direction(cell, direction)
 
 
diff --git a/malstroem/algorithms/speedups/_flow.pyx b/malstroem/algorithms/speedups/_flow.pyx
index 8281447..a47de16 100644
--- a/malstroem/algorithms/speedups/_flow.pyx
+++ b/malstroem/algorithms/speedups/_flow.pyx
@@ -244,6 +244,8 @@ cdef void trace_accumulated_flow_cython(DTYPE_t_FLOWDIR[:,:] flowdir, DTYPE_t_AC
         accum[cell.r, cell.c] = s + 1
         # Go to downstream cell
         downstream_direction = flowdir[cell.r, cell.c]
+        if downstream_direction == AGNPS_NODIR:
+            return
         cell = cell_in_direction_cython(cell, downstream_direction)
 
 
-- 
2.43.0


From 3b9a6af2a6b995374a00a13a78011868f4763fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 07/25] fix: Cython label_data ignored the background argument

---
 malstroem/algorithms/speedups/_label.pyx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/malstroem/algorithms/speedups/_label.pyx b/malstroem/algorithms/speedups/_label.pyx
index 7936d49..1ce4a48 100644
--- a/malstroem/algorithms/speedups/_label.pyx
+++ b/malstroem/algorithms/speedups/_label.pyx
@@ -190,6 +190,8 @@ cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] lab
     cdef np.float32_t val
     cdef np.int32_t lbl, background_lbl
 
+    background_lbl = background
+
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(FloatArray() for i in range(max_label + 1))
     
@@ -198,7 +200,7 @@ cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] lab
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <FloatArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -212,6 +214,8 @@ cdef label_data_float64_int32_cython(np.float64_t[:,:] data, np.int32_t[:,:] lab
     cdef np.float64_t val
     cdef np.int32_t lbl, background_lbl
     
+    background_lbl = background
+
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
     
@@ -220,7 +224,7 @@ cdef label_data_float64_int32_cython(np.float64_t[:,:] data, np.int32_t[:,:] lab
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -233,6 +237,8 @@ cdef label_data_fallback_cython(data, labels, max_label, background):
     cdef np.float64_t val
     cdef np.int64_t lbl, background_lbl
     
+    background_lbl = background
+
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
     
@@ -241,7 +247,7 @@ cdef label_data_fallback_cython(data, labels, max_label, background):
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
-- 
2.43.0


From b7df5483064a7ba55cb9b375cf476119849e9d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 08/25] fix: hypsometry histograms dropped cells below zero and
 at rounded bin edges

int() truncates towards zero, so for negative elevations the first bin
started above zmin and the lowest cells were not counted.
---
 malstroem/hyps.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/malstroem/hyps.py b/malstroem/hyps.py
index 352b666..db816b1 100644
--- a/malstroem/hyps.py
+++ b/malstroem/hyps.py
@@ -10,6 +10,7 @@
 # You should have received a copy of the GNU General Public License along with this program. If not,
 # see http://www.gnu.org/licenses/.
 # -------------------------------------------------------------------------------------------------
+import math
 import numpy as np
 import logging
 from collections import namedtuple
@@ -88,10 +89,16 @@ def cumulative_volume(h : Histogram, cell_area : float):
 
 def histogram_bins(zmin, zmax, resolution):
     scale = 1 / resolution
-    min_scaled = int(zmin * scale)
-    max_scaled = int(zmax * scale)
+    # Round downwards, also below zero
+    min_scaled = math.floor(zmin * scale)
+    max_scaled = math.floor(zmax * scale)
+    # Floating point rounding must not leave zmin below the first bin or zmax above the last
+    if min_scaled * resolution > zmin:
+        min_scaled -= 1
     num_bins = max_scaled - min_scaled + 1
     lower_bound = min_scaled * resolution
+    if lower_bound + num_bins * resolution < zmax:
+        num_bins += 1
     upper_bound = lower_bound + num_bins * resolution
     bins = HistogramBinsInfo(num_bins, lower_bound, upper_bound, resolution)
     return bins
-- 
2.43.0


From 3d605e29d6eaaa99b465388a3a75ce135385de4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 09/25] fix: water level estimate topped out at the highest
 terrain cell

A full bluespot stands at zmin + bspot_dmax, not at the Z of its highest
cell. A nearly full single cell bluespot was reported as dry.
---
 malstroem/approx.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index 98ff03b..f0ff9f5 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -48,7 +48,6 @@ def approx_water_level_io(finalvols_reader, hyps_reader, levels_writer):
         h = parse_hyps_feature(hyps_index[bsid])
 
         zmin = h["hyps"].zmin
-        zmax = h["hyps"].zmax
         max_vol = h["max_vol"]
         water_level = None
         if max_vol == 0 or final_vol / max_vol > 0.9999:
@@ -60,9 +59,9 @@ def approx_water_level_io(finalvols_reader, hyps_reader, levels_writer):
             cum_vol = _cumulative_volume(h["hyps"].zhistogram, h["cell_area"])
             # Z value of centre of each histogram bin
             binsz = _bin_waterlevel_z(h["hyps"].zhistogram.bins)
-            # Replace bounds with acutal values. Zero volume at zmin and max_volume at zmax
+            # Replace bounds with acutal values. Zero volume at zmin and max_volume at the maximum water level
             volumes = np.concatenate(([0.0], cum_vol[1:-1], [max_vol]))
-            z = np.concatenate(([zmin], binsz[1:-1], [zmax])) 
+            z = np.concatenate(([zmin], binsz[1:-1], [zmin + h["max_depth"]]))
             # Now interpolate for final_vol
             water_level = np.interp([final_vol], volumes, z)[0]
         assert water_level is not None, "Water level calculation failed"
-- 
2.43.0


From c1fab327630811e186de93a31777178e25833b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 10/25] fix: accept initvolumes -mm 0

---
 malstroem/scripts/initvolume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/malstroem/scripts/initvolume.py b/malstroem/scripts/initvolume.py
index 99b2134..e909007 100644
--- a/malstroem/scripts/initvolume.py
+++ b/malstroem/scripts/initvolume.py
@@ -58,9 +58,9 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
     For documentation of OGR features (format, dsco and lco) see http://www.gdal.org/ogr_formats.html
     """
     # Validate one and only one
-    if mm and pr:
+    if mm is not None and pr:
         raise click.UsageError("-mm and -pr are mutually exclusive")
-    if not mm and not pr:
+    if mm is None and not pr:
         raise click.UsageError("One of -mm and -pr must be specified")
 
     nodes_layer = nodes_layer
@@ -71,7 +71,7 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
     nodes_reader = io.VectorReader(nodes, nodes_layer)
     volumes_writer = io.VectorWriter(format, out, out_layer, None, ogr.wkbPoint, nodes_reader.crs, dsco, lco) 
 
-    if mm:
+    if mm is not None:
         logger.info(f"Processing initial volumes using evenly distributed rain event of {mm}mm")
         rain_tool = raintool.SimpleVolumeTool(nodes_reader, volumes_writer, out_attribute, mm)
         rain_tool.process()
-- 
2.43.0


From f783ffe85389f94e47d4089d396b637469e6fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 11/25] fix: -dsco and -lco did not accept a value

With nargs=0 the options could not be used at all.
---
 malstroem/scripts/bluespot.py   | 8 ++++----
 malstroem/scripts/finalstate.py | 8 ++++----
 malstroem/scripts/hyps.py       | 4 ++--
 malstroem/scripts/initvolume.py | 4 ++--
 malstroem/scripts/stream.py     | 4 ++--
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 861feae..4668856 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -94,8 +94,8 @@ def process_wsheds(bluespots, flowdir, out):
 @click.option('-out', required=True, type=str, help='Output OGR datasource')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR format. See OGR documentation')
 @click.option('-layername', type=str, default='pourpoints', show_default=True, help='Output layer name')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, layername, dsco, lco):
     """Determine pour points.
 
@@ -149,8 +149,8 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
 @click.option('-out', required=True, type=str, help='Output OGR datasource')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR format. See OGR documentation')
 @click.option('-layername', type=str, default='polygonized', show_default=True, help='Output layer name')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 def process_polys(raster, out, format, layername, dsco, lco):
     """Polygonize ID raster.
 
diff --git a/malstroem/scripts/finalstate.py b/malstroem/scripts/finalstate.py
index cfd639e..0fe21ab 100644
--- a/malstroem/scripts/finalstate.py
+++ b/malstroem/scripts/finalstate.py
@@ -33,8 +33,8 @@ NODATASUBST = -999
 @click.option('-out', required=True, help='Output OGR datasource')
 @click.option('-out_layer', default='finalvolumes', show_default=True, help='Layer name of output final state volumes layer')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_net(inputvolumes, inputvolumes_layer, attribute, out, out_layer, format, dsco, lco):
     """Bluespot fill and stream network volumes in the final state of an event.
@@ -69,8 +69,8 @@ def process_net(inputvolumes, inputvolumes_layer, attribute, out, out_layer, for
 @click.option('-out', required=True, help='Output OGR datasource (output is nongeometric)')
 @click.option('-out_layer', default='finallevels', show_default=True, help='Layer name of output final state bluespot water level info')
 @click.option('-format', type=str, default='geojson', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_finallevels(finalvols, finalvols_layer, hyps, hyps_layer, out, out_layer, format, dsco, lco):
     """Approximate water levels of bluespots in the final state.
diff --git a/malstroem/scripts/hyps.py b/malstroem/scripts/hyps.py
index 5050d2a..e658a14 100644
--- a/malstroem/scripts/hyps.py
+++ b/malstroem/scripts/hyps.py
@@ -27,8 +27,8 @@ NODATASUBST = -999
 @click.option('-out', required=True, help='Output OGR datasource')
 @click.option('-out_hyps_layer', default='hyps', show_default=True, help='Layer name of output hypsometry layer')
 @click.option('-format', type=str, default='CSV', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_hypsometry(bluespots, dem, pourpoints, pourpoints_layer, zresolution, out, out_hyps_layer, format, dsco, lco):
     """Statistical terrain elevation measures for each bluespot.
diff --git a/malstroem/scripts/initvolume.py b/malstroem/scripts/initvolume.py
index e909007..fe7951c 100644
--- a/malstroem/scripts/initvolume.py
+++ b/malstroem/scripts/initvolume.py
@@ -42,8 +42,8 @@ logger = logging.getLogger(__name__)
 @click.option('-out_layer', default='initvolumes', show_default=True, help='Calculated model input volumes in [m3]')
 @click.option('-out_attribute', default='inputv', show_default=True, help='Name of output attribute')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_layer, out_attribute, format, dsco, lco):
     """Set up initial water volumes for each watershed.
diff --git a/malstroem/scripts/stream.py b/malstroem/scripts/stream.py
index ac5cc7c..a4ae8a5 100644
--- a/malstroem/scripts/stream.py
+++ b/malstroem/scripts/stream.py
@@ -35,8 +35,8 @@ from malstroem import io, streams
 @click.option('-out_nodes_layer', default='nodes', show_default=True, help='Layer name of output nodes layer')
 @click.option('-out_streams_layer', default='streams',show_default=True, help='Layer name of output streams layer')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_network(bluespots, flowdir, pourpoints, pourpoints_layer, out, out_nodes_layer, out_streams_layer, format, dsco, lco):
     """Calculate stream network between bluespots.
-- 
2.43.0


From 19c46e464d759d9d94dc8e8a86554aaa2bbfa593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 12/25] fix: hyps ignored -dsco and -lco

---
 malstroem/scripts/hyps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/scripts/hyps.py b/malstroem/scripts/hyps.py
index e658a14..4b4946d 100644
--- a/malstroem/scripts/hyps.py
+++ b/malstroem/scripts/hyps.py
@@ -48,6 +48,6 @@ def process_hypsometry(bluespots, dem, pourpoints, pourpoints_layer, zresolution
     dem_reader = io.RasterReader(dem, nodatasubst=NODATASUBST)
 
     ogr_format = str(format)
-    hyps_writer = io.VectorWriter(ogr_format, out, out_hyps_layer, None, ogr.wkbNone, dem_reader.crs)
+    hyps_writer = io.VectorWriter(ogr_format, out, out_hyps_layer, None, ogr.wkbNone, dem_reader.crs, dsco, lco)
 
     hyps.bluespot_hypsometry_io(labeled_reader, dem_reader, pourpoints_reader, zresolution, hyps_writer)
\ No newline at end of file
-- 
2.43.0


From 8a039058e3bf3903ad1fcaafe910186171f3aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 13/25] fix: complete exited with status 0 when it refused a
 non-empty outdir

---
 malstroem/scripts/complete.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/malstroem/scripts/complete.py b/malstroem/scripts/complete.py
index 4a2538a..763f227 100644
--- a/malstroem/scripts/complete.py
+++ b/malstroem/scripts/complete.py
@@ -45,8 +45,7 @@ def process_all(dem, outdir, accum, filter, mm, zresolution, vector):
     """
     # Check that outdir exists and is empty
     if not os.path.isdir(outdir) or not os.path.exists(outdir) or os.listdir(outdir):
-        logger.error("outdir isn't an empty directory")
-        return 1
+        raise click.UsageError("outdir isn't an empty directory")
 
     outvector = os.path.join(outdir, 'malstroem.gpkg')
     ogr_drv = 'gpkg'
-- 
2.43.0


From 8b6ff451d0233b3f6fa0d023077cb86e77be2134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 14/25] fix: writing an empty feature list failed for
 transactional OGR formats

complete -vector crashed when no bluespot was left after filtering.
---
 malstroem/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 464ff87..a2da2b9 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -346,7 +346,9 @@ class VectorWriter(object):
             raise Exception('Error while writing to layer {}'.format(self.layername))
 
     def close(self):
-        self._lyr.CommitTransaction()
+        # The transaction is started when the first feature is written
+        if self.fieldsinitialized:
+            self._lyr.CommitTransaction()
         self._lyr = None
         self._ds = None
 
-- 
2.43.0


From 24d845d81693962f7357753fd408a279962fa3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 15/25] fix: nodata cells of the precipitation raster counted
 as water

---
 malstroem/scripts/initvolume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/scripts/initvolume.py b/malstroem/scripts/initvolume.py
index fe7951c..b8fa9e8 100644
--- a/malstroem/scripts/initvolume.py
+++ b/malstroem/scripts/initvolume.py
@@ -79,7 +79,7 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
         if not bluespots:
             raise click.UsageError("Mising -bluespots")
         logger.info(f"Processing initial volumes using [{pr_unit}] raster input from {pr}")
-        precip_reader = io.RasterReader(pr)
+        precip_reader = io.RasterReader(pr, nodatasubst=0)
         bspotlabels_reader = io.RasterReader(bluespots)
         tool = raintool.RasterVolumeTool(nodes_reader, bspotlabels_reader, precip_reader, pr_unit, volumes_writer, out_attribute)
         tool.process()
-- 
2.43.0


From 3e8ee90684134bdbb46c2f912fc24a226c59e372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 16/25] fix: recursion limit exceeded on streams with many
 successive junctions

---
 malstroem/algorithms/net.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/malstroem/algorithms/net.py b/malstroem/algorithms/net.py
index 4d688da..67d5645 100644
--- a/malstroem/algorithms/net.py
+++ b/malstroem/algorithms/net.py
@@ -126,14 +126,16 @@ def _untangle(nodes, next_available_label):
     -------
 
     """
-    for group in _split_into_common_flow_groups(nodes, 2):
+    # Explicit stack of groups left to handle. Junctions can be nested deeper than the recursion limit
+    stack = _split_into_common_flow_groups(nodes, 2)[::-1]
+    while stack:
+        group = stack.pop()
         if len(group) > 1:
             # Group of nodes with common flow
             untangled_nodes, new_node = _prune_common_flow(group, next_available_label)
             next_available_label = next_available_label + 1
             yield new_node, next_available_label
-            for n, next_available_label in _untangle(untangled_nodes, next_available_label):
-                yield n, next_available_label
+            stack.extend(_split_into_common_flow_groups(untangled_nodes, 2)[::-1])
         else:
             # This node doesnt have common flow with other nodes
             yield group[0], next_available_label
-- 
2.43.0


From f91065a28a04bcbc496dbd1f8fe1e99a7d013fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 17/25] fix: stream network did not honour bspot_id of the pour
 points

Pour points were matched to bluespots by their order in the layer.
---
 malstroem/streams.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/malstroem/streams.py b/malstroem/streams.py
index 885c80c..6500cde 100644
--- a/malstroem/streams.py
+++ b/malstroem/streams.py
@@ -65,13 +65,11 @@ class StreamTool(object):
         labeled_bluespots = self.input_bluespots.read()
         pourpoints = self.input_pourpoints.read_geojson_features()
 
-        pourpoints_pix = [(pp['properties']['cell_row'], pp['properties']['cell_col']) for pp in pourpoints]
-
         self.logger.info("Processing stream network")
         if self.output_streams is not None:
-            nodes = net.geometric_pourpoint_network(flowdir, labeled_bluespots, pourpoints_pix, 0)
+            nodes = net.geometric_pourpoint_network(flowdir, labeled_bluespots, pourpoints, 0)
         else:
-            nodes = net.pourpoint_network(flowdir, labeled_bluespots, pourpoints_pix, 0)
+            nodes = net.pourpoint_network(flowdir, labeled_bluespots, pourpoints, 0)
 
         self.logger.info("Writing {} nodes".format(len(nodes)))
         pp_index = {pp['properties']['bspot_id']: pp for pp in pourpoints}
-- 
2.43.0


From a1294076c9d2c5ec1546bd0dba5eccaaf2b5f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 18/25] fix: bluespots removed by the filter still added
 capacity to the background node

The documentation says their capacity is not taken into account, but
their depths were summed up as the volume of bluespot 0.
---
 malstroem/bluespots.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/malstroem/bluespots.py b/malstroem/bluespots.py
index d45455f..e77c916 100644
--- a/malstroem/bluespots.py
+++ b/malstroem/bluespots.py
@@ -78,6 +78,10 @@ def assemble_pourpoints(transform, pp_pix, bluespot_stats, watershed_stats):
         p['bspot_dmax'] = float(stats[1]['max'])  # Bluespot max depth
         p['bspot_area'] = stats[1]['count'] * cell_area  # Bluespot area
         p['bspot_vol'] = stats[1]['sum'] * cell_area  # Bluespot volume
+        if ix == 0:
+            # The background is not a bluespot. Bluespots removed by filtering are background but must not add capacity
+            p['bspot_dmax'] = 0.0
+            p['bspot_vol'] = 0.0
         p['wshed_area'] = stats[2] * cell_area  # Local bluespot watershed area
         p['bspot_fumm'] = 1000 * p['bspot_vol'] / p['wshed_area']  # mm rain to fill bluespot with water from local wshed
 
-- 
2.43.0


From 10bc4f038455f973fd23f6cbebee8d455681f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 19/25] fix: water level of an empty bluespot could be above
 its bottom

---
 malstroem/approx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index f0ff9f5..1494c78 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -53,6 +53,9 @@ def approx_water_level_io(finalvols_reader, hyps_reader, levels_writer):
         if max_vol == 0 or final_vol / max_vol > 0.9999:
             # waterlevel is the maximum possible in this bluespot
             water_level = h["hyps"].zmin + h["max_depth"]
+        elif final_vol <= 0:
+            # An empty bluespot holds no water (the lowest histogram bin may be empty due to rounding)
+            water_level = zmin
         else:
             # Calculate estimate
             # Cumulative volume for each histogram bin
-- 
2.43.0


From 2441628b2e6f3f45064e4887b608b78d7eaab84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 20/25] fix: pour points ignored the nodata value of the DEM

---
 malstroem/scripts/bluespot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 4668856..a182d82 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -28,6 +28,9 @@ from ._utils import parse_filter
 from malstroem.algorithms import label, flow, fill
 from osgeo import ogr
 
+# Internally substitute nodata values with this value
+NODATASUBST = -999
+
 @click.command('bspots')
 @click.option('-depths', required=True, type=click.Path(exists=True), help='Depths file')
 @click.option('-out', required=True, type=click.Path(exists=False), help='Output file (bluespots)')
@@ -115,7 +118,7 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
     data = accum if accum else dem
     if not data:
         raise Exception('Either accum or dem must be specified')
-    data_reader = io.RasterReader(data)
+    data_reader = io.RasterReader(data) if accum else io.RasterReader(data, nodatasubst=NODATASUBST)
 
     format = str(format)
     layername = str(layername)
-- 
2.43.0


From 9befd8dbed8b7826400597a5d34771939c617bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 21/25] fix: final depths flooded the background of terrain
 below -999

---
 malstroem/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index 1494c78..946c4df 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -168,7 +168,7 @@ def approx_bluespots(bluespot_labels, bluespot_water_levels, dem, background_lab
 
 
 
-def _labelvaluedict_to_list(labelvaluedict, background=0, set_background_to=-999.0):
+def _labelvaluedict_to_list(labelvaluedict, background=0, set_background_to=-np.inf):
     max_label = max([x for x in labelvaluedict.keys()])
     l = []
     for ix in range(max_label + 1):
-- 
2.43.0


From 43bb13a29b5b2c75a8cb06ce5e01b2a7aa42f71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 22/25] fix: vector output failed for rasters without a
 coordinate system

---
 malstroem/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index a2da2b9..08c864a 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -261,8 +261,9 @@ class VectorWriter(object):
         if self._ds:
             return
 
-        srs = osr.SpatialReference()
-        if self.geomtype != ogr.wkbNone or self.crs:
+        srs = None
+        if self.crs:
+            srs = osr.SpatialReference()
             srs.ImportFromWkt(self.crs)
         drv = ogr.GetDriverByName(self.driver)
 
-- 
2.43.0


From 08eed23eb7ade60e522da19fd02613de3db8cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 23/25] fix: whole numbers close to a large nodata value read
 as nodata

---
 malstroem/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 08c864a..c6d356a 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -76,7 +76,13 @@ class RasterReader(object):
         """
         data = self._bnd.ReadAsArray()
         if self.nodata is not None and self.nodatasubst is not None:
-            mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
+            if np.isnan(self.nodata):
+                mask = np.isnan(data)
+            elif data.dtype.kind in ('i', 'u'):
+                # Integers are exact. A relative tolerance would include the neighbours of large nodata values
+                mask = data == self.nodata
+            else:
+                mask = np.isclose(data, self.nodata)
             # The substitute may not fit in the data type (eg a negative value in an unsigned raster)
             dtype = np.result_type(data.dtype, np.min_scalar_type(self.nodatasubst))
             data = data.astype(dtype, copy=False)
-- 
2.43.0


From 57f33bde1765ebca487f2a1c6d9ccf996b2f6ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:36 +0000
Subject: [PATCH 24/25] fix: filters that are no condition were accepted and
 failed halfway or kept everything

---
 malstroem/scripts/_utils.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/malstroem/scripts/_utils.py b/malstroem/scripts/_utils.py
index c4841d4..98148c9 100644
--- a/malstroem/scripts/_utils.py
+++ b/malstroem/scripts/_utils.py
@@ -11,10 +11,21 @@
 # You should have received a copy of the GNU General Public License along with this program. If not,
 # see http://www.gnu.org/licenses/.
 # -------------------------------------------------------------------------------------------------
+import ast
+
+
+def _is_condition(node):
+    # Comparisons of the stats and numbers, optionally joined by and/or
+    if isinstance(node, ast.BoolOp):
+        return all(_is_condition(v) for v in node.values)
+    return isinstance(node, ast.Compare) and all(
+        isinstance(n, ast.Name) and n.id in ('area', 'maxdepth', 'volume') or
+        isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) for n in [node.left] + node.comparators)
 
 
 def check_filter(filter):
     # TODO: Stupid check mechanism. Could be done better
+    statement = filter
     allowed_words = ['area', 'maxdepth', 'volume', 'and', 'or']
     allowedchars = '<>=!0123456789.()'
     for w in allowed_words:
@@ -24,6 +35,9 @@ def check_filter(filter):
     filter = filter.strip()
     if filter:
         raise Exception('Unsupported filter statement. Illegal parts: {}'.format(filter))
+    # Legal words can still be put together to something that is not a condition and fails when it is used
+    if not _is_condition(ast.parse(statement.strip(), mode='eval').body):
+        raise Exception('Unsupported filter statement: {}'.format(statement))
 
 
 def parse_filter(filter):
-- 
2.43.0


From bb7c043f27cfde8cb6d99f37d9326a9f99a10d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:36 +0000
Subject: [PATCH 25/25] fix: report errors which occur while a layer is
 finished

---
 malstroem/io.py     | 2 ++
 malstroem/vector.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index c6d356a..1c8313c 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -356,6 +356,8 @@ class VectorWriter(object):
         # The transaction is started when the first feature is written
         if self.fieldsinitialized:
             self._lyr.CommitTransaction()
+        # Closing the datasource does not tell about errors
+        self._lyr.SyncToDisk()
         self._lyr = None
         self._ds = None
 
diff --git a/malstroem/vector.py b/malstroem/vector.py
index 333abf6..499179c 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -119,6 +119,8 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
     else:
         progress_callback = gdal.TermProgress_nocb
     result = gdal.Polygonize(src_band, src_band.GetMaskBand(), dst_layer, 0, options, callback=progress_callback)
+    # Closing the datasource does not tell about errors
+    dst_layer.SyncToDisk()
 
     src_band = None
     src_ds = None
-- 
2.43.0

