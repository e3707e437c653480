From b3619f45b800825897e7ac97bf010213846d4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 01/30] fix: EffectiveAreaEstimator must not modify the given
 effective areas

to_value returns a view if the input already is in m2, so replacing small
values by min_effective_area was done in the caller's array.
---
 pyirf/interpolation/component_estimators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 6f019af..19a2ca1 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -428,7 +428,8 @@ class EffectiveAreaEstimator(ParametrizedComponentEstimator):
         """
 
         # get rid of units
-        effective_area = effective_area.to_value(u.m**2)
+        # copy, as to_value returns a view if the unit already matches
+        effective_area = effective_area.to_value(u.m**2).copy()
         min_effective_area = min_effective_area.to_value(u.m**2)
 
         self.min_effective_area = min_effective_area
-- 
2.43.0


From c69ab697c363ebf5a35b0d0735aa4dcdea17aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 02/30] fix: PSFTableEstimator must not modify the given kwargs
 dicts

The PSF normalization was written into the dicts of the caller and thus
leaked into other estimators created with the same dicts.
---
 pyirf/interpolation/component_estimators.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 19a2ca1..631ccb4 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -814,11 +814,9 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
 
         psf = np.swapaxes(psf, axis, -1)
 
-        if interpolator_kwargs is None:
-            interpolator_kwargs = {}
-
-        if extrapolator_kwargs is None:
-            extrapolator_kwargs = {}
+        # copy, so that setting defaults does not modify the dicts of the caller
+        interpolator_kwargs = dict(interpolator_kwargs or {})
+        extrapolator_kwargs = dict(extrapolator_kwargs or {})
 
         interpolator_kwargs.setdefault(
             "normalization", PDFNormalization.CONE_SOLID_ANGLE
-- 
2.43.0


From b20a61948810a9d5c00661b5832a8c0f5a47f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 03/30] fix: RadMaxEstimator fill value handling at the last 1D
 grid point

A target point equal to the largest grid point raised an IndexError.
---
 pyirf/interpolation/component_estimators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 631ccb4..d9a561f 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -617,6 +617,8 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
                 target_bin = np.digitize(
                     target_point.squeeze(), self.grid_points.squeeze()
                 )
+                # the last grid point belongs to the last segment
+                target_bin = min(target_bin, self.n_points - 1)
                 segment_inds = np.array([target_bin - 1, target_bin], "int")
 
             mask_left = self.params[segment_inds[0]] >= self.fill_val
-- 
2.43.0


From 4f44d51a38d7ff64d12150dc5b842be89daa0c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 04/30] fix: RadMaxEstimator fill value handling for unsorted
 1D grids

The grid points are sorted for 1D grids, but the values used to find the
fill values were kept in the order given by the user.
---
 pyirf/interpolation/component_estimators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index d9a561f..8c30da3 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -539,6 +539,10 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
             extrapolator_kwargs=extrapolator_kwargs,
         )
 
+        # Same order as self.grid_points, which are sorted for 1D grids
+        if self.grid_dim == 1:
+            rad_max = rad_max[np.argsort(np.asarray(grid_points).squeeze())]
+
         self.params = rad_max
 
         if fill_value is None:
-- 
2.43.0


From cae2cf369756b00564a46850e976ac3f61ac3071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 05/30] fix: RadMaxEstimator fill value handling when
 extrapolating in 2D

A target_point of the documented shape (1, 2) outside the grid raised a
ValueError.
---
 pyirf/interpolation/component_estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 8c30da3..76bea2b 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -634,7 +634,9 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
             target_simplex = self.triangulation.find_simplex(target_point)
 
             if target_simplex == -1:
-                target_simplex = find_nearest_simplex(self.triangulation, target_point)
+                target_simplex = find_nearest_simplex(
+                    self.triangulation, target_point.squeeze()
+                )
 
             simplex_nodes_indices = self.triangulation.simplices[
                 target_simplex
-- 
2.43.0


From 52d6ceaf8209f8a948ddb212447a76cf7a904235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 06/30] fix: MomentMorphInterpolator at the last 1D grid point

A target point equal to the largest grid point raised an IndexError.
---
 pyirf/interpolation/moment_morph_interpolator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index 1388061..b38ab3f 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -304,6 +304,8 @@ class MomentMorphInterpolator(DiscretePDFInterpolator):
         on this subset.
         """
         target_bin = np.digitize(target_point.squeeze(), self.grid_points.squeeze())
+        # the last grid point belongs to the last segment
+        target_bin = min(target_bin, self.n_points - 1)
         segment_inds = np.array([target_bin - 1, target_bin], "int")
         coefficients = linesegment_1D_interpolation_coefficients(
             grid_points=self.grid_points[segment_inds],
-- 
2.43.0


From 68069863e65d6e6bf94a26287dcfa43f7bd29c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 07/30] fix: nearest neighbor search must not return a view of
 its templates

Changing the returned array, as e.g. RadMaxEstimator does when clipping,
changed the input values and the result of later calls.
---
 pyirf/interpolation/nearest_neighbor_searcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/nearest_neighbor_searcher.py b/pyirf/interpolation/nearest_neighbor_searcher.py
index d1f368c..55d3506 100644
--- a/pyirf/interpolation/nearest_neighbor_searcher.py
+++ b/pyirf/interpolation/nearest_neighbor_searcher.py
@@ -94,7 +94,8 @@ class BaseNearestNeighborSearcher(BaseInterpolator):
 
         index = np.argmin(distances)
 
-        return self.values[index, :]
+        # copy, so that changing the result does not change the template
+        return self.values[index, :].copy()
 
 
 class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
-- 
2.43.0


From 1680fa98d851aac22d07f42b27ad33f83ce83f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 08/30] fix: energy_dispersion_to_migration must not change the
 warning filters

warnings.catch_warnings is not thread-safe: concurrent calls could leave
the process with the temporary filter installed or lose filters installed
by other threads. The filtered message also is not issued by current numpy.
---
 pyirf/irf/energy_dispersion.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyirf/irf/energy_dispersion.py b/pyirf/irf/energy_dispersion.py
index f34c354..c39e2c5 100644
--- a/pyirf/irf/energy_dispersion.py
+++ b/pyirf/irf/energy_dispersion.py
@@ -1,4 +1,3 @@
-import warnings
 import numpy as np
 import astropy.units as u
 from ..binning import resample_histogram1d
@@ -198,11 +197,8 @@ def energy_dispersion_to_migration(
         # get migration for the new true energy bin
         e_true_dispersion = true_energy_interpolation[idx]
 
-        with warnings.catch_warnings():
-            # silence inf/inf division warning
-            warnings.filterwarnings(
-                "ignore", "invalid value encountered in true_divide"
-            )
+        # silence inf/inf division warning
+        with np.errstate(invalid="ignore"):
             interpolation_edges = new_reco_energy_edges / e_true
 
         y = resample_histogram1d(
-- 
2.43.0


From f89fc69d9e65ef08a04bc5c9f934991d1c220dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 09/30] fix: read_eventdisplay_fits must read all tables from
 the same file

The path was opened once per table, so a file that is replaced during the
call gave events of one production with simulation info of another.
---
 pyirf/io/eventdisplay.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyirf/io/eventdisplay.py b/pyirf/io/eventdisplay.py
index a46054c..3fa89b6 100644
--- a/pyirf/io/eventdisplay.py
+++ b/pyirf/io/eventdisplay.py
@@ -1,5 +1,6 @@
 import logging
 
+from astropy.io import fits
 from astropy.table import QTable, unique
 import astropy.units as u
 
@@ -49,9 +50,11 @@ def read_eventdisplay_fits(infile, use_histogram=True):
     simulated_events: ``~pyirf.simulations.SimulatedEventsInfo``
     """
     log.debug(f"Reading {infile}")
-    events = QTable.read(infile, hdu="EVENTS")
-    sim_events = QTable.read(infile, hdu="SIMULATED EVENTS")
-    run_header = QTable.read(infile, hdu="RUNHEADER")[0]
+    # open only once, so that all tables come from the same version of the file
+    with fits.open(infile, memmap=False) as hdul:
+        events = QTable.read(hdul, hdu="EVENTS")
+        sim_events = QTable.read(hdul, hdu="SIMULATED EVENTS")
+        run_header = QTable.read(hdul, hdu="RUNHEADER")[0]
 
     for new, old in COLUMN_MAP.items():
         events.rename_column(old, new)
-- 
2.43.0


From be12143f2e37990c48c884035038438b949924aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 10/30] fix: download_irfs must not leave partially written
 files

An interruption or a full disk during extraction left a truncated IRF file
under its final name.
---
 download_irfs.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/download_irfs.py b/download_irfs.py
index 0f3daf2..09686e7 100644
--- a/download_irfs.py
+++ b/download_irfs.py
@@ -2,6 +2,7 @@
 import tarfile
 from io import BytesIO
 from pathlib import Path
+from tempfile import TemporaryDirectory
 from zipfile import ZipFile
 
 import requests
@@ -28,9 +29,12 @@ def download_irfs():
             with tarfile.open(
                 fileobj=zipfile.open(tarball.format(zenith=zenith), mode="r")
             ) as tar:
-                tar.extract(
-                    irf_file.format(zenith=zenith, obstime=obstime), path=output_dir
-                )
+                # extract to a temporary directory and move the complete file, so
+                # that an interrupted download never leaves a partial file behind
+                name = irf_file.format(zenith=zenith, obstime=obstime)
+                with TemporaryDirectory(dir=output_dir) as tmp_dir:
+                    tar.extract(name, path=tmp_dir)
+                    (Path(tmp_dir) / name).replace(output_dir / name)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 804ca9a5a05860ecd449838b5f73272bfba74bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 11/30] fix: solid angle of the bins in background_3d_lonlat

The solid angle was only computed for pairs of longitude and latitude bins
with the same index, giving wrong rates for non-uniform bins and an error
if the number of bins differs.
---
 pyirf/irf/background.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyirf/irf/background.py b/pyirf/irf/background.py
index 419486f..3568fba 100644
--- a/pyirf/irf/background.py
+++ b/pyirf/irf/background.py
@@ -89,7 +89,7 @@ def background_3d_lonlat(events, reco_energy_bins, fov_lon_bins, fov_lat_bins, t
         The background rate as particles per energy, time and solid angle
         in the specified bins.
 
-        Shape: (len(reco_energy_bins) - 1,  len(fov_lon_bins) - 1, len(fov_lon_bins) - 1)
+        Shape: (len(reco_energy_bins) - 1,  len(fov_lon_bins) - 1, len(fov_lat_bins) - 1)
     """
 
     hist, _ = np.histogramdd(
@@ -113,10 +113,10 @@ def background_3d_lonlat(events, reco_energy_bins, fov_lon_bins, fov_lat_bins, t
 
     # divide by solid angle in each fov bin and the observation time
     bin_solid_angle = rectangle_solid_angle(
-        fov_lon_bins[:-1],
-        fov_lon_bins[1:],
-        fov_lat_bins[:-1],
-        fov_lat_bins[1:],
+        fov_lon_bins[:-1, np.newaxis],
+        fov_lon_bins[1:, np.newaxis],
+        fov_lat_bins[np.newaxis, :-1],
+        fov_lat_bins[np.newaxis, 1:],
     )
     bg_rate = per_energy / t_obs / bin_solid_angle
     return bg_rate.to(BACKGROUND_UNIT)
-- 
2.43.0


From 5a694991a6a6d27ddfebbb1e58b83eda6ff9ad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 12/30] fix: use the position angle bin widths in
 calculate_n_showers_3d_polar

The showers were shared equally among the position angle bins, which is
only correct for equally sized bins covering the full circle.
---
 pyirf/simulations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index d7f6c3b..9a04125 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -211,8 +211,9 @@ class SimulatedEventsInfo:
             [self.viewcone_min, self.viewcone_max] * u.deg
         )
 
-        n_bins_pa = len(fov_position_angle_bins) - 1
-        position_angle_integral = np.full(n_bins_pa, viewcone_integral / n_bins_pa)
+        # showers are distributed uniformly in position angle
+        bin_width_pa = np.diff(fov_position_angle_bins).to_value(u.rad)
+        position_angle_integral = viewcone_integral * bin_width_pa / (2 * np.pi)
 
         total_integral = e_fov_offset_integral[:, :, np.newaxis] * position_angle_integral
 
-- 
2.43.0


From 7f2f5530bf13465a04a65416eadc0bf5b0a148ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 13/30] fix: axis order in calculate_n_showers_3d_lonlat

The result had shape (n_energy, n_lat, n_lon) instead of the documented
(n_energy, n_lon, n_lat), so that effective_area_3d_lonlat failed or gave
wrong results if the longitude and latitude binning differs.
---
 pyirf/simulations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 9a04125..e1fc81f 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -270,7 +270,8 @@ class SimulatedEventsInfo:
         fov_integral = shower_density * bin_area
         e_integral = self.calculate_n_showers_per_energy(energy_bins)
 
-        fov_integral = fov_overlap * fov_integral
+        # meshgrid puts latitude first
+        fov_integral = (fov_overlap * fov_integral).T
 
         return (e_integral[:, np.newaxis, np.newaxis] * fov_integral) / self.n_showers
 
-- 
2.43.0


From 1e136799706075871694f911a0d6156009656b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 14/30] fix: units of the bin edges in
 calculate_n_showers_3d_lonlat

The overlap with the viewcone was wrong for bin edges not given in degrees.
---
 pyirf/simulations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index e1fc81f..5dc2eb8 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -341,6 +341,10 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     'subpixels' whose centers are inside the viewcone, which approximates the area of the
     bin inside the viewcone.
     """
+    # the subpixel edges below are calculated without units
+    bin_edges_lon = bin_edges_lon.to(u.deg)
+    bin_edges_lat = bin_edges_lat.to(u.deg)
+
     # treat edge cases where all bins are either fully inside or outside of the viewcone
     bin_grid_lon, bin_grid_lat = np.meshgrid(bin_edges_lon, bin_edges_lat)
 
-- 
2.43.0


From 0a014215cbcabacedf38f7db0d9167ac06533489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 15/30] fix: energy bins containing the whole simulated range

---
 pyirf/simulations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 5dc2eb8..38558c6 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -112,6 +112,9 @@ class SimulatedEventsInfo:
             self.spectral_index, e_min, e_high[mask], e_min, e_max
         )
 
+        # bins containing the whole simulated range
+        integral[(e_low <= e_min) & (e_high >= e_max)] = 1
+
         return self.n_showers * integral
 
     def calculate_n_showers_per_fov(self, fov_bins):
-- 
2.43.0


From f90367a3364bfe0e042561a0c320fa121d0932fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 16/30] fix: cut optimisation with particle types lost by some
 of the cuts

---
 pyirf/cut_optimization.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pyirf/cut_optimization.py b/pyirf/cut_optimization.py
index d8c1a51..4b042cb 100644
--- a/pyirf/cut_optimization.py
+++ b/pyirf/cut_optimization.py
@@ -17,6 +17,25 @@ __all__ = [
 ]
 
 
+def _harmonize_columns(tables):
+    """
+    Make sure all tables have the same columns in the same order.
+
+    The tables have no columns for particle types without selected events,
+    these are added and filled with zeros.
+    """
+    columns = {}
+    for table in tables:
+        for name in table.colnames:
+            columns.setdefault(name, table[name])
+
+    for table in tables:
+        for name in columns.keys() - set(table.colnames):
+            table[name] = np.zeros_like(columns[name])
+
+    return [table[list(columns)] for table in tables]
+
+
 def optimize_cuts(
     signal,
     background,
@@ -181,6 +200,7 @@ def optimize_cuts(
     best_theta_cut["cut"].unit = theta_cuts["cut"].unit
     best_theta_cut["efficiency"] = np.nan
 
+    sensitivities = _harmonize_columns(sensitivities)
     best_sensitivity = sensitivities[0].copy()
     for bin_id in range(len(reco_energy_bins) - 1):
         sensitivities_bin = [s["relative_sensitivity"][bin_id] for s in sensitivities]
@@ -328,6 +348,7 @@ def optimize_gh_cut(
     best_cut_table["cut"] = np.nan
     best_cut_table["efficiency"] = np.nan
 
+    sensitivities = _harmonize_columns(sensitivities)
     best_sensitivity = sensitivities[0].copy()
     for bin_id in range(len(reco_energy_bins) - 1):
         sensitivities_bin = [s["relative_sensitivity"][bin_id] for s in sensitivities]
-- 
2.43.0


From 508170c2b5a5cf1b16479a09f9c837037c324f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 17/30] fix: QuantileInterpolator for bins of different widths

---
 pyirf/interpolation/quantile_interpolator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyirf/interpolation/quantile_interpolator.py b/pyirf/interpolation/quantile_interpolator.py
index 9b3106a..ce819aa 100644
--- a/pyirf/interpolation/quantile_interpolator.py
+++ b/pyirf/interpolation/quantile_interpolator.py
@@ -137,6 +137,8 @@ def norm_pdf(pdf_values, bin_edges, normalization):
     """
     Normalize binned_pdf to a sum of 1
     """
+    # pdf_values are densities, weight with the bin width to get the bin contents
+    pdf_values = pdf_values * np.diff(bin_edges)
     norm = np.sum(pdf_values, axis=-1)
     width = get_bin_width(bin_edges, normalization)
 
-- 
2.43.0


From 420bc8279e08c3422d18d5c2974f4bb2f2c43579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 18/30] fix: DiscretePDFNearestNeighborSearcher must work with
 PSFTableEstimator

---
 pyirf/interpolation/nearest_neighbor_searcher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/nearest_neighbor_searcher.py b/pyirf/interpolation/nearest_neighbor_searcher.py
index 55d3506..712f57a 100644
--- a/pyirf/interpolation/nearest_neighbor_searcher.py
+++ b/pyirf/interpolation/nearest_neighbor_searcher.py
@@ -105,7 +105,9 @@ class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
     Compatible with discretized PDF IRF component API.
     """
 
-    def __init__(self, grid_points, bin_edges, binned_pdf, norm_ord=2):
+    def __init__(
+        self, grid_points, bin_edges, binned_pdf, norm_ord=2, normalization=None
+    ):
         """
         NearestNeighborSearcher compatible with discretized PDF IRF components API
 
@@ -124,6 +126,8 @@ class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
             Order of the norm which is used to compute the distances,
             passed to numpy.linalg.norm [1]. Defaults to 2,
             which uses the euclidean norm.
+        normalization : PDFNormalization
+            How the PDF is normalized. Ignored for nearest neighbor searching.
 
         Notes
         -----
-- 
2.43.0


From 7d091e55e92db8a09a0b55fad18bfad038dc2b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 19/30] fix: strip the units of the PSF templates in
 PSFTableEstimator

---
 pyirf/interpolation/component_estimators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 76bea2b..e45c7d9 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -820,7 +820,8 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
 
         self.axis = axis
 
-        psf = np.swapaxes(psf, axis, -1)
+        # get rid of units
+        psf = np.swapaxes(psf.to_value(u.sr**-1), axis, -1)
 
         # copy, so that setting defaults does not modify the dicts of the caller
         interpolator_kwargs = dict(interpolator_kwargs or {})
-- 
2.43.0


From 221b6b38952883a9c2dc538ac1e1560ad0ba417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 20/30] fix: positive axis with nearest neighbor results in
 EnergyDispersionEstimator and PSFTableEstimator

---
 pyirf/interpolation/component_estimators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index e45c7d9..a10ee28 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -732,7 +732,8 @@ class EnergyDispersionEstimator(DiscretePDFComponentEstimator):
         and pyirf.interpolation.ParametrizedEstimator
         """
 
-        self.axis = axis
+        # count from the end, not all results have the leading axis of the templates
+        self.axis = axis if axis < 0 else axis - energy_dispersion.ndim
 
         super().__init__(
             grid_points=grid_points,
@@ -818,7 +819,8 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
         and pyirf.interpolation.ParametrizedEstimator
         """
 
-        self.axis = axis
+        # count from the end, not all results have the leading axis of the templates
+        self.axis = axis if axis < 0 else axis - psf.ndim
 
         # get rid of units
         psf = np.swapaxes(psf.to_value(u.sr**-1), axis, -1)
-- 
2.43.0


From f0cf980d776a2b1f5cd695b06ed84f4f50121f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 21/30] fix: fill value handling of RadMaxEstimator mixing
 nearest neighbors and extrapolation

---
 pyirf/interpolation/component_estimators.py | 22 ++++++---------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index a10ee28..882a879 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -592,23 +592,13 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
         # Early exit if a nearest neighbor estimation would be overwritten
         # Complex setup is needed to catch settings where the user mixes approaches and
         # e.g. uses nearest neighbors for extrapolation and an actual interpolation otherwise
-        if self.grid_dim == 1:
-            if (
-                (target_point < self.grid_points.min())
-                or (target_point > self.grid_points.max())
-            ) and issubclass(self.extrapolator.__class__, BaseNearestNeighborSearcher):
-                return full_estimation
-            elif issubclass(self.interpolator.__class__, BaseNearestNeighborSearcher):
-                return full_estimation
-        elif self.grid_dim == 2:
-            target_simplex = self.triangulation.find_simplex(target_point)
+        if self._target_in_grid(target_point):
+            used_estimator = self.interpolator
+        else:
+            used_estimator = self.extrapolator
 
-            if (target_simplex == -1) and issubclass(
-                self.extrapolator.__class__, BaseNearestNeighborSearcher
-            ):
-                return full_estimation
-            elif issubclass(self.interpolator.__class__, BaseNearestNeighborSearcher):
-                return full_estimation
+        if isinstance(used_estimator, BaseNearestNeighborSearcher):
+            return full_estimation
 
         # Actual fill-value handling
         if self.grid_dim == 1:
-- 
2.43.0


From 335b9870cd26966bdffd53887e4e6671617ad5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 22/30] fix: ParametrizedVisibleEdgesExtrapolator for parameter
 axes of length one

---
 pyirf/interpolation/visible_edges_extrapolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/interpolation/visible_edges_extrapolator.py b/pyirf/interpolation/visible_edges_extrapolator.py
index 114cc7c..2e1490c 100644
--- a/pyirf/interpolation/visible_edges_extrapolator.py
+++ b/pyirf/interpolation/visible_edges_extrapolator.py
@@ -186,7 +186,7 @@ class ParametrizedVisibleEdgesExtrapolator(ParametrizedNearestSimplexExtrapolato
                     [
                         extrapolate2D(
                             self.triangulation.simplices[ind], target_point
-                        ).squeeze()
+                        )[0]
                         for ind in visible_simplices_indices
                     ]
                 )
-- 
2.43.0


From 5b5e125752ba6da62de5bcf9803f6fd137c64ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 23/30] fix: spectra must not share the default reference
 energy

---
 pyirf/spectral.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyirf/spectral.py b/pyirf/spectral.py
index ffdd917..7eb1a8c 100644
--- a/pyirf/spectral.py
+++ b/pyirf/spectral.py
@@ -100,7 +100,8 @@ class PowerLaw:
 
         self.normalization = normalization
         self.index = index
-        self.e_ref = e_ref
+        # copy, so that the default is not shared between spectra
+        self.e_ref = e_ref.copy()
 
     @u.quantity_input(energy=u.TeV)
     def __call__(self, energy):
@@ -205,7 +206,8 @@ class LogParabola:
         self.normalization = normalization
         self.a = a
         self.b = b
-        self.e_ref = e_ref
+        # copy, so that the default is not shared between spectra
+        self.e_ref = e_ref.copy()
 
     @u.quantity_input(energy=u.TeV)
     def __call__(self, energy):
@@ -299,7 +301,7 @@ class TableInterpolationSpectrum:
         self.flux_unit = flux.unit
         self.log_energy = log_energy
         self.log_flux = log_flux
-        self.reference_energy = reference_energy
+        self.reference_energy = reference_energy.copy()
 
         x = (energy / reference_energy).to_value(u.one)
         y = flux.to_value(self.flux_unit)
-- 
2.43.0


From 3a8c93c8457e91fa6e5632ad385dbb1a49d0b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 24/30] fix: verify checksums of the downloaded IRF archive

tarfile stops reading before the end of the compressed stream, so the
checksums were never checked and a corrupted archive gave corrupted IRFs.
---
 download_irfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/download_irfs.py b/download_irfs.py
index 09686e7..af826d2 100644
--- a/download_irfs.py
+++ b/download_irfs.py
@@ -26,8 +26,9 @@ def download_irfs():
 
     for zenith in (20, 40, 60):
         with ZipFile(BytesIO(r.content)) as zipfile:
+            # read the complete tarball first, so that its checksum is verified
             with tarfile.open(
-                fileobj=zipfile.open(tarball.format(zenith=zenith), mode="r")
+                fileobj=BytesIO(zipfile.read(tarball.format(zenith=zenith)))
             ) as tar:
                 # extract to a temporary directory and move the complete file, so
                 # that an interrupted download never leaves a partial file behind
-- 
2.43.0


From 3f00304cd6d47a748dea4655bfb2a394ca5cf220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 25/30] fix: use the installed version if the development
 version fails for any reason

Any error other than ImportError, e.g. a broken _dev_version package, made
the version 0.0.0 although _version.py provides it.
---
 pyirf/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/version.py b/pyirf/version.py
index 29604bf..789bbdf 100644
--- a/pyirf/version.py
+++ b/pyirf/version.py
@@ -4,7 +4,7 @@
 try:
     try:
         from ._dev_version import version
-    except ImportError:
+    except Exception:
         from ._version import version
 except Exception:
     import warnings
-- 
2.43.0


From ef3f08124a36f77f609132251f1fca029e79c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 26/30] fix: optimize_cuts with lists of theta cut efficiencies

100 * list repeats the list, so the cuts were calculated at the wrong percentiles.
---
 pyirf/cut_optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyirf/cut_optimization.py b/pyirf/cut_optimization.py
index 4b042cb..459d7bb 100644
--- a/pyirf/cut_optimization.py
+++ b/pyirf/cut_optimization.py
@@ -90,6 +90,7 @@ def optimize_cuts(
     **kwargs are passed to ``calculate_sensitivity``
     """
     gh_cut_efficiencies = np.asanyarray(gh_cut_efficiencies)
+    theta_cut_efficiencies = np.asanyarray(theta_cut_efficiencies)
     gh_cut_percentiles = 100 * (1 - gh_cut_efficiencies)
     fill_value = signal['gh_score'].max()
 
-- 
2.43.0


From ad7ef46daaff12a946fc6d16c693a652050f7e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:03 +0000
Subject: [PATCH 27/30] fix: viewcone overlap of longitude/latitude bins of
 different sizes or larger than the viewcone

---
 pyirf/simulations.py | 42 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 38558c6..4da0a23 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -348,31 +348,8 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     bin_edges_lon = bin_edges_lon.to(u.deg)
     bin_edges_lat = bin_edges_lat.to(u.deg)
 
-    # treat edge cases where all bins are either fully inside or outside of the viewcone
     bin_grid_lon, bin_grid_lat = np.meshgrid(bin_edges_lon, bin_edges_lat)
 
-    bin_dist = angular_separation(
-        bin_grid_lon,
-        bin_grid_lat,
-        0,
-        0,
-    ).to_value(u.deg)
-
-    all_outside = np.logical_or(
-        np.all(bin_dist <= self.viewcone_min.to_value(u.deg)),
-        np.all(bin_dist >= self.viewcone_max.to_value(u.deg)),
-    )
-    all_inside = np.logical_and(
-        np.all(bin_dist <= self.viewcone_max.to_value(u.deg)),
-        np.all(bin_dist >= self.viewcone_min.to_value(u.deg)),
-    )
-
-    if all_outside:
-        return 0
-    elif all_inside:
-        return 1
-
-
     # define grid of bin centers
     fov_bin_centers_lon = bin_center(bin_edges_lon)
     fov_bin_centers_lat = bin_center(bin_edges_lat)
@@ -399,8 +376,9 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     area[mask_simple] = 0
 
     # select only bins partially covered by the FOV
-    bin_width_lon = bin_edges_lon[1] - bin_edges_lon[0]
-    bin_width_lat = bin_edges_lat[1] - bin_edges_lat[0]
+    bin_width_lon, bin_width_lat = np.meshgrid(
+        np.diff(bin_edges_lon), np.diff(bin_edges_lat)
+    )
     bin_max_radius = np.sqrt(bin_width_lon ** 2 + bin_width_lat ** 2) * 0.5
 
     fov_outer_edge_mask = np.logical_and(
@@ -417,12 +395,22 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     # get indices of relevant bin corners
     corner_idx = np.nonzero(fov_edge_mask)
 
+    # all bins are either fully inside or outside of the viewcone
+    if len(corner_idx[0]) == 0:
+        return area
+
     # define start and endpoints for subpixels
     edges_lon = np.array(
-        [bin_grid_lon[corner_idx], bin_grid_lon[corner_idx] + bin_width_lon]
+        [
+            bin_grid_lon[corner_idx],
+            bin_grid_lon[corner_idx] + bin_width_lon[corner_idx],
+        ]
     )
     edges_lat = np.array(
-        [bin_grid_lat[corner_idx], bin_grid_lat[corner_idx] + bin_width_lat]
+        [
+            bin_grid_lat[corner_idx],
+            bin_grid_lat[corner_idx] + bin_width_lat[corner_idx],
+        ]
     )
 
     n_edge_pixels = len(fov_edge_mask[fov_edge_mask==True])
-- 
2.43.0


From 3b48dbb80c80c25610e749a9c04e275ac7dba44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:45 +0000
Subject: [PATCH 28/30] fix: scalar templates in nearest neighbor search and
 rad max fill value handling

Templates without further dimensions than the grid points raised an
IndexError, while all other inter- and extrapolators support them.
---
 pyirf/interpolation/component_estimators.py      | 4 ++++
 pyirf/interpolation/nearest_neighbor_searcher.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 882a879..2f81ddb 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -543,6 +543,10 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
         if self.grid_dim == 1:
             rad_max = rad_max[np.argsort(np.asarray(grid_points).squeeze())]
 
+        # scalar values, same convention as for ParametrizedInterpolator
+        if rad_max.ndim == 1:
+            rad_max = rad_max[..., np.newaxis]
+
         self.params = rad_max
 
         if fill_value is None:
diff --git a/pyirf/interpolation/nearest_neighbor_searcher.py b/pyirf/interpolation/nearest_neighbor_searcher.py
index 712f57a..557dccc 100644
--- a/pyirf/interpolation/nearest_neighbor_searcher.py
+++ b/pyirf/interpolation/nearest_neighbor_searcher.py
@@ -48,6 +48,10 @@ class BaseNearestNeighborSearcher(BaseInterpolator):
 
         self.values = values
 
+        # scalar values, same convention as for ParametrizedInterpolator
+        if self.values.ndim == 1:
+            self.values = self.values[..., np.newaxis]
+
         # Test wether norm_ord is a number
         try:
             norm_ord > 0
-- 
2.43.0


From 8397105c026e40291515562ba04f4bb10407284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:54 +0000
Subject: [PATCH 29/30] fix: smooth percentile cuts over the bins, not over the
 percentiles

---
 pyirf/cuts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index e9211c2..2f5c6d0 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -110,6 +110,7 @@ def calculate_percentile_cut(
         cut_table["cut"].value[:] = gaussian_filter1d(
             cut_table["cut"].value,
             smoothing,
+            axis=0,
             mode="nearest",
         )
 
-- 
2.43.0


From 040e369ab04497b841989c68d1337d292dd2829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:36 +0000
Subject: [PATCH 30/30] fix: grid points on the convex hull are never outside
 of the grid

Delaunay.find_simplex and griddata place some of the grid points themselves
outside of the convex hull, due to rounding, for grids of two or more
dimensions. A query at such a point raised an error, was extrapolated or
gave NaN.
---
 pyirf/interpolation/component_estimators.py   |  8 +--
 pyirf/interpolation/griddata_interpolator.py  |  9 ++++
 .../moment_morph_interpolator.py              |  4 +-
 pyirf/interpolation/quantile_interpolator.py  |  9 +++-
 pyirf/interpolation/utils.py                  | 51 +++++++++++++++++++
 5 files changed, 73 insertions(+), 8 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 2f81ddb..df30229 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -17,7 +17,7 @@ from ..compat import COPY_IF_NEEDED
 from .griddata_interpolator import GridDataInterpolator
 from .nearest_neighbor_searcher import BaseNearestNeighborSearcher
 from .quantile_interpolator import QuantileInterpolator
-from .utils import find_nearest_simplex
+from .utils import find_nearest_simplex, find_simplex
 
 __all__ = [
     "BaseComponentEstimator",
@@ -95,8 +95,8 @@ class BaseComponentEstimator:
                 target_point <= self.grid_points.max()
             )
         else:
-            # Delaunay.find_simplex() returns -1 for points outside the grids convex hull
-            simplex_ind = self.triangulation.find_simplex(target_point)
+            # find_simplex() returns -1 for points outside the grids convex hull
+            simplex_ind = find_simplex(self.triangulation, target_point)
             return simplex_ind >= 0
 
     def __call__(self, target_point):
@@ -625,7 +625,7 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
             mask = np.logical_or(mask_left, mask_right)
         elif self.grid_dim == 2:
             # Locate target
-            target_simplex = self.triangulation.find_simplex(target_point)
+            target_simplex = find_simplex(self.triangulation, target_point)
 
             if target_simplex == -1:
                 target_simplex = find_nearest_simplex(
diff --git a/pyirf/interpolation/griddata_interpolator.py b/pyirf/interpolation/griddata_interpolator.py
index 7d50359..1c77f3c 100644
--- a/pyirf/interpolation/griddata_interpolator.py
+++ b/pyirf/interpolation/griddata_interpolator.py
@@ -1,9 +1,11 @@
 """
 Simple wrapper around scipy.interpolate.griddata to interpolate parametrized quantities
 """
+import numpy as np
 from scipy.interpolate import griddata
 
 from .base_interpolators import ParametrizedInterpolator
+from .utils import find_grid_point
 
 __all__ = ["GridDataInterpolator"]
 
@@ -63,6 +65,13 @@ class GridDataInterpolator(ParametrizedInterpolator):
         .. [1] Scipy Documentation, scipy.interpolate.griddata
                https://docs.scipy.org/doc/scipy/reference/generated/scipy.interpolate.griddata.html
         """
+        # griddata might miss grid points on the convex hull due to rounding
+        grid_point_ind = find_grid_point(self.grid_points, target_point)
+        if grid_point_ind is not None:
+            return self.params[[grid_point_ind]].astype(
+                np.result_type(self.params, float)
+            )
+
         interpolant = griddata(
             self.grid_points, self.params, target_point, **self.griddata_kwargs
         ).squeeze()
diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index b38ab3f..7696ab9 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -3,7 +3,7 @@ from pyirf.binning import bin_center, calculate_bin_indices
 from scipy.spatial import Delaunay
 
 from .base_interpolators import DiscretePDFInterpolator, PDFNormalization
-from .utils import get_bin_width
+from .utils import find_simplex, get_bin_width
 
 __all__ = [
     "MomentMorphInterpolator",
@@ -325,7 +325,7 @@ class MomentMorphInterpolator(DiscretePDFInterpolator):
         on this subset.
         """
         simplex_inds = self.triangulation.simplices[
-            self.triangulation.find_simplex(target_point)
+            find_simplex(self.triangulation, target_point)
         ].squeeze()
         coefficients = barycentric_2D_interpolation_coefficients(
             grid_points=self.grid_points[simplex_inds],
diff --git a/pyirf/interpolation/quantile_interpolator.py b/pyirf/interpolation/quantile_interpolator.py
index ce819aa..95b97f2 100644
--- a/pyirf/interpolation/quantile_interpolator.py
+++ b/pyirf/interpolation/quantile_interpolator.py
@@ -2,7 +2,7 @@ import numpy as np
 from scipy.interpolate import griddata, interp1d
 
 from .base_interpolators import DiscretePDFInterpolator, PDFNormalization
-from .utils import get_bin_width
+from .utils import find_grid_point, get_bin_width
 
 __all__ = ["QuantileInterpolator"]
 
@@ -251,7 +251,12 @@ class QuantileInterpolator(DiscretePDFInterpolator):
         """
 
         # interpolate ppfs to target point, interpolate quantiles step of [1]
-        interpolated_ppfs = griddata(self.grid_points, self.ppfs, target_point)
+        # griddata might miss grid points on the convex hull due to rounding
+        grid_point_ind = find_grid_point(self.grid_points, target_point)
+        if grid_point_ind is not None:
+            interpolated_ppfs = self.ppfs[[grid_point_ind]]
+        else:
+            interpolated_ppfs = griddata(self.grid_points, self.ppfs, target_point)
 
         # compute pdf values for all bins, evaluate interpolant PDF values step of [1], drop the earlier
         # introduced extra bin
diff --git a/pyirf/interpolation/utils.py b/pyirf/interpolation/utils.py
index b71adcd..6e24e71 100644
--- a/pyirf/interpolation/utils.py
+++ b/pyirf/interpolation/utils.py
@@ -15,6 +15,57 @@ def get_bin_width(bin_edges, normalization):
     raise ValueError(f"Invalid PDF normalization: {normalization}")
 
 
+def find_grid_point(grid_points, target_point):
+    """
+    Find the grid point at the target point.
+
+    Parameters
+    ----------
+    grid_points: np.ndarray, shape=(n_points, n_dims)
+        Points of the grid
+    target_point: np.ndarray, shape=(1, n_dims)
+        Target point
+
+    Returns
+    -------
+    grid_point_ind: int or None
+        Index of the grid point identical to the target point, None if there
+        is no such point.
+    """
+    inds = np.flatnonzero(np.all(grid_points == target_point, axis=-1))
+    return inds[0] if len(inds) > 0 else None
+
+
+def find_simplex(triangulation, target_point):
+    """
+    Find the simplex of a triangulation containing the target point. Other than
+    Delaunay.find_simplex, which might miss points on the convex hull due to
+    rounding, this always finds a simplex for the points of the triangulation.
+
+    Parameters
+    ----------
+    triangulation: scipy.spatial.Delaunay object
+        Delaunay triangulation of the grid
+    target_point: np.ndarray, shape=(1, n_dims)
+        Target point
+
+    Returns
+    -------
+    simplex_ind: np.ndarray, shape=(1,)
+        Index of the simplex, -1 for target points outside of the grid
+    """
+    simplex_ind = triangulation.find_simplex(target_point)
+
+    if np.any(simplex_ind < 0):
+        grid_point_ind = find_grid_point(triangulation.points, target_point)
+        if grid_point_ind is not None:
+            corners = np.any(triangulation.simplices == grid_point_ind, axis=-1)
+            if np.any(corners):
+                return np.array([np.argmax(corners)])
+
+    return simplex_ind
+
+
 def plumb_point_dist(line, target):
     """
     Compute minimal distance between target and line under the constraint, that it has
-- 
2.43.0

