From ca42cf63fcad33cb8bc429b6384a2ba17da2ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 01/17] fix: restart from output files, which have a time
 dimension

---
 src/wam2layers/tracking/backtrack.py    | 2 +-
 src/wam2layers/tracking/forwardtrack.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index c81d5f7..15fd043 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -138,7 +138,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     if config.restart:
         # Reload last state from existing output
         date = config.tracking_end_date
-        ds = xr.open_dataset(output_path(date, config))
+        ds = xr.open_dataset(output_path(date, config)).isel(time=0)
         output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
         output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
 
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index c3cf2ae..61393cb 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -141,7 +141,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     if config.restart:
         # Reload last state from existing output
         date = config.tracking_start_date
-        ds = xr.open_dataset(output_path(date, config))
+        ds = xr.open_dataset(output_path(date, config)).isel(time=0)
         output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
         output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
 
-- 
2.43.0


From 01e41e4fa43c03e3db5bd3741f17d2f477542b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 02/17] fix: stability correction gives NaN where both flux
 components are zero

---
 src/wam2layers/tracking/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index ab99bda..dbda23d 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -154,8 +154,8 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         progress_tracker.track_stability_correction(fy_stable, fy_abs, config, t)
 
         # Get rid of any nan values
-        fx_stable.fillna(0)
-        fy_stable.fillna(0)
+        fx_stable = fx_stable.fillna(0)
+        fy_stable = fy_stable.fillna(0)
 
         # Re-instate the sign and convert back to flux instead of accumulation
         F["fx_" + level] = np.sign(fx) * fx_stable / config.timestep
-- 
2.43.0


From e16af1247d45f51b6f09c286c20a0c0f54420a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 03/17] fix: numerically gained water counts negatively in the
 tagging closure

---
 src/wam2layers/utils/profiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index 1c2ef64..df635f8 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -106,7 +106,7 @@ class ProgressTracker:
             tracked_percentage
             + in_atmos_percentage
             + lost_percentage
-            + gained_percentage
+            - gained_percentage
             + boundary_percentage
         )
 
-- 
2.43.0


From 9af73931ca41305e4c9743df98021ac9b7e7c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 04/17] fix: dew (negative CMIP evaporation) adds to
 precipitation

---
 src/wam2layers/preprocessing/cmip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index cd1935e..af28c03 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -55,7 +55,7 @@ def get_input_data(datetime: CfDateTime, config: Config):
     data["precip"] = load_cmip_var("tp", datetime, config)
     data["evap"] = load_cmip_var("e", datetime, config)
 
-    data["precip"] = np.maximum(data["precip"], 0) + np.minimum(data["evap"], 0)
+    data["precip"] = np.maximum(data["precip"], 0) - np.minimum(data["evap"], 0)
     data["evap"] = np.abs(np.maximum(data["evap"], 0))
 
     return data
-- 
2.43.0


From d5e614f74ffa023635f465a3c4caef737db90c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 05/17] fix: use the meridional grid spacing for the north and
 south cell edges

---
 src/wam2layers/utils/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 812eb15..6f14f95 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -51,8 +51,8 @@ def get_grid_info(ds):
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-    lat_n = np.minimum(90.0, latitude + 0.5 * dx_deg)
-    lat_s = np.maximum(-90.0, latitude - 0.5 * dx_deg)
+    lat_n = np.minimum(90.0, latitude + 0.5 * dy_deg)
+    lat_s = np.maximum(-90.0, latitude - 0.5 * dy_deg)
 
     a = (
         np.pi
@@ -64,8 +64,8 @@ def get_grid_info(ds):
 
     # Calculate faces
     dy = dy_deg * dg  # [m] grid spacing in meridional direction
-    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dx_deg / 2) * np.pi / 180)
-    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dx_deg / 2) * np.pi / 180)
+    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dy_deg / 2) * np.pi / 180)
+    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dy_deg / 2) * np.pi / 180)
     dx = 0.5 * (dx_n_gridcell + dx_s_gridcell)  # [m] grid spacing in zonal direction
     return a, dy, dx[:, None]
 
-- 
2.43.0


From e0fa64ad554ad2fbcfbe3d9aa37d2d524e81dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 06/17] fix: a domain across the antimeridian includes its east
 and west bounds

---
 src/wam2layers/tracking/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index ba93247..69c7ea0 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -56,10 +56,10 @@ def select_subdomain(ds: xr.Dataset, bbox: str):
         # Need to roll coordinates to maintain a continuous longitude
         # Roll the first lon that's NOT in the bbox to the front of the array
         # That way, all values that ARE in the bbox, must be contiguous.
-        in_bbox = (ds.longitude < east) | (ds.longitude > west)
+        in_bbox = (ds.longitude <= east) | (ds.longitude >= west)
         n_roll = in_bbox.argmin().item()  # first false value
         ds_rolled = ds.roll(longitude=-n_roll, roll_coords=True)
-        in_bbox = (ds_rolled.longitude < east) | (ds_rolled.longitude > west)
+        in_bbox = (ds_rolled.longitude <= east) | (ds_rolled.longitude >= west)
         return ds_rolled.sel(longitude=in_bbox, latitude=slice(north, south))
 
 
-- 
2.43.0


From defffe62b47d9e492bececddd6d235446bdb35ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 07/17] fix: keep the seconds of dates when exporting a
 configuration

---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 5c67480..36f7999 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -605,5 +605,5 @@ class Config(BaseModel):
         jsondict = json.loads(jsonconfig)
 
         for date in dates:
-            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M")
+            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M:%S")
         return json.dumps(jsondict)
-- 
2.43.0


From 830e0b27671a0a54cf45827f84298a80cc91e873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 08/17] fix: range check of input data reports values outside
 the range

---
 src/wam2layers/analysis/checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/analysis/checks.py b/src/wam2layers/analysis/checks.py
index a5c78c1..7666ad6 100644
--- a/src/wam2layers/analysis/checks.py
+++ b/src/wam2layers/analysis/checks.py
@@ -84,8 +84,8 @@ def check_shape(data, ndim):
 
 
 def check_range(data, range):
-    if not data.min() >= range[0] and data.max() <= range[1]:
-        warnings.warn(f"Data for {data.name} is not within the range {min} to {max}.")
+    if not (data.min() >= range[0] and data.max() <= range[1]):
+        warnings.warn(f"Data for {data.name} is not within the range {range[0]} to {range[1]}.")
 
 
 def check_uniform(coord):
-- 
2.43.0


From e4a52529f26ccf6db1369b06f1aae998bfbb6546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 09/17] fix: grid spacing of a domain whose first two columns
 straddle the antimeridian

---
 src/wam2layers/utils/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 6f14f95..1e63d04 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -48,6 +48,7 @@ def get_grid_info(ds):
     latitude = ds.latitude.values
     longitude = ds.longitude.values
     dx_deg = np.abs(longitude[1] - longitude[0])  # [degrees]
+    dx_deg = np.minimum(dx_deg, 360.0 - dx_deg)  # first cells may straddle 180 degrees
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-- 
2.43.0


From 220a57ce32cefca0e523cfc305eb1575f7cd94ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 10/17] fix: NameError when reporting a coordinate with
 non-uniform spacing

---
 src/wam2layers/analysis/checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/analysis/checks.py b/src/wam2layers/analysis/checks.py
index 7666ad6..0819cc4 100644
--- a/src/wam2layers/analysis/checks.py
+++ b/src/wam2layers/analysis/checks.py
@@ -92,7 +92,7 @@ def check_uniform(coord):
     spacing = np.diff(coord)
     if not spacing.min() == spacing.max():
         warnings.warn(
-            f"Coordinate spacing is not uniform for coord {coord} of {data.name}"
+            f"Coordinate spacing is not uniform for coord {coord.name}"
         )
 
 
-- 
2.43.0


From 4ed08875878d58faeaaac21f9160b4033b38c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 11/17] fix: the documented shorthand for all model levels is
 rejected or crashes

---
 src/wam2layers/config.py             | 2 +-
 src/wam2layers/preprocessing/era5.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 36f7999..716f994 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -383,7 +383,7 @@ class Config(BaseModel):
 
     """
 
-    levels: "Union[List[int], Literal['All']]"
+    levels: "Union[List[int], Literal['all', 'All']]"
     """Which levels to use from the raw input data.
 
     A list of integers corresponding to the levels in the input data, or a
diff --git a/src/wam2layers/preprocessing/era5.py b/src/wam2layers/preprocessing/era5.py
index 513ad57..88062ae 100644
--- a/src/wam2layers/preprocessing/era5.py
+++ b/src/wam2layers/preprocessing/era5.py
@@ -155,7 +155,7 @@ def get_edges(era5_modellevels):
     """Get the values of a and b at the edges of a subset of ERA5 modellevels."""
     a, b = load_era5_ab()
 
-    if era5_modellevels == "all":
+    if era5_modellevels in ("all", "All"):
         return a, b
 
     # With python indexing starting at 0 and 137 full levels,
@@ -180,6 +180,8 @@ def get_edges(era5_modellevels):
 def get_dp_modellevels(sp, levels):
     """Calculate pressure jump over subset of era5 modellevels."""
     a, b = get_edges(levels)
+    if isinstance(levels, str):  # all levels
+        levels = list(range(1, len(a)))
 
     # Use dummy level -1 to avoid collision with existing levels
     # first coord will be discarded anyway on taking the diff below.
-- 
2.43.0


From 21830a6179ed181caca5507643ff69db1dbe75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 12/17] fix: the documented daily output frequency '1d' crashes
 at the first output

---
 src/wam2layers/utils/calendar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/utils/calendar.py b/src/wam2layers/utils/calendar.py
index 5246a64..a44a136 100644
--- a/src/wam2layers/utils/calendar.py
+++ b/src/wam2layers/utils/calendar.py
@@ -102,6 +102,7 @@ def fix_deprecated_frequency(freq: str) -> str:
         r"(?i)^(\d*)L$": r"\1ms",
         r"(?i)^(\d*)U$": r"\1us",
         r"(?i)^(\d*)N$": r"\1ns",
+        r"(?i)^(\d*)D$": r"\1D",  # xarray does not know the lower case alias
     }
 
     for pattern, repl in deprecated_map.items():
-- 
2.43.0


From 9d404e6f2a5a7421dfebb9eb5c2959434ad3448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 13/17] fix: a stability warning is not repeated by the other
 criterion in the next step

---
 src/wam2layers/utils/profiling.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index df635f8..2cc707c 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -145,19 +145,20 @@ class ProgressTracker:
         correction_factor = fy_corrected / fy_abs
         strongest_correction = correction_factor.min()
 
-        warn = False
-        if strongest_correction < self.stability_correction_previous_factor / 1.1:
-            self.stability_correction_previous_factor = strongest_correction
-            warn = True
-
-        elif (
+        stronger = strongest_correction < self.stability_correction_previous_factor / 1.1
+        larger = (
             corrected_percent > 5  # at least 5 percent of the grid should be corrected
             and corrected_percent > self.stability_correction_previous_grid * 1.1
-        ):
-            self.stability_correction_previous_grid = corrected_percent
-            warn = True
+        )
 
+        warn = stronger or larger
         if warn:
+            # Compare with this warning next time, whichever criterion raised it
+            if strongest_correction < self.stability_correction_previous_factor:
+                self.stability_correction_previous_factor = strongest_correction
+            if corrected_percent > self.stability_correction_previous_grid:
+                self.stability_correction_previous_grid = corrected_percent
+
             # Write correction field to output debug file
             # TODO: doesn't feel like the right place to do this.
             # a model object could improve the code structure.
-- 
2.43.0


From 121118488f4baa98820468c4c5fd853baf881573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 14/17] fix: download() refuses an HTTP error answer instead of
 saving it as data

---
 src/wam2layers/download.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index a55d4b1..4a84f7e 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -69,6 +69,7 @@ def download(url, destination, local_filename=None):
 
     logging.info(f"Downloading {local_filename}")
     with requests.get(url, stream=True) as r:
+        r.raise_for_status()
         with open(local_path, "wb") as f:
             shutil.copyfileobj(r.raw, f)
 
-- 
2.43.0


From eaa3bee167ea2259bd46a5b70bf307d15aff0641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:30 +0000
Subject: [PATCH 15/17] fix: refuse 3-hourly CMIP data with missing times
 instead of averaging across the gap

---
 src/wam2layers/preprocessing/cmip.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index af28c03..8d6f8bd 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -117,6 +117,7 @@ def load_cmip_var(variable: str, datetime: CfDateTime, config: Config):
 def resample_3hr_var(data: xr.DataArray) -> xr.DataArray:
     """Resample 3-hour flux variables to 6 hour intervals."""
     assert_correct_starttime(data)
+    assert_complete_pairs(data)
     data = data.copy(deep=True)
 
     data["time"] = np.repeat(
@@ -135,6 +136,14 @@ def assert_correct_starttime(data: xr.DataArray):
         raise ValueError(msg)
 
 
+def assert_complete_pairs(data: xr.DataArray):
+    """Two consecutive values make up a 6 hour interval, so these must be 3h apart."""
+    first, second = data["time"].values[::2], data["time"].values[1::2]
+    if len(first) != len(second) or (second - first != pd.Timedelta("3h")).any():
+        msg = f"Missing times in the data of 3 hour variable '{data.name}'."
+        raise ValueError(msg)
+
+
 def common_levels(*levels: xr.DataArray) -> np.ndarray:
     """Find common pressure/model levels between multiple variables."""
     lvs = iter(levels)
-- 
2.43.0


From f34e982af4d8fd97adc3281248f9a1ccd7241294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:11 +0000
Subject: [PATCH 16/17] fix: map of the input crashed, and assumed hourly input

pandas does not know the calendar dates of the configuration. The preprocessed data
come in one file per day, whatever the output frequency, and at the input frequency.
---
 src/wam2layers/analysis/visualization.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index 68df185..969b8dd 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -17,6 +17,7 @@ from wam2layers.tracking.io import (
     write_output,
 )
 from wam2layers.tracking.shared import initialize_tagging_region
+from wam2layers.utils.calendar import round_cftime
 from wam2layers.utils.grid import get_boundary, get_grid_info
 
 logger = logging.getLogger(__name__)
@@ -82,26 +83,28 @@ def _plot_input(config: Config, ax):
     # Load data
     start = config.tagging_start_date
     end = config.tagging_end_date
-    dates = pd.date_range(
-        start=start,
+    dates = xr.cftime_range(  # the preprocessed data have one file per day
+        start=round_cftime(start, "1D", "floor"),
         end=end,
-        freq=config.output_frequency,
-        inclusive="left",
+        freq="1D",
     )
 
     input_files = []
-    for date in dates[:-1]:
+    for date in dates:
         input_files.append(
             input_path(date, config.preprocessed_data_folder)
         )  # takes current directory but needs a better fix
-    ds = xr.open_mfdataset(input_files, combine="nested", concat_dim="time")
+    ds = xr.open_mfdataset(
+        input_files, combine="nested", concat_dim="time", use_cftime=True
+    )
     if config.tracking_direction == "backward":
         subset = ds.precip.sel(time=slice(start, end))
     else:
         subset = ds.evap.sel(time=slice(start, end))
 
     # TODO: check if backtrack files or forwardtrack files were in output
-    input = (subset * region * 3600).sum("time").compute()
+    seconds = pd.Timedelta(config.input_frequency).total_seconds()
+    input = (subset * region * seconds).sum("time").compute()
 
     # Make figure
     input.plot(ax=ax, cmap=cmocean.cm.rain, cbar_kwargs=dict(fraction=0.05, shrink=0.5))
-- 
2.43.0


From 3d2ef3dbb8f139aeb8e0461ebd7422aff0e05d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:20 +0000
Subject: [PATCH 17/17] fix: longitude bounds of a narrow domain across the
 antimeridian

---
 src/wam2layers/preprocessing/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/utils.py b/src/wam2layers/preprocessing/utils.py
index 50b6bb6..5a1218f 100644
--- a/src/wam2layers/preprocessing/utils.py
+++ b/src/wam2layers/preprocessing/utils.py
@@ -206,7 +206,8 @@ def add_bounds(ds: xr.Dataset) -> None:
     lats = ds["latitude"].to_numpy()
     lons = ds["longitude"].to_numpy()
     res_lat = np.median((np.diff(lats)))  # infer resolution
-    res_lon = np.median((np.diff(lons)))
+    # the longitudes may jump by a full circle (domain across the antimeridian)
+    res_lon = np.median(np.diff(np.sort(np.unwrap(lons, period=360))))
 
     ds["latitude_bnds"] = (
         ("latitude", "bnds"),
-- 
2.43.0

