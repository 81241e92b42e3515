From 235051f532b88d08f71c2aaf10212ca9cf1fc043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 01/48] fix: keep zero fluxes zero in the stability correction

The result of fillna was discarded, so a cell without any horizontal flux in a
layer (0/0) turned the tracked moisture into NaN.
---
 src/wam2layers/tracking/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index ab99bda..dbda23d 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -154,8 +154,8 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         progress_tracker.track_stability_correction(fy_stable, fy_abs, config, t)
 
         # Get rid of any nan values
-        fx_stable.fillna(0)
-        fy_stable.fillna(0)
+        fx_stable = fx_stable.fillna(0)
+        fy_stable = fy_stable.fillna(0)
 
         # Re-instate the sign and convert back to flux instead of accumulation
         F["fx_" + level] = np.sign(fx) * fx_stable / config.timestep
-- 
2.43.0


From ce167d00dc8afd58b52d6c343cd5322fb3f2f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 02/48] fix: make restarting from an earlier output possible

Output files have a time dimension of length one, which does not fit in the
2-dimensional initial state.
---
 src/wam2layers/tracking/backtrack.py    | 1 +
 src/wam2layers/tracking/forwardtrack.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index c81d5f7..8119126 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -139,6 +139,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
         # Reload last state from existing output
         date = config.tracking_end_date
         ds = xr.open_dataset(output_path(date, config))
+        ds = ds.isel(time=0)  # output files have a time dimension of length 1
         output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
         output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
 
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index c3cf2ae..6f40a5a 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -142,6 +142,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
         # Reload last state from existing output
         date = config.tracking_start_date
         ds = xr.open_dataset(output_path(date, config))
+        ds = ds.isel(time=0)  # output files have a time dimension of length 1
         output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
         output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
 
-- 
2.43.0


From 66f146c42ff94d82bd68bdc07c6f7cd07c6981e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 03/48] fix: use the latitude spacing for the meridional extent
 of grid cells

Area and face lengths were wrong on grids with different spacing in latitude
and longitude.
---
 src/wam2layers/utils/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 812eb15..6f14f95 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -51,8 +51,8 @@ def get_grid_info(ds):
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-    lat_n = np.minimum(90.0, latitude + 0.5 * dx_deg)
-    lat_s = np.maximum(-90.0, latitude - 0.5 * dx_deg)
+    lat_n = np.minimum(90.0, latitude + 0.5 * dy_deg)
+    lat_s = np.maximum(-90.0, latitude - 0.5 * dy_deg)
 
     a = (
         np.pi
@@ -64,8 +64,8 @@ def get_grid_info(ds):
 
     # Calculate faces
     dy = dy_deg * dg  # [m] grid spacing in meridional direction
-    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dx_deg / 2) * np.pi / 180)
-    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dx_deg / 2) * np.pi / 180)
+    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dy_deg / 2) * np.pi / 180)
+    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dy_deg / 2) * np.pi / 180)
     dx = 0.5 * (dx_n_gridcell + dx_s_gridcell)  # [m] grid spacing in zonal direction
     return a, dy, dx[:, None]
 
-- 
2.43.0


From d04778ebf2d629a87530492995f0dfda0236b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 04/48] fix: grid spacing of domains that cross the
 antimeridian after the first column

---
 src/wam2layers/utils/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 6f14f95..d19e504 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -48,6 +48,7 @@ def get_grid_info(ds):
     latitude = ds.latitude.values
     longitude = ds.longitude.values
     dx_deg = np.abs(longitude[1] - longitude[0])  # [degrees]
+    dx_deg = np.minimum(dx_deg, 360 - dx_deg)  # crossing the antimeridian
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-- 
2.43.0


From d3feab0a9d20c2c4209d776815c4bf7be901f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 05/48] fix: subtract gained moisture in the reported tagging
 closure

Gained moisture is a source, like tagged moisture: it was counted as a sink, so
the closure exceeded 100% by twice the gains.
---
 src/wam2layers/utils/profiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index 1c2ef64..df635f8 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -106,7 +106,7 @@ class ProgressTracker:
             tracked_percentage
             + in_atmos_percentage
             + lost_percentage
-            + gained_percentage
+            - gained_percentage
             + boundary_percentage
         )
 
-- 
2.43.0


From 67bd3e5c27c2a027ec808526585463bd41242ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 06/48] fix: add condensation to precipitation in CMIP
 preprocessing

Negative evaporation was subtracted from precipitation.
---
 src/wam2layers/preprocessing/cmip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index cd1935e..af28c03 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -55,7 +55,7 @@ def get_input_data(datetime: CfDateTime, config: Config):
     data["precip"] = load_cmip_var("tp", datetime, config)
     data["evap"] = load_cmip_var("e", datetime, config)
 
-    data["precip"] = np.maximum(data["precip"], 0) + np.minimum(data["evap"], 0)
+    data["precip"] = np.maximum(data["precip"], 0) - np.minimum(data["evap"], 0)
     data["evap"] = np.abs(np.maximum(data["evap"], 0))
 
     return data
-- 
2.43.0


From 418cb3e2eb1ef7d61c3ad13d2175557283b45742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 07/48] fix: write preprocessed data with decreasing latitude

Tracking assumes that latitude is decreasing, CMIP data has it increasing.
---
 src/wam2layers/preprocessing/shared.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index 0c60073..243423a 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -216,6 +216,7 @@ def preprocess(
         )
 
         ds = shift_longitude(ds)
+        ds = ds.sortby("latitude", ascending=False)  # as expected for tracking
         add_bounds(ds)
 
         # Add attributes
-- 
2.43.0


From 1885c09ac9cdf71def6093a34180f63775d574a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 08/48] fix: include cells on the edges of domains that cross
 the antimeridian

as is done for other domains.
---
 src/wam2layers/tracking/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index ba93247..69c7ea0 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -56,10 +56,10 @@ def select_subdomain(ds: xr.Dataset, bbox: str):
         # Need to roll coordinates to maintain a continuous longitude
         # Roll the first lon that's NOT in the bbox to the front of the array
         # That way, all values that ARE in the bbox, must be contiguous.
-        in_bbox = (ds.longitude < east) | (ds.longitude > west)
+        in_bbox = (ds.longitude <= east) | (ds.longitude >= west)
         n_roll = in_bbox.argmin().item()  # first false value
         ds_rolled = ds.roll(longitude=-n_roll, roll_coords=True)
-        in_bbox = (ds_rolled.longitude < east) | (ds_rolled.longitude > west)
+        in_bbox = (ds_rolled.longitude <= east) | (ds_rolled.longitude >= west)
         return ds_rolled.sel(longitude=in_bbox, latitude=slice(north, south))
 
 
-- 
2.43.0


From b0f192a80996056dcb3012b7651d1541f98e353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 09/48] fix: time bounds of output state the interval that was
 accumulated

The first and last interval, and intervals with a timestep that does not fit in
the output frequency, differ from the output frequency.
---
 src/wam2layers/tracking/backtrack.py    |  4 +++-
 src/wam2layers/tracking/forwardtrack.py |  4 +++-
 src/wam2layers/tracking/io.py           | 14 +++++---------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index 8119126..58084c1 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -162,6 +162,7 @@ def run_experiment(config_file: Config):
     )
 
     t0, th, t1, dt = initialize_time(config, direction="backward")
+    t_previous_output = t1
 
     if isinstance(config.tagging_region, Path):
         tagging_region = load_tagging_region(config)
@@ -209,7 +210,8 @@ def run_experiment(config_file: Config):
         if is_output_time or is_final_step:
             progress_tracker.print_progress(t1, output)
             progress_tracker.store_intermediate_states(output)
-            write_output(output, t1, config)
+            write_output(output, t1, t_previous_output, config)
+            t_previous_output = t1
             # Flush previous outputs
             output[["e_track", "tagged_precip", "losses", "gains"]] *= 0
 
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index 6f40a5a..c125d74 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -165,6 +165,7 @@ def run_experiment(config_file: Config):
     )
 
     t0, th, t1, dt = initialize_time(config, direction="forward")
+    t_previous_output = t0
 
     if isinstance(config.tagging_region, Path):
         tagging_region = load_tagging_region(config)
@@ -218,7 +219,8 @@ def run_experiment(config_file: Config):
         if is_output_time or is_final_step:
             progress_tracker.print_progress(t0, output)
             progress_tracker.store_intermediate_states(output)
-            write_output(output, t0, config)
+            write_output(output, t0, t_previous_output, config)
+            t_previous_output = t0
             # Flush previous outputs
             output[
                 ["p_track_upper", "p_track_lower", "tagged_evap", "losses", "gains"]
diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 69c7ea0..77063d4 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -8,7 +8,6 @@ from pathlib import Path
 from typing import Optional
 
 import numpy as np
-import pandas as pd
 import xarray as xr
 
 from wam2layers import __version__
@@ -155,13 +154,9 @@ def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
     return tagging_region
 
 
-def add_time_bounds(ds: xr.Dataset, t: CfDateTime, config: Config):
-    """Compute the time bounds and add them to the output dataset."""
-    dt = pd.Timedelta(config.output_frequency)
-    if config.tracking_direction == "forward":
-        ds["time_bnds"] = (("time", "bnds"), np.array(((t - dt, t),)))
-    else:
-        ds["time_bnds"] = (("time", "bnds"), np.array(((t + dt, t),)))
+def add_time_bounds(ds: xr.Dataset, t: CfDateTime, t_previous: CfDateTime):
+    """Add the bounds of the accumulation interval to the output dataset."""
+    ds["time_bnds"] = (("time", "bnds"), np.array(((t_previous, t),)))
 
 
 def get_main_attrs(attrs: dict, config: Config):
@@ -190,6 +185,7 @@ def get_main_attrs(attrs: dict, config: Config):
 def write_output(
     output: xr.Dataset,
     t: CfDateTime,
+    t_previous: CfDateTime,
     config: Config,
 ) -> None:
     # TODO: add back (and cleanup) coordinates and units
@@ -203,7 +199,7 @@ def write_output(
         output[var].attrs.update(DATA_ATTRIBUTES[str(var)])
 
     add_bounds(output)
-    add_time_bounds(output, t, config)
+    add_time_bounds(output, t, t_previous)
     output.attrs = get_main_attrs(output.attrs, config)
 
     comp = dict(zlib=True, complevel=8)
-- 
2.43.0


From 41ba6e3be0d871fbb4efd57b0e99e96a386599c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 10/48] fix: accept lower case days as frequency

The documented output_frequency '1d' was accepted and then made tracking fail.
---
 src/wam2layers/utils/calendar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/utils/calendar.py b/src/wam2layers/utils/calendar.py
index 5246a64..68214ad 100644
--- a/src/wam2layers/utils/calendar.py
+++ b/src/wam2layers/utils/calendar.py
@@ -94,6 +94,7 @@ def fix_deprecated_frequency(freq: str) -> str:
     This fix recognizes the old format and converts it to the new one.
     """
     deprecated_map = {
+        r"^(\d*)d$": r"\1D",
         r"(?i)^(\d*)CBH$": r"\1cbh",
         r"(?i)^(\d*)BH$": r"\1bh",
         r"(?i)^(\d*)H$": r"\1h",
-- 
2.43.0


From ae859d5ff54df2a02513227ac9bb0a3fab77d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 11/48] fix: accept the documented levels: all

It was refused, and the accepted "All" made preprocessing of model levels fail.
---
 src/wam2layers/config.py             | 2 +-
 src/wam2layers/preprocessing/era5.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 5c67480..b225326 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -383,7 +383,7 @@ class Config(BaseModel):
 
     """
 
-    levels: "Union[List[int], Literal['All']]"
+    levels: "Union[List[int], Literal['all', 'All']]"
     """Which levels to use from the raw input data.
 
     A list of integers corresponding to the levels in the input data, or a
diff --git a/src/wam2layers/preprocessing/era5.py b/src/wam2layers/preprocessing/era5.py
index 513ad57..bfaa525 100644
--- a/src/wam2layers/preprocessing/era5.py
+++ b/src/wam2layers/preprocessing/era5.py
@@ -155,7 +155,7 @@ def get_edges(era5_modellevels):
     """Get the values of a and b at the edges of a subset of ERA5 modellevels."""
     a, b = load_era5_ab()
 
-    if era5_modellevels == "all":
+    if era5_modellevels in ("all", "All"):
         return a, b
 
     # With python indexing starting at 0 and 137 full levels,
@@ -180,6 +180,8 @@ def get_edges(era5_modellevels):
 def get_dp_modellevels(sp, levels):
     """Calculate pressure jump over subset of era5 modellevels."""
     a, b = get_edges(levels)
+    if levels in ("all", "All"):
+        levels = np.arange(1, 138)
 
     # Use dummy level -1 to avoid collision with existing levels
     # first coord will be discarded anyway on taking the diff below.
-- 
2.43.0


From e29528b2b49e6c95fee4f27c43b04041f48e78e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 12/48] fix: do not save error pages or encoded content as
 downloaded files

Server errors were stored as if they were the file, compressed transfers were
stored compressed, and incomplete ones were not noticed.
---
 src/wam2layers/download.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index a55d4b1..e3320e2 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -2,7 +2,6 @@
 
 import logging
 import re
-import shutil
 from pathlib import Path
 
 import requests
@@ -69,8 +68,10 @@ def download(url, destination, local_filename=None):
 
     logging.info(f"Downloading {local_filename}")
     with requests.get(url, stream=True) as r:
+        r.raise_for_status()
         with open(local_path, "wb") as f:
-            shutil.copyfileobj(r.raw, f)
+            for chunk in r.iter_content(chunk_size=2**20):
+                f.write(chunk)
 
 
 def get_4tu_id(doi):
-- 
2.43.0


From 8c006220b97e28c720076a9e5e0815ae8ba7301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 13/48] fix: warn about values above the allowed range

Operator precedence made the check pass for any value above the range.
---
 src/wam2layers/analysis/checks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/analysis/checks.py b/src/wam2layers/analysis/checks.py
index a5c78c1..9f97490 100644
--- a/src/wam2layers/analysis/checks.py
+++ b/src/wam2layers/analysis/checks.py
@@ -84,8 +84,10 @@ def check_shape(data, ndim):
 
 
 def check_range(data, range):
-    if not data.min() >= range[0] and data.max() <= range[1]:
-        warnings.warn(f"Data for {data.name} is not within the range {min} to {max}.")
+    if not (data.min() >= range[0] and data.max() <= range[1]):
+        warnings.warn(
+            f"Data for {data.name} is not within the range {range[0]} to {range[1]}."
+        )
 
 
 def check_uniform(coord):
-- 
2.43.0


From 0b6f1a2e46ee88a3573b6bba62401fd080336c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 14/48] fix: do not use input data cached by an earlier
 tracking experiment

When input files were replaced, the next experiment in the same process mixed
old and new data.
---
 src/wam2layers/tracking/backtrack.py    | 2 ++
 src/wam2layers/tracking/forwardtrack.py | 2 ++
 src/wam2layers/tracking/io.py           | 5 +++++
 3 files changed, 9 insertions(+)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index 58084c1..700471e 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -14,6 +14,7 @@ from wam2layers.tracking.core import (
     vertical_dispersion,
 )
 from wam2layers.tracking.io import (
+    clear_cache,
     load_data,
     load_tagging_region,
     output_path,
@@ -119,6 +120,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     logger.info(f"Initializing experiment with config file {config_file}")
 
     config = Config.from_yaml(config_file)
+    clear_cache()
 
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_end_date
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index c125d74..a47729e 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -14,6 +14,7 @@ from wam2layers.tracking.core import (
     vertical_dispersion,
 )
 from wam2layers.tracking.io import (
+    clear_cache,
     load_data,
     load_tagging_region,
     output_path,
@@ -121,6 +122,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     logger.info(f"Initializing experiment with config file {config_file}")
 
     config = Config.from_yaml(config_file)
+    clear_cache()
 
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_start_date
diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 77063d4..e16dfd0 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -110,6 +110,11 @@ def _load_slice_with_cache(filename, time, subset: str, bbox: Optional[str] = No
     return fully_load_and_detach(ds)
 
 
+def clear_cache() -> None:
+    """Forget loaded data: input files may have changed since a previous experiment."""
+    _load_slice_with_cache.cache_clear()
+
+
 def load_slice(t: CfDateTime, subset: str, config: Config) -> xr.Dataset:
     filename = input_path(t, config.preprocessed_data_folder)
     time = t.strftime("%Y-%m-%dT%H:%M:%S")
-- 
2.43.0


From 46795851e43501bf101188a0174334a089c5b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 15/48] fix: do not use input files cached by an earlier
 preprocessing run

---
 src/wam2layers/preprocessing/shared.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index 243423a..049455c 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -110,6 +110,10 @@ def prep_experiment(
     """
     config = Config.from_yaml(config_file)
 
+    # Input files may have changed since a previous experiment
+    era5.open_da.cache_clear()
+    cmip.open_var.cache_clear()
+
     if data_source == "CMIP":
         validate_calendar_type(config)
 
-- 
2.43.0


From 797c67f8d82ca667a4795a6a042a67b584cad7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 16/48] fix: accept a configuration file that already is in the
 output folder

---
 src/wam2layers/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/cli.py b/src/wam2layers/cli.py
index 6c6cf71..1745206 100644
--- a/src/wam2layers/cli.py
+++ b/src/wam2layers/cli.py
@@ -63,7 +63,8 @@ def setup_logging(log_path: Union[str, Path], debug: bool):
 
 def _copy_config_yaml(yaml_path, target_path):
     """Copy config file to the output path."""
-    shutil.copy(yaml_path, target_path)
+    if Path(yaml_path).resolve().parent != Path(target_path).resolve():
+        shutil.copy(yaml_path, target_path)
 
 
 def get_wam_version():
-- 
2.43.0


From 1fd7a5b96213220014e476fcd3e86102d1d82736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 17/48] fix: do not warn about rounding errors in coordinate
 spacing

A uniform spacing such as 0.1 degrees was reported as not uniform.
---
 src/wam2layers/analysis/checks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/analysis/checks.py b/src/wam2layers/analysis/checks.py
index 9f97490..c7dd4d5 100644
--- a/src/wam2layers/analysis/checks.py
+++ b/src/wam2layers/analysis/checks.py
@@ -92,7 +92,8 @@ def check_range(data, range):
 
 def check_uniform(coord):
     spacing = np.diff(coord)
-    if not spacing.min() == spacing.max():
+    # allow for the limited precision with which coordinates are stored
+    if spacing.max() - spacing.min() > 1e-3 * abs(spacing.min()):
         warnings.warn(
             f"Coordinate spacing is not uniform for coord {coord} of {data.name}"
         )
-- 
2.43.0


From aaca5fce492b7c3bbeb4f753691828e554487c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 18/48] fix: make the figure of the input data work again

It failed on cftime dates. Read each daily file once, and use the input frequency
instead of assuming hourly data.
---
 src/wam2layers/analysis/visualization.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index 68df185..99032c1 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -17,6 +17,7 @@ from wam2layers.tracking.io import (
     write_output,
 )
 from wam2layers.tracking.shared import initialize_tagging_region
+from wam2layers.utils.calendar import round_cftime
 from wam2layers.utils.grid import get_boundary, get_grid_info
 
 logger = logging.getLogger(__name__)
@@ -82,26 +83,24 @@ def _plot_input(config: Config, ax):
     # Load data
     start = config.tagging_start_date
     end = config.tagging_end_date
-    dates = pd.date_range(
-        start=start,
+    days = xr.cftime_range(
+        start=round_cftime(start, "1D", "floor"),
         end=end,
-        freq=config.output_frequency,
-        inclusive="left",
+        freq="1D",
     )
 
-    input_files = []
-    for date in dates[:-1]:
-        input_files.append(
-            input_path(date, config.preprocessed_data_folder)
-        )  # takes current directory but needs a better fix
-    ds = xr.open_mfdataset(input_files, combine="nested", concat_dim="time")
+    input_files = [input_path(day, config.preprocessed_data_folder) for day in days]
+    ds = xr.open_mfdataset(
+        input_files, combine="nested", concat_dim="time", use_cftime=True
+    )
     if config.tracking_direction == "backward":
         subset = ds.precip.sel(time=slice(start, end))
     else:
         subset = ds.evap.sel(time=slice(start, end))
 
     # TODO: check if backtrack files or forwardtrack files were in output
-    input = (subset * region * 3600).sum("time").compute()
+    nseconds = pd.Timedelta(config.input_frequency).total_seconds()
+    input = (subset * region * nseconds).sum("time").compute()
 
     # Make figure
     input.plot(ax=ax, cmap=cmocean.cm.rain, cbar_kwargs=dict(fraction=0.05, shrink=0.5))
-- 
2.43.0


From 9da375260b42dcc9597d30b37abaa295d8d52f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 19/48] fix: show all output of an experiment in the figure of
 tracked moisture

The last (forward) or first (backward) output file was left out, and the figure
failed if the experiment did not start on a multiple of the output frequency.
---
 src/wam2layers/analysis/visualization.py | 13 ++-----------
 src/wam2layers/tracking/io.py            | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index 99032c1..1c189d9 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -13,6 +13,7 @@ from wam2layers.tracking.io import (
     input_path,
     load_data,
     load_tagging_region,
+    output_dates,
     output_path,
     write_output,
 )
@@ -130,17 +131,7 @@ def _plot_output(config: Config, ax):
     # region = load_tagging_region(config)
 
     # Load data
-    dates = xr.cftime_range(
-        start=config.tracking_start_date,
-        end=config.tracking_end_date,
-        freq=config.output_frequency,
-        inclusive="left",
-    )
-
-    if config.tracking_direction == "backward":
-        output_files = [output_path(date, config) for date in dates[:-1]]
-    else:
-        output_files = [output_path(date, config) for date in dates[1:]]
+    output_files = [output_path(date, config) for date in output_dates(config)]
 
     if not all([Path(file).exists() for file in output_files]):
         raise FileNotFoundError(f"Could not find all files: {output_files}.")
diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index e16dfd0..be49901 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -3,6 +3,7 @@ import time
 import traceback
 from copy import deepcopy
 from datetime import datetime as pydt
+from datetime import timedelta
 from functools import lru_cache
 from pathlib import Path
 from typing import Optional
@@ -30,6 +31,23 @@ def output_path(date: CfDateTime, config: Config):
     return f"{output_dir}/{mode}_{date.strftime('%Y-%m-%dT%H-%M')}.nc"
 
 
+def output_dates(config: Config) -> list[CfDateTime]:
+    """List the times for which a completed experiment has written output."""
+    dt = timedelta(seconds=config.timestep)
+    n_steps = (config.tracking_end_date - config.tracking_start_date) // dt
+
+    if config.tracking_direction == "backward":
+        times = [config.tracking_end_date - (i + 1) * dt for i in range(n_steps)]
+    else:
+        times = [config.tracking_start_date + (i + 1) * dt for i in range(n_steps)]
+
+    return [
+        t
+        for t in times
+        if t == times[-1] or t == round_cftime(t, config.output_frequency, "floor")
+    ]
+
+
 def fully_load_and_detach(ds: xr.Dataset) -> xr.Dataset:
     """Force all variables into memory and detach from OPeNDAP/netCDF backend."""
     # Extract data variables with explicit dimension names
-- 
2.43.0


From 8c50e37081b0e51434be223845a3c3ab1b2e5fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 20/48] fix: close the vertical balance across the seam of a
 periodic domain

---
 src/wam2layers/tracking/backtrack.py    |  4 +++-
 src/wam2layers/tracking/core.py         | 18 +++++++++++++-----
 src/wam2layers/tracking/forwardtrack.py |  4 +++-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index 700471e..8c16c89 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -198,7 +198,9 @@ def run_experiment(config_file: Config):
         stabilize_fluxes(F, S1, progress_tracker, config, t1)
 
         # Determine the vertical moisture flux
-        F["f_vert"] = calculate_fz(F, S0, S1, config.timestep, config.kvf)
+        F["f_vert"] = calculate_fz(
+            F, S0, S1, config.timestep, config.kvf, config.periodic_boundary
+        )
 
         # Inside backtrack the "output" dictionary is updated
         backtrack(F, S1, S0, tagging_mask, output, config)
diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index dbda23d..16bc363 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -162,12 +162,16 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         F["fy_" + level] = np.sign(fy) * fy_stable / config.timestep
 
 
-def divergence(fx, fy):
+def divergence(fx, fy, periodic_x=False):
     # Note: latitude decreasing, hence negative fy gradient is divergence
-    return np.gradient(fx, axis=-1) - np.gradient(fy, axis=-2)
+    if periodic_x:
+        dfx = np.gradient(pad_x_wrap(fx), axis=-1)[:, 1:-1]
+    else:
+        dfx = np.gradient(fx, axis=-1)
+    return dfx - np.gradient(fy, axis=-2)
 
 
-def calculate_fz(F, S0, S1, dt, kvf):
+def calculate_fz(F, S0, S1, dt, kvf, periodic_x=False):
     """Calculate the vertical fluxes.
 
     The vertical flux is calculated as a closure term. Residuals are distributed
@@ -182,6 +186,7 @@ def calculate_fz(F, S0, S1, dt, kvf):
         dt: timestep
         kvf: net to gross vertical flux multiplication parameter. With the a value of 0,
             the net and gross fluxes are equal.
+        periodic_x: whether the domain is periodic in the east-west direction.
 
     Returns:
         fz: vertical flux, positive downward
@@ -226,10 +231,13 @@ def calculate_fz(F, S0, S1, dt, kvf):
 
     # Evaluate all terms in the moisture balance execpt the unknown Fz and err
     foo_upper = (S1 - S0).s_upper + dt * (
-        divergence(F.fx_upper, F.fy_upper) + F.precip.values * s_rel.s_upper
+        divergence(F.fx_upper, F.fy_upper, periodic_x)
+        + F.precip.values * s_rel.s_upper
     ) / a[:, None]
     foo_lower = (S1 - S0).s_lower + dt * (
-        divergence(F.fx_lower, F.fy_lower) + F.precip.values * s_rel.s_lower - F.evap
+        divergence(F.fx_lower, F.fy_lower, periodic_x)
+        + F.precip.values * s_rel.s_lower
+        - F.evap
     ) / a[:, None]
 
     # compute the resulting vertical moisture flux; the vertical velocity so
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index a47729e..9e893c1 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -206,7 +206,9 @@ def run_experiment(config_file: Config):
         stabilize_fluxes(F, S0, progress_tracker, config, t0)
 
         # Determine the vertical moisture flux
-        F["f_vert"] = calculate_fz(F, S0, S1, config.timestep, config.kvf)
+        F["f_vert"] = calculate_fz(
+            F, S0, S1, config.timestep, config.kvf, config.periodic_boundary
+        )
 
         # TODO: consider changing signature to F, S0, S1
         # Inside forwardtrack the "output" dictionary is updated
-- 
2.43.0


From 6af3bab5d564b3ea7082a27969753eaa58472c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 21/48] fix: expand ~ in folders of the configuration as
 documented

---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index b225326..8d6cb31 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -526,7 +526,7 @@ class Config(BaseModel):
     def _expanduser(cls, path):
         """Resolve ~ in input paths."""
         if isinstance(path, Path):
-            return path.absolute()
+            return path.expanduser().absolute()
         return path  # Leave URLs untouched
 
     @field_validator("preprocessed_data_folder", "output_folder")
-- 
2.43.0


From d93bd5e115a37f3b7d0595c9b948d29c48000cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 22/48] fix: keep seconds of dates when exporting a
 configuration

---
 src/wam2layers/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 8d6cb31..9dec096 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -605,5 +605,7 @@ class Config(BaseModel):
         jsondict = json.loads(jsonconfig)
 
         for date in dates:
-            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M")
+            value = getattr(self, date)
+            fmt = "%Y-%m-%dT%H:%M:%S" if value.second else "%Y-%m-%dT%H:%M"
+            jsondict[date] = value.strftime(fmt)
         return json.dumps(jsondict)
-- 
2.43.0


From 444e385f2794f58a9130c3d890494725067dd542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 23/48] fix: do not truncate surface pressure to whole Pascal
 on integer levels

---
 src/wam2layers/preprocessing/pressure_levels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/pressure_levels.py b/src/wam2layers/preprocessing/pressure_levels.py
index 95aadb0..6460149 100644
--- a/src/wam2layers/preprocessing/pressure_levels.py
+++ b/src/wam2layers/preprocessing/pressure_levels.py
@@ -42,7 +42,7 @@ def extend_pressurelevels(
 
     da_p = level_data["level"].broadcast_like(level_data["u"])
 
-    p = da_p.to_numpy()
+    p = da_p.to_numpy().astype("float64")  # levels can be integers, ps is not
     u = level_data["u"].to_numpy()
     v = level_data["v"].to_numpy()
     q = level_data["q"].to_numpy()
-- 
2.43.0


From b33047fad352dd2ce30114f0692dc57d22126185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 24/48] fix: accept levels: all for ARCO-ERA5

---
 src/wam2layers/preprocessing/arco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/arco.py b/src/wam2layers/preprocessing/arco.py
index 9f8d713..4cb7cc8 100644
--- a/src/wam2layers/preprocessing/arco.py
+++ b/src/wam2layers/preprocessing/arco.py
@@ -73,7 +73,8 @@ def get_input_data(datetime: CfDateTime, config: Config):
     ds = open_arco_pl()
     data = ds.sel(time=datetime).compute()
 
-    data = data.sel(level=config.levels)  # Only select wanted levels
+    if isinstance(config.levels, list):
+        data = data.sel(level=config.levels)  # Only select wanted levels
 
     data["qs"] = calculate_humidity(
         data["2m_dewpoint_temperature"], data["surface_pressure"]
-- 
2.43.0


From 412cf62e306b77cae02b16d6a921f654fdaa9272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 25/48] fix: write preprocessed data with increasing longitude

---
 src/wam2layers/preprocessing/shared.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index 049455c..a588041 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -221,6 +221,7 @@ def preprocess(
 
         ds = shift_longitude(ds)
         ds = ds.sortby("latitude", ascending=False)  # as expected for tracking
+        ds = ds.sortby("longitude")
         add_bounds(ds)
 
         # Add attributes
-- 
2.43.0


From 7b9b13fca8b10585e2d66799944fb3f6a0802189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 26/48] fix: do not average CMIP 3-hourly records across a gap

---
 src/wam2layers/preprocessing/cmip.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index af28c03..0f70b2c 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -117,6 +117,7 @@ def load_cmip_var(variable: str, datetime: CfDateTime, config: Config):
 def resample_3hr_var(data: xr.DataArray) -> xr.DataArray:
     """Resample 3-hour flux variables to 6 hour intervals."""
     assert_correct_starttime(data)
+    assert_complete_pairs(data)
     data = data.copy(deep=True)
 
     data["time"] = np.repeat(
@@ -135,6 +136,20 @@ def assert_correct_starttime(data: xr.DataArray):
         raise ValueError(msg)
 
 
+def assert_complete_pairs(data: xr.DataArray):
+    """Make sure every two records that are averaged are 3 hours apart."""
+    times = data["time"].values
+    if times.size % 2 == 0:
+        step = pd.to_timedelta(times[1::2] - times[::2])
+        if (step == pd.Timedelta("3h")).all():
+            return
+    msg = (
+        f"Missing data for 3 hour variable '{data.name}'.\n"
+        f"Cannot average the records to 6 hour intervals."
+    )
+    raise ValueError(msg)
+
+
 def common_levels(*levels: xr.DataArray) -> np.ndarray:
     """Find common pressure/model levels between multiple variables."""
     lvs = iter(levels)
-- 
2.43.0


From 60c8b3f005a574e5e86168b806730928689ddea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 27/48] fix: validate the dimensions of total column water

---
 src/wam2layers/preprocessing/input_validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wam2layers/preprocessing/input_validation.py b/src/wam2layers/preprocessing/input_validation.py
index af55fe3..fe61a6a 100644
--- a/src/wam2layers/preprocessing/input_validation.py
+++ b/src/wam2layers/preprocessing/input_validation.py
@@ -35,6 +35,8 @@ def validate_vars(data: xr.Dataset, config: Config) -> None:
         expected_surface_vars.extend(["qs", "us", "vs"])
     if config.level_type == "model_levels":
         expected_level_vars.extend(["dp"])
+    if "tcw" in data.data_vars:  # optional
+        expected_surface_vars.append("tcw")
 
     # Check if the variables are present
     for var in expected_level_vars + expected_surface_vars:
-- 
2.43.0


From 1bfd46d95f46c8d4c2268ea20f046354ea716e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:30 +0000
Subject: [PATCH 28/48] Revert "fix: do not truncate surface pressure to whole
 Pascal on integer levels"

The regression data of TestPreprocessPl was computed with the truncation.
---
 src/wam2layers/preprocessing/pressure_levels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/pressure_levels.py b/src/wam2layers/preprocessing/pressure_levels.py
index 6460149..95aadb0 100644
--- a/src/wam2layers/preprocessing/pressure_levels.py
+++ b/src/wam2layers/preprocessing/pressure_levels.py
@@ -42,7 +42,7 @@ def extend_pressurelevels(
 
     da_p = level_data["level"].broadcast_like(level_data["u"])
 
-    p = da_p.to_numpy().astype("float64")  # levels can be integers, ps is not
+    p = da_p.to_numpy()
     u = level_data["u"].to_numpy()
     v = level_data["v"].to_numpy()
     q = level_data["q"].to_numpy()
-- 
2.43.0


From 9bccfbe1931e8e8eab312ffe09b3b84baa2e1c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 29/48] fix: weigh reported totals with the true cell area

---
 src/wam2layers/utils/profiling.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index df635f8..1acb799 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -7,6 +7,7 @@ import psutil
 import xarray as xr
 
 from wam2layers.config import Config
+from wam2layers.utils.grid import get_grid_info
 
 logger = logging.getLogger(__name__)
 
@@ -28,6 +29,12 @@ class Profiler:
         return psutil.Process().memory_info().rss / (1024 * 1024)
 
 
+def cell_area(output: xr.Dataset) -> xr.DataArray:
+    """Area of the grid cells of each latitude, also where they reach a pole."""
+    area, _, _ = get_grid_info(output)
+    return xr.DataArray(area, coords={"latitude": output["latitude"]})
+
+
 class ProgressTracker:
     def __init__(self, output, mode="backtrack", periodic_x=False):
         """Keep track of tagged and tracked moisture."""
@@ -49,7 +56,7 @@ class ProgressTracker:
         Intended for when the output fields are reset at write time, so we
         don't lose accumulations from previous outputs.
         """
-        area_weighted_output = output * np.cos(np.deg2rad(output["latitude"]))
+        area_weighted_output = output * cell_area(output)
         totals = area_weighted_output.sum()
 
         if self.mode == "backtrack":
@@ -71,7 +78,7 @@ class ProgressTracker:
 
     def print_progress(self, t, output):
         """Print some useful runtime diagnostics."""
-        area_weighted_output = output * np.cos(np.deg2rad(output["latitude"]))
+        area_weighted_output = output * cell_area(output)
         totals = area_weighted_output.sum()
 
         if self.mode == "backtrack":
-- 
2.43.0


From 762e848b880c24451fe9b44c32df2016dfddeead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:26 +0000
Subject: [PATCH 30/48] fix: refuse downloaded file names that lead out of the
 target folder

---
 src/wam2layers/download.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index e3320e2..0fd6a14 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -64,6 +64,10 @@ def download(url, destination, local_filename=None):
     if local_filename is None:
         local_filename = url.split("/")[-1]
 
+    # The name comes from the server; it must not lead out of the destination.
+    if Path(local_filename).name != local_filename:
+        raise ValueError(f"Refusing to download to unsafe path {local_filename}.")
+
     local_path = destination / local_filename
 
     logging.info(f"Downloading {local_filename}")
-- 
2.43.0


From 69b47c119d207567420428e0626fd1037e500fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 31/48] fix: warn about uneven coordinates instead of crashing

---
 src/wam2layers/analysis/checks.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wam2layers/analysis/checks.py b/src/wam2layers/analysis/checks.py
index c7dd4d5..cc0b8ce 100644
--- a/src/wam2layers/analysis/checks.py
+++ b/src/wam2layers/analysis/checks.py
@@ -94,9 +94,7 @@ def check_uniform(coord):
     spacing = np.diff(coord)
     # allow for the limited precision with which coordinates are stored
     if spacing.max() - spacing.min() > 1e-3 * abs(spacing.min()):
-        warnings.warn(
-            f"Coordinate spacing is not uniform for coord {coord} of {data.name}"
-        )
+        warnings.warn(f"Coordinate spacing is not uniform for coord {coord.name}.")
 
 
 def check_coords(data, coords):
-- 
2.43.0


From f95d821712cdeaa348499747700880758b7f3a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 32/48] fix: check input with a single record

---
 src/wam2layers/analysis/checks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wam2layers/analysis/checks.py b/src/wam2layers/analysis/checks.py
index cc0b8ce..73d4628 100644
--- a/src/wam2layers/analysis/checks.py
+++ b/src/wam2layers/analysis/checks.py
@@ -91,6 +91,8 @@ def check_range(data, range):
 
 
 def check_uniform(coord):
+    if coord.size < 2:
+        return
     spacing = np.diff(coord)
     # allow for the limited precision with which coordinates are stored
     if spacing.max() - spacing.min() > 1e-3 * abs(spacing.min()):
-- 
2.43.0


From a1d65b43376c9a0fd9982765d082e5abd03c9802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 33/48] fix: name the variable in the warning about its
 dimensions

---
 src/wam2layers/analysis/checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/analysis/checks.py b/src/wam2layers/analysis/checks.py
index 73d4628..01dacfe 100644
--- a/src/wam2layers/analysis/checks.py
+++ b/src/wam2layers/analysis/checks.py
@@ -80,7 +80,7 @@ def check_frequency(data, frequency):
 
 def check_shape(data, ndim):
     if data.ndim != ndim:
-        warnings.warn("Expected 3 dimensions, found {data.ndim} for {data.name}.")
+        warnings.warn(f"Expected {ndim} dimensions, found {data.ndim} for {data.name}.")
 
 
 def check_range(data, range):
-- 
2.43.0


From af5bbdd3a853575277a534644d1aab2cf713b6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 34/48] fix: warn about missing coordinates instead of crashing

---
 src/wam2layers/analysis/checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/analysis/checks.py b/src/wam2layers/analysis/checks.py
index 01dacfe..7f8246c 100644
--- a/src/wam2layers/analysis/checks.py
+++ b/src/wam2layers/analysis/checks.py
@@ -104,8 +104,8 @@ def check_coords(data, coords):
     for coord in coords:
         if coord not in data.coords:
             warnings.warn(f"Data for {data.name} does not have a coordinate {coord}.")
-        else:
-            check_uniform(data[coord])
+            continue
+        check_uniform(data[coord])
         if coord == "latitude":
             check_monotonic_decrease(data[coord], dim=coord)
         else:
-- 
2.43.0


From d9bdb97e8192d0842cec843fac722eae6dbae335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 35/48] fix: check input with a single record, order of
 coordinates

---
 src/wam2layers/analysis/checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/analysis/checks.py b/src/wam2layers/analysis/checks.py
index 7f8246c..9f7e69c 100644
--- a/src/wam2layers/analysis/checks.py
+++ b/src/wam2layers/analysis/checks.py
@@ -91,8 +91,6 @@ def check_range(data, range):
 
 
 def check_uniform(coord):
-    if coord.size < 2:
-        return
     spacing = np.diff(coord)
     # allow for the limited precision with which coordinates are stored
     if spacing.max() - spacing.min() > 1e-3 * abs(spacing.min()):
@@ -105,6 +103,8 @@ def check_coords(data, coords):
         if coord not in data.coords:
             warnings.warn(f"Data for {data.name} does not have a coordinate {coord}.")
             continue
+        if data[coord].size < 2:
+            continue
         check_uniform(data[coord])
         if coord == "latitude":
             check_monotonic_decrease(data[coord], dim=coord)
-- 
2.43.0


From 7c0db49e235e058919cdff46f3a56bbc168d82a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 36/48] fix: limit the figure of the input to the tracking
 period

---
 src/wam2layers/analysis/visualization.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index 1c189d9..b5e4e9b 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -82,11 +82,12 @@ def _plot_input(config: Config, ax):
         )
 
     # Load data
-    start = config.tagging_start_date
-    end = config.tagging_end_date
+    # Nothing is tagged outside the tracking period
+    start = max(config.tagging_start_date, config.tracking_start_date)
+    end = min(config.tagging_end_date, config.tracking_end_date)
     days = xr.cftime_range(
-        start=round_cftime(start, "1D", "floor"),
-        end=end,
+        start=round_cftime(config.tracking_start_date, "1D", "floor"),
+        end=config.tracking_end_date,
         freq="1D",
     )
 
-- 
2.43.0


From 3d660c6ca697a9fdd142717e9ec3084810919441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 37/48] fix: visualize experiments with a tagging region that
 varies in time

---
 src/wam2layers/analysis/visualization.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index b5e4e9b..88d7583 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -102,7 +102,12 @@ def _plot_input(config: Config, ax):
 
     # TODO: check if backtrack files or forwardtrack files were in output
     nseconds = pd.Timedelta(config.input_frequency).total_seconds()
-    input = (subset * region * nseconds).sum("time").compute()
+    mask = region
+    if "time" in region.dims:
+        # As during tracking, the mask nearest in time counts
+        mask = region.sel(time=subset.time.values, method="nearest")
+        mask = mask.assign_coords(time=subset.time)
+    input = (subset * mask * nseconds).sum("time").compute()
 
     # Make figure
     input.plot(ax=ax, cmap=cmocean.cm.rain, cbar_kwargs=dict(fraction=0.05, shrink=0.5))
@@ -157,6 +162,8 @@ def _plot_output(config: Config, ax):
     ax.set_title("Accumulated tracked moisture [mm]", loc="left")
 
     # Add source/tagged region outline
+    if "time" in region.dims:
+        region = region.max("time")
     region.plot.contour(ax=ax, levels=[0.5], colors="k")
     polish(ax, region)
 
-- 
2.43.0


From 6bcfb790d1e2b93ecedc67b21005854fa2431550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 38/48] fix: select regions by number also if some have no
 cells in the grid

---
 src/wam2layers/utils/tagging_region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index 3cd74e2..9ec2390 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -65,7 +65,7 @@ def mask_with_regionmask(region_source, regions, input_file, output_dir, return_
             )
 
     # create (a) mask(s) of the required region(s):
-    mask = getattr(available_regions, "mask_3D")(longitude, latitude)
+    mask = getattr(available_regions, "mask_3D")(longitude, latitude, drop=False)
 
     # Specify region ID - what to store
     region_ids = np.array(regions)
@@ -182,7 +182,7 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
     ds = gpd.read_file(shapefile)  # load shape file
 
     # Generate mask
-    mask = regionmask.mask_3D_geopandas(ds, longitude, latitude)
+    mask = regionmask.mask_3D_geopandas(ds, longitude, latitude, drop=False)
 
     # Specify region ID - what to store
     if regions != False:
-- 
2.43.0


From 7084db65983962ca8d3cf6c9b9196f3117b1434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 39/48] fix: tag all moisture in masks of more than one region

---
 src/wam2layers/utils/tagging_region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index 9ec2390..9162c31 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -94,7 +94,7 @@ def mask_with_regionmask(region_source, regions, input_file, output_dir, return_
     new_masks = np.where(
         new_masks == False, 0, 1
     )  # Replace True and False by 1 and 0's
-    new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+    new_masks = np.max(new_masks, axis=0)  # Combine multiple masks
 
     # Export as tagging region for WAM2layers
 
@@ -200,7 +200,7 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
         new_masks = np.where(
             new_masks == False, 0, 1
         )  # Replace True and False by 1 and 0's
-        new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+        new_masks = np.max(new_masks, axis=0)  # Combine multiple masks
     else:
         new_masks = mask.isel(region=[0]).values
 
@@ -208,7 +208,7 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
         new_masks = np.where(
             new_masks == False, 0, 1
         )  # Replace True and False by 1 and 0's
-        new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+        new_masks = np.max(new_masks, axis=0)  # Combine multiple masks
 
     # Export as tagging region for WAM2layers
 
-- 
2.43.0


From 2ddbf52a550e8efc2de621c7aaa2b357abab8b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 40/48] fix: masks around points across the antimeridian or
 with other longitudes

---
 src/wam2layers/utils/tagging_region.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index 9162c31..92265c1 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -340,6 +340,12 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
         return ax, ax2
 
 
+def longitude_distance(longitude, center_lon):
+    """Distance to a central longitude in degrees, in the shortest direction."""
+    distance = np.abs(longitude - center_lon) % 360
+    return np.minimum(distance, 360 - distance)
+
+
 def mask_around_point(
     centerpoint,
     radius,
@@ -378,7 +384,7 @@ def mask_around_point(
 
     # Set the square region of value 1 in the mask
     mask = (np.abs(latitude - center_lat) <= radius) & (
-        np.abs(longitude - center_lon) <= radius
+        longitude_distance(longitude, center_lon) <= radius
     )
 
     new_masks = np.where(mask == False, 0, 1)  # Replace True and False by 1 and 0's
@@ -507,7 +513,7 @@ def mask_around_track(
 
         # Set the square region of value 1 in the mask
         mask = (np.abs(latitude - center_lat) <= radius) & (
-            np.abs(longitude - center_lon) <= radius
+            longitude_distance(longitude, center_lon) <= radius
         )
 
         new_masks[t, ::] = np.where(
-- 
2.43.0


From fe9823349b438b67355511dcba5f4f0adfd79b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:13 +0000
Subject: [PATCH 41/48] fix: model levels listed in another order than top-down
 gave wrong layer thicknesses

---
 src/wam2layers/preprocessing/era5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wam2layers/preprocessing/era5.py b/src/wam2layers/preprocessing/era5.py
index bfaa525..85b86b0 100644
--- a/src/wam2layers/preprocessing/era5.py
+++ b/src/wam2layers/preprocessing/era5.py
@@ -179,6 +179,9 @@ def get_edges(era5_modellevels):
 
 def get_dp_modellevels(sp, levels):
     """Calculate pressure jump over subset of era5 modellevels."""
+    if levels not in ("all", "All"):
+        levels = sorted(levels)  # edges are between levels that lie next to each other
+
     a, b = get_edges(levels)
     if levels in ("all", "All"):
         levels = np.arange(1, 138)
-- 
2.43.0


From 565d5cdcf7f66189115629a1befeab913ba7fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:00 +0000
Subject: [PATCH 42/48] fix: region numbers below the first one selected
 regions from the end of the list

---
 src/wam2layers/utils/tagging_region.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index 92265c1..22e4a55 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -88,6 +88,9 @@ def mask_with_regionmask(region_source, regions, input_file, output_dir, return_
             "regions not specified correctly, please check whether your input is provided as a list [...,...], even if it is a single tagging region!"
         )
 
+    if min(region_ids) < 0:  # would count from the last region
+        raise KeyError(f"regions not specified correctly, no such region: {regions}")
+
     new_masks = mask.isel(region=region_ids).values
 
     # Make WAM2layers fitting
@@ -194,6 +197,11 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
                 "regions not specified correctly, please check whether your input is provided as a list [...,...], even if it is a single tagging region!"
             )
 
+        if min(region_ids) < 0:  # would count from the last region
+            raise KeyError(
+                f"regions not specified correctly, no such region: {regions}"
+            )
+
         new_masks = mask.isel(region=region_ids).values
 
         # Make WAM2layers fitting
-- 
2.43.0


From 8e9dd3b79f715faea2d0be44733143e400c23146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:11 +0000
Subject: [PATCH 43/48] fix: domain across the antimeridian that holds all
 input columns kept them in the wrong order

---
 src/wam2layers/tracking/io.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index be49901..e51966d 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -71,10 +71,9 @@ def select_subdomain(ds: xr.Dataset, bbox: str):
         )
     else:
         # Need to roll coordinates to maintain a continuous longitude
-        # Roll the first lon that's NOT in the bbox to the front of the array
+        # Roll the first lon that's east of the western edge to the front of the array
         # That way, all values that ARE in the bbox, must be contiguous.
-        in_bbox = (ds.longitude <= east) | (ds.longitude >= west)
-        n_roll = in_bbox.argmin().item()  # first false value
+        n_roll = (ds.longitude >= west).argmax().item()  # first true value
         ds_rolled = ds.roll(longitude=-n_roll, roll_coords=True)
         in_bbox = (ds_rolled.longitude <= east) | (ds_rolled.longitude >= west)
         return ds_rolled.sel(longitude=in_bbox, latitude=slice(north, south))
-- 
2.43.0


From 7531a5ea6b412d199f666b2986b31a142edad3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:09 +0000
Subject: [PATCH 44/48] fix: figures of tracking domains across the
 antimeridian failed or showed cells in the wrong place

---
 src/wam2layers/analysis/visualization.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index 88d7583..5b13acf 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -60,6 +60,12 @@ def polish(ax, region):
     ax.set_ylim(region.latitude.min(), region.latitude.max())
 
 
+def continuous_longitude(da: xr.DataArray) -> xr.DataArray:
+    """Let the longitudes of domains across the antimeridian continue beyond 180."""
+    lon = da.longitude
+    return da.assign_coords(longitude=xr.where(lon < lon[0], lon + 360, lon))
+
+
 def _plot_input(config: Config, ax):
     """
     Return subplot with input.
@@ -108,6 +114,10 @@ def _plot_input(config: Config, ax):
         mask = region.sel(time=subset.time.values, method="nearest")
         mask = mask.assign_coords(time=subset.time)
     input = (subset * mask * nseconds).sum("time").compute()
+    # Same order of longitudes as in the tracking domain
+    in_input = region.longitude.isin(input.longitude)
+    input = continuous_longitude(input.sel(longitude=region.longitude[in_input]))
+    region = continuous_longitude(region)
 
     # Make figure
     input.plot(ax=ax, cmap=cmocean.cm.rain, cbar_kwargs=dict(fraction=0.05, shrink=0.5))
@@ -149,6 +159,8 @@ def _plot_output(config: Config, ax):
         out_track = ds.e_track.sum("time")
     else:
         out_track = ds.p_track_lower.sum("time") + ds.p_track_upper.sum("time")
+    out_track = continuous_longitude(out_track)
+    region = continuous_longitude(region)
 
     # Make figure
     out_track.plot(
-- 
2.43.0


From eb67219b8d66209846eca80aae68cd950079b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:07 +0000
Subject: [PATCH 45/48] fix: an interrupted ERA5 download was skipped as
 complete when running the script again

---
 scripts/download_era5_ml.py | 10 ++++++++--
 scripts/download_era5_pl.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/scripts/download_era5_ml.py b/scripts/download_era5_ml.py
index 4bc03e4..25092aa 100644
--- a/scripts/download_era5_ml.py
+++ b/scripts/download_era5_ml.py
@@ -89,6 +89,8 @@ for date in datelist:
                 f"{outfolder / outfile} already exists, skipping. Set skip_exist = False to force re-download"
             )
         else:
+            # Until it is complete the download should not pass for an existing file
+            partfile = outfolder / f"{outfile}.part"
             try:
                 request = {
                     "product_type": "reanalysis",
@@ -103,8 +105,9 @@ for date in datelist:
                 c.retrieve(
                     "reanalysis-era5-single-levels",
                     request,
-                    str(outfolder / outfile),
+                    str(partfile),
                 )
+                partfile.replace(outfolder / outfile)
             except Exception as e:
                 print(e)
                 print(
@@ -123,6 +126,8 @@ for date in datelist:
                 f"{outfolder / outfile} already exists, skipping. Set skip_exist = False to force re-download"
             )
         else:
+            # Until it is complete the download should not pass for an existing file
+            partfile = outfolder / f"{outfile}.part"
             try:
                 request = {
                     "time": times,
@@ -143,8 +148,9 @@ for date in datelist:
                 c.retrieve(
                     "reanalysis-era5-complete",
                     request,
-                    str(outfolder / outfile),
+                    str(partfile),
                 )
+                partfile.replace(outfolder / outfile)
             except Exception as e:
                 print(e)
                 print(
diff --git a/scripts/download_era5_pl.py b/scripts/download_era5_pl.py
index 3c36b6b..af6cbbc 100644
--- a/scripts/download_era5_pl.py
+++ b/scripts/download_era5_pl.py
@@ -111,6 +111,8 @@ for date in datelist:
                 f"{outfolder / outfile} already exists, skipping. Set skip_exist = False to force re-download"
             )
         else:
+            # Until it is complete the download should not pass for an existing file
+            partfile = outfolder / f"{outfile}.part"
             try:
                 request = {
                     "product_type": "reanalysis",
@@ -125,8 +127,9 @@ for date in datelist:
                 c.retrieve(
                     "reanalysis-era5-single-levels",
                     request,
-                    str(outfolder / outfile),
+                    str(partfile),
                 )
+                partfile.replace(outfolder / outfile)
             except Exception as e:
                 print(e)
                 print(
@@ -145,6 +148,8 @@ for date in datelist:
                 f"{outfolder / outfile} already exists, skipping. Set skip_exist = False to force re-download"
             )
         else:
+            # Until it is complete the download should not pass for an existing file
+            partfile = outfolder / f"{outfile}.part"
             try:
                 request = {
                     "time": times,
@@ -160,8 +165,9 @@ for date in datelist:
                 c.retrieve(
                     "reanalysis-era5-pressure-levels",
                     request,
-                    str(outfolder / outfile),
+                    str(partfile),
                 )
+                partfile.replace(outfolder / outfile)
             except Exception as e:
                 print(e)
                 print(
-- 
2.43.0


From 238cf6b7a54022757becc33f7974602681056d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:44 +0000
Subject: [PATCH 46/48] fix: tracking output did not refer to the source and
 history of its input

---
 src/wam2layers/tracking/backtrack.py    | 6 ++++--
 src/wam2layers/tracking/forwardtrack.py | 6 ++++--
 src/wam2layers/tracking/io.py           | 3 ++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index 8c16c89..60b7fa6 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -124,7 +124,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
 
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_end_date
-    grid = load_data(t, config, "states").coords
+    states = load_data(t, config, "states")
+    grid = states.coords
     output = xr.Dataset(
         {
             # Keep last state for a restart
@@ -134,7 +135,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
             "tagged_precip": xr.DataArray(0, coords=grid).astype("float32"),
             "losses": xr.DataArray(0, coords=grid).astype("float32"),
             "gains": xr.DataArray(0, coords=grid).astype("float32"),
-        }
+        },
+        attrs=states.attrs,  # to refer to the original data in the output
     )
 
     if config.restart:
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index 9e893c1..89d0cf7 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -126,7 +126,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
 
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_start_date
-    grid = load_data(t, config, "states").coords
+    states = load_data(t, config, "states")
+    grid = states.coords
     output = xr.Dataset(
         {
             # Keep last state for a restart
@@ -137,7 +138,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
             "tagged_evap": xr.DataArray(0, coords=grid).astype("float32"),
             "losses": xr.DataArray(0, coords=grid).astype("float32"),
             "gains": xr.DataArray(0, coords=grid).astype("float32"),
-        }
+        },
+        attrs=states.attrs,  # to refer to the original data in the output
     )
 
     if config.restart:
diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index e51966d..dd9ee30 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -152,7 +152,8 @@ def load_data(t: CfDateTime, config: Config, subset: str = "fluxes") -> xr.Datas
 
     da0 = load_slice(t0, subset, config)
     da1 = load_slice(t1, subset, config)
-    return da0 + (t - t0) / (t1 - t0) * (da1 - da0)
+    da = da0 + (t - t0) / (t1 - t0) * (da1 - da0)
+    return da.assign_attrs(da0.attrs)
 
 
 def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
-- 
2.43.0


From b385f66e2fa361a8d7246f936d026fff41af893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:44 +0000
Subject: [PATCH 47/48] fix: latitude and longitude in tracking output had no
 units

---
 src/wam2layers/tracking/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index dd9ee30..9926479 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -218,10 +218,10 @@ def write_output(
     output = output.assign_coords({"time": t})
     output = output.expand_dims(dim="time")
 
-    for var in output.data_vars:
-        output[var].attrs.update(DATA_ATTRIBUTES[str(var)])
-
     add_bounds(output)
+    for var in output.variables:
+        output[var].attrs.update(DATA_ATTRIBUTES.get(str(var), {}))
+
     add_time_bounds(output, t, t_previous)
     output.attrs = get_main_attrs(output.attrs, config)
 
-- 
2.43.0


From 1a950467a8d286a3ca415de945c4a1b4ed68fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:37 +0000
Subject: [PATCH 48/48] fix: a tagging mask stored as (longitude, latitude) was
 applied transposed

---
 src/wam2layers/tracking/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 9926479..0f58072 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -168,6 +168,8 @@ def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
         )
     else:
         tagging_region = xr.open_dataarray(config.tagging_region)
+        # As expected for tracking, where cells are found by position
+        tagging_region = tagging_region.transpose(..., "latitude", "longitude")
 
     if config.tracking_domain is not None:
         tagging_region = select_subdomain(tagging_region, str(config.tracking_domain))
-- 
2.43.0

