"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, pathlib
T = "src/wam2layers/tracking/"
P = "src/wam2layers/preprocessing/"
U = "src/wam2layers/utils/"
props = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

REG = "The suite runs one backward and one forward case (41x41 cells, one day, one timestep, one calendar, no periodic boundary, no subdomain) and compares a single output field of a single file with a stored file"

p("C01", "Tracked-moisture budget closes over every output interval",
  "Between any two consecutive outputs of a tracking run, forward or backward, the area-weighted amount of tracked moisture in the atmosphere changes by exactly: tagged moisture + reported gains - tracked moisture that reached its end (precipitation forward, evaporation backward) - reported losses, to within floating-point rounding. Area is the true spherical area of each grid cell, for square and non-square cells alike.",
  ["inputs", "configurations"], "every forcing field (calm, stormy, drying, CFL-violating), grid, calendar, timestep, direction, boundary type, subdomain and tagging region",
  REG + "; none sums a budget.",
  [T+"backtrack.py", T+"forwardtrack.py", T+"core.py", U+"grid.py"],
  [("donor-cell advection is a divergence of face fluxes", T+"core.py:horizontal_advection"), ("losses/gains bookkeeping", T+"forwardtrack.py:forwardtrack, "+T+"backtrack.py:backtrack"), ("cell area", U+"grid.py:get_grid_info")],
  ["tracking output files"], [("s_track_*_restart", "tracked moisture per layer", "output files"), ("losses, gains", "accumulated corrections", "output files")])

p("C02", "Tracking results are always physical: finite, non-negative and bounded",
  "For every valid forcing (positive storages, non-negative precipitation and evaporation, any fluxes including exactly zero ones), every value written by a tracking run is finite and non-negative. Tracked moisture in a layer never exceeds the total moisture of that layer at the output time and is zero on the open boundary of the domain, and tracked precipitation (forward) or tracked evaporation (backward) never exceeds the total precipitation or evaporation of the same cell and interval.",
  ["inputs", "configurations"], "every valid forcing incl. zero flux, tiny storage, extreme precipitation/evaporation, extreme timesteps; both directions",
  REG + " whose fields never hit zero flux, empty layers or emptying cells.",
  [T+"backtrack.py", T+"forwardtrack.py", T+"core.py"],
  [("clipping and redistribution of over/undershoot", T+"forwardtrack.py:forwardtrack, "+T+"backtrack.py:backtrack"), ("NaN removal in flux limiter", T+"core.py:stabilize_fluxes"), ("boundary mask", U+"grid.py:get_boundary")],
  ["tracking output files against forcing files"])

p("C03", "Every timestep follows the documented two-layer transport equations",
  "Each output field of a run equals what the documented equations give: donor-cell upwind horizontal transport with fluxes averaged to cell faces and limited so a cell loses at most half its layer per direction share, a vertical flux that closes the two-layer water balance with kvf-scaled mixing, tagging and removal in proportion to layer moisture, and the documented order of boundary removal, redistribution between layers, gains and losses. This holds at every cell and step, including the domain edges and cells where limiters act, in both tracking directions.",
  ["inputs", "configurations"], "every forcing, grid, kvf, timestep, direction and boundary type",
  REG + "; that covers smooth fields in one place, so most limiter branches, periodic edges, non-square cells and kvf values are never compared.",
  [T+"core.py", T+"backtrack.py", T+"forwardtrack.py", U+"grid.py", "docs/theory.md"],
  [("advection, vertical flux, limiter", T+"core.py"), ("time stepping", T+"backtrack.py:run_experiment, "+T+"forwardtrack.py:run_experiment"), ("staggering, grid spacing", U+"grid.py")],
  ["tracking output files"])

p("C04", "Moisture moves at most one cell per step and only through real neighbours",
  "After n timesteps, tracked moisture and everything derived from it is exactly zero in every cell whose shortest path through edge-sharing neighbours from the tagged cells is longer than n. The eastern and western edge columns are neighbours if and only if periodic boundaries are configured, no path leads through the other domain boundary cells, and moisture only enters a cell from the upwind side (downwind when tracking backward).",
  ["inputs", "configurations"], "every forcing, tagging location (corner, edge, seam), direction and boundary type",
  REG + "; no test looks at the support of the result, and periodic transport is never run.",
  [T+"core.py", U+"grid.py", T+"backtrack.py", T+"forwardtrack.py"],
  [("padding of ghost cells", T+"core.py:horizontal_advection"), ("staggering at the seam", U+"grid.py:stagger_x, stagger_y"), ("boundary mask", U+"grid.py:get_boundary")],
  ["tracking output files written every timestep"])

p("C05", "Tracking has no preferred direction, longitude, or unit",
  "Mirroring the world east-west, or north-south with the equator, mirrors the results; shifting all longitudes of a regional run, or moving the seam of a periodic global run, shifts the results and changes nothing else. Multiplying all moisture storages, fluxes, precipitation and evaporation by a constant multiplies every output by that constant.",
  ["inputs", "configurations"], "every forcing, grid, tagging region and direction; every shift",
  REG + "; no test compares two related runs.",
  [T+"core.py", U+"grid.py", T+"backtrack.py", T+"forwardtrack.py"],
  [("upwind selection per direction", T+"core.py:horizontal_advection"), ("gradient signs", T+"core.py:divergence"), ("grid spacing", U+"grid.py:get_grid_info")],
  ["pairs of tracking runs"])

p("C06", "Attribution is additive over sources and proportional to tagging strength",
  "As long as no cap is active in any of the runs (nothing gained, nothing lost in the interior, tracked moisture below the layer's moisture), tracking the union of disjoint tagging regions or disjoint tagging periods gives exactly the sum of tracking them separately, and scaling a fractional tagging mask scales all tracked fields. Tagging nothing yields zero everywhere.",
  ["inputs", "configurations"], "every partition of region or period, every forcing without active caps, both directions",
  REG + "; additivity relates several runs.",
  [T+"backtrack.py", T+"forwardtrack.py", T+"io.py", T+"shared.py"],
  [("linear use of relative tracked moisture", T+"forwardtrack.py:forwardtrack, "+T+"backtrack.py:backtrack")],
  ["triples of tracking runs"])

p("C07", "Exactly the configured region and period is tagged, with the exact amount",
  "In every interval the reported tagged moisture of a cell equals the mask value of that cell times the evaporation (forward) or precipitation (backward) of those steps that start (in tracking direction) within the tagging period, both period ends included. A bounding box tags exactly the cells whose centre lies within it, edges included and also when it wraps across the antimeridian; a mask file tags with its (fractional) values, and a mask file with a time axis uses the field nearest in time to the start of the step.",
  ["inputs", "configurations"], "every region form, box position incl. edges on cell centres and wrapping, tagging period aligned or not with steps, direction, calendar",
  REG + "; tagged amounts are never compared and neither bounding boxes nor time-dependent masks are run.",
  [T+"shared.py", T+"io.py", T+"forwardtrack.py", T+"backtrack.py"],
  [("bounding box mask", T+"shared.py:initialize_tagging_region"), ("mask loading", T+"io.py:load_tagging_region"), ("period test", T+"forwardtrack.py:run_experiment, "+T+"backtrack.py:run_experiment")],
  ["tagged_evap / tagged_precip in tracking output files"])

p("C08", "Forcing is the linear time interpolation of the right input records",
  "At every step the model uses fluxes at the middle of the step and states at both ends of the step, each equal to the linear interpolation in time between the two bracketing records of the input at the configured input frequency (or the record itself when the time coincides), irrespective of day, month and year file boundaries, calendar, timestep and tracking direction. Using a record leaves it unchanged for later steps.",
  ["inputs", "configurations", "histories"], "every combination of input frequency, timestep, start offset, calendar, direction, file split",
  REG + " where the 600 s step divides the 1 h records and everything lies in one daily file.",
  [T+"io.py", T+"shared.py", U+"calendar.py"],
  [("interpolation", T+"io.py:load_data"), ("slice cache + copy", T+"io.py:_load_slice_with_cache, load_slice"), ("rounding", U+"calendar.py:round_cftime"), ("step times", T+"shared.py:initialize_time")],
  ["tagged fields and tracked storage in output files written every step, with forcing chosen so each value identifies its record"])

p("C09", "A run writes exactly the scheduled, correctly labelled output files",
  "A tracking run writes one file for every multiple of the output frequency it reaches after a step, plus one at its last step, and no others, each named after tracking mode and time. Each file holds one time equal to its name, the coordinates and cell bounds of the tracked grid, all documented variables with units, and time bounds that state exactly the interval over which its accumulated fields were accumulated.",
  ["configurations"], "every start/end offset, timestep, output frequency, direction, calendar",
  REG + "; only the time value and presence of attributes of that one file are asserted.",
  [T+"io.py", T+"forwardtrack.py", T+"backtrack.py", "src/wam2layers/reference/variables.py", P+"utils.py"],
  [("output schedule", T+"forwardtrack.py:run_experiment, "+T+"backtrack.py:run_experiment"), ("file writing", T+"io.py:write_output, add_time_bounds, output_path")],
  ["the output folder after a run"])

p("C10", "Results do not depend on how often output is written",
  "Two runs that differ only in output frequency agree: at every common output time the tracked storages are equal, and every accumulated field summed over the files of one run equals the same sum of the other run. Nothing is counted twice or dropped at an output, including the last, partial one.",
  ["configurations", "histories"], "every pair of output frequencies, forcing, direction",
  REG + " at one output frequency.",
  [T+"forwardtrack.py", T+"backtrack.py", T+"io.py"],
  [("flushing accumulations after a write", T+"forwardtrack.py:run_experiment, "+T+"backtrack.py:run_experiment")],
  ["pairs of output folders"])

p("C11", "A restarted run continues exactly where the previous run stopped",
  "Stopping a tracking run at any of its output times and restarting from there gives, for every later output, the same files as the uninterrupted run (up to single-precision storage of the saved state), in both directions and also after several restarts. A restart without the required earlier output fails instead of starting from zero.",
  ["crash_points", "configurations", "histories"], "every output time as stop point, chains of restarts, both directions, every calendar and boundary type",
  "No test sets restart to true.",
  [T+"forwardtrack.py", T+"backtrack.py", T+"io.py"],
  [("reload of saved state", T+"forwardtrack.py:initialize, "+T+"backtrack.py:initialize")],
  ["output folders of interrupted and uninterrupted runs"])

p("C12", "Tracking on a subdomain equals tracking on input cut to that subdomain",
  "With a tracking domain configured, a run uses exactly the grid cells whose centre lies inside the box (edges included), in eastward continuous order even if the box crosses the antimeridian, and gives the same results as the same run on input files that contain only those cells. Tagging masks given as files are cut to the same cells.",
  ["inputs", "configurations"], "every box incl. edges on cell centres and boxes across the antimeridian, grid, direction",
  "Two tests check the selected coordinates of two boxes that avoid cell centres; no tracking run uses a subdomain.",
  [T+"io.py", U+"grid.py"],
  [("subdomain selection", T+"io.py:select_subdomain"), ("grid spacing on a rolled grid", U+"grid.py:get_grid_info")],
  ["pairs of tracking runs"])

p("C13", "Every supported calendar gives the same physics on its own dates",
  "The same sequence of input records, relabelled with the dates of any supported calendar, gives the same sequence of results labelled with that calendar's dates, across month ends, leap days and year ends that exist or do not exist in it. Configured dates mean exactly the stated minute (or second, if given) in that calendar, and dates that do not exist in the calendar are refused.",
  ["inputs", "configurations"], "all nine calendar names, every date range incl. 28 Feb-1 Mar, 30/31 of a month, year ends; both directions and preprocessing",
  "All runs in the suite use the standard calendar within one day.",
  [U+"calendar.py", "src/wam2layers/config.py", T+"io.py", T+"shared.py"],
  [("parsing", U+"calendar.py:cftime_from_iso, subclass_cftime"), ("rounding", U+"calendar.py:round_cftime")],
  ["tracking output files, parsed configurations"])

p("C14", "A configuration is either refused or kept exactly as stated",
  "A configuration whose settings are valid is accepted, and exporting it to a file and reading it back (repeatedly) yields an equal configuration with every field as stated, relative paths made absolute, documented shorthands accepted and deprecated frequency names replaced by their modern equivalents. A configuration with reversed dates, an unknown calendar, an impossible region, a missing region file, an unknown option value or a missing required field is refused, both when read from a file and when assigned on an existing configuration.",
  ["inputs", "configurations", "histories"], "every field, every valid value combination, every single invalid field, every order of assignments",
  "The suite round-trips the example file and tries five invalid assignments.",
  ["src/wam2layers/config.py", U+"calendar.py"],
  [("validators", "src/wam2layers/config.py:Config"), ("export", "src/wam2layers/config.py:to_string, to_file"), ("frequency repair", U+"calendar.py:fix_deprecated_frequency")],
  ["Config.from_yaml, assignment, to_file"])

p("C15", "Preprocessing splits the whole moisture column into exactly two layers",
  "For every cell and time the two preprocessed storages sum to the total column water of the input (the column integral of humidity over pressure if no total is given), and each layer holds the part on its side of the configured layer boundary; each layer's moisture flux is the integral of wind times moisture over that layer. This holds for model levels and for pressure levels, with levels below the surface ignored, any subset and order of levels, and any surface pressure and boundary setting.",
  ["inputs", "configurations"], "every profile, surface pressure (also coinciding with levels or below lowest levels), level subset, boundary setting, with and without total column water",
  "Two stored one-day cases; for model levels only precipitation is compared.",
  [P+"shared.py", P+"pressure_levels.py", P+"era5.py", P+"utils.py"],
  [("vertical integration", P+"shared.py:preprocess"), ("level extension and interpolation", P+"pressure_levels.py"), ("model level thickness", P+"era5.py:get_edges, get_dp_modellevels")],
  ["preprocessed files against raw input files"])

p("C16", "Surface water input is conserved and non-negative in every data source",
  "For ERA5, ARCO-ERA5 and CMIP input, preprocessed precipitation and evaporation are non-negative, in kg m-2 s-1, and at every cell and time precipitation minus evaporation equals the net surface water flux of the input; condensation onto the surface counts as precipitation and negative input precipitation counts as zero. Accumulated or finer-resolution inputs are converted with the correct interval.",
  ["inputs", "configurations"], "every sign combination and magnitude, input frequency, data source",
  "Precipitation of one ERA5 day is compared; CMIP and ARCO-ERA5 preprocessing are not run.",
  [P+"era5.py", P+"arco.py", P+"cmip.py", P+"utils.py"],
  [("sign transfer", P+"era5.py:preprocess_precip_and_evap, "+P+"arco.py:get_input_data, "+P+"cmip.py:get_input_data"), ("unit conversion", P+"utils.py:accumulation_to_flux"), ("3-hourly averaging", P+"cmip.py:resample_3hr_var")],
  ["preprocessed files against raw input files"])

p("C17", "Preprocessed files hold every requested time once, in tracking-ready layout",
  "Preprocessing any period writes one file per calendar day containing exactly the requested times of that day once and in increasing order, with each record computed from the input of that time. Latitude is decreasing, longitude increasing within -180..180 with every value still at its own location, whatever order or longitude range the input has, and running in parallel gives the same files as running sequentially.",
  ["inputs", "configurations", "schedules"], "every period, input frequency, input longitude convention and latitude order, number of parallel processes",
  "The suite preprocesses one day sequentially, with input that already has the final layout.",
  [P+"shared.py", P+"xarray_append.py", P+"utils.py"],
  [("day grouping", P+"shared.py:get_input_dates, group_timestamps_by_day"), ("append", P+"xarray_append.py:append_to_netcdf"), ("longitude shift", P+"shared.py:shift_longitude"), ("process pool", P+"shared.py:parallel_preprocess")],
  ["preprocessed files"])

p("C18", "Faulty or missing input stops the run instead of producing results",
  "If a variable needed by preprocessing contains a missing value at a used time and place, has dimensions it should not have or lacks some, or is absent, or a needed record or file is missing, or the source does not offer the configured calendar or level type, preprocessing ends with an error and writes no record for the affected time. If a record, variable or file needed for tracking, or a saved state needed for a restart, is missing, tracking ends with an error and writes no output that depends on it. A transient read failure of an input file is retried and then changes nothing in the results; a persistent one ends with an error.",
  ["inputs", "fault_sequences"], "every variable, cell and time as fault position; every number of transient failures up to the retry limit",
  "No test feeds faulty input.",
  [P+"input_validation.py", P+"shared.py", T+"io.py"],
  [("validation", P+"input_validation.py:validate_input"), ("retry", T+"io.py:read_or_retry")],
  ["exit of the command and files present afterwards"])

p("C19", "Runs are reproducible, independent of each other, and leave inputs untouched",
  "Running the same experiment again, in a fresh process or in one that has already run any other preprocessing or tracking experiments (also with the same folder names and since-changed input files), gives identical results. No run modifies its input data, mask or configuration file.",
  ["histories"], "every sequence of experiments in one process, every rewritten input",
  "Each workflow runs once per session and inputs are not compared afterwards.",
  [T+"io.py", P+"era5.py", P+"cmip.py", T+"forwardtrack.py", T+"backtrack.py"],
  [("slice cache", T+"io.py:_load_slice_with_cache"), ("file caches", P+"era5.py:open_da, "+P+"cmip.py:open_var")],
  ["output files of repeated runs, checksums of inputs"])

p("C20", "The reported progress and stability warnings describe what really happened",
  "At every output the reported percentages (tracked, in atmosphere, boundary transport, lost, gained) equal the corresponding area-weighted totals since the start of the run as found in the output files, relative to all tagged moisture, and the reported closure is 100 percent for a run that started from zero. The first time the timestep is too large for the meridional fluxes by more than ten percent, a warning is given and the correction field is saved.",
  ["inputs", "configurations"], "every forcing incl. ones with gains and interior losses, direction, boundary type, output frequency",
  "Log messages are not checked.",
  [U+"profiling.py"],
  [("running totals", U+"profiling.py:ProgressTracker.store_intermediate_states, print_progress"), ("warning", U+"profiling.py:ProgressTracker.track_stability_correction")],
  ["log messages and output files"])

p("C21", "A shapefile region tags each cell by the fraction it covers",
  "With a shapefile as tagging region, the weight of every grid cell is the fraction of the cell covered by the polygon of the first record, measured in longitude and latitude, between 0 and 1. This holds for any polygon shape incl. holes and several parts, any resolution, latitude order, and a polygon reaching outside the grid, and the tracking run uses exactly that mask.",
  ["inputs", "configurations"], "every polygon and grid, both directions",
  "No passing test checks a mask made from a shapefile.",
  [U+"shapefile_mask.py", T+"io.py"],
  [("coverage", U+"shapefile_mask.py:create_mask"), ("saving and using the mask", T+"io.py:load_tagging_region")],
  ["debug/tagging_region.nc and tagged fields"])

p("C22", "Downloads are complete or fail, and never overwrite existing data",
  "A download of an example case that reports success has stored every listed file, byte for byte as offered by the server, in a new directory; if the target directory exists, nothing in it is touched and the download is refused. Server errors, dropped connections and unknown or malformed identifiers end with an error.",
  ["inputs", "fault_sequences"], "every file list, content, server error and position of a dropped connection",
  "Only the parsing of identifiers is tested offline.",
  ["src/wam2layers/download.py", "src/wam2layers/cli.py"],
  [("target directory", "src/wam2layers/download.py:create_target_directory"), ("transfer", "src/wam2layers/download.py:download"), ("identifier parsing", "src/wam2layers/download.py:parse_doi, get_4tu_id")],
  ["the target directory, exit of the command"])

p("C23", "The input checker warns about exactly the data that break the requirements",
  "Checking preprocessed data gives a warning for each variable with missing or wrong units, a value outside the allowed range, a negative value where only non-negative ones are allowed, a missing or non-uniform coordinate, wrong dimensions, or a coordinate in the wrong order, and gives no warning for data that meet all requirements.",
  ["inputs"], "every variable and every single defect, and defect-free data",
  "The checker is not tested.",
  ["src/wam2layers/analysis/checks.py"],
  [("checks", "src/wam2layers/analysis/checks.py:check_input")],
  ["warnings issued"])

p("C24", "The commands do what the configuration says and record it with the results",
  "The track command tracks in the configured direction, and track and preprocess leave an unchanged copy of the configuration file and a log file with the results, also when the configuration file already lies in that folder. Every tracking output embeds a configuration from which the same run can be repeated with the same results, and an accepted configuration is never altered by a run.",
  ["configurations", "histories"], "every valid configuration and location of the configuration file",
  "Existence of the copied file and log is tested for one case each.",
  ["src/wam2layers/cli.py", T+"io.py", "src/wam2layers/config.py"],
  [("dispatch and copy", "src/wam2layers/cli.py:track, _copy_config_yaml"), ("embedded configuration", T+"io.py:get_main_attrs")],
  ["output folder, attributes of output files"])

p("C25", "Figures show the cumulative input and tracked moisture of the run",
  "The visualize commands run for any completed experiment, forward or backward, with a bounding box, mask file (also one that varies in time) or shapefile, and draw in every grid cell the tracked moisture summed over all output files of the run, and the input (evaporation or precipitation records times the input interval) over the part of the tagging period within the run, weighted with the tagging mask.",
  ["inputs", "configurations"], "every completed experiment, direction, region form, output frequency",
  "The figure comparison needs a map library that is not part of the test environment; no number is compared.",
  ["src/wam2layers/analysis/visualization.py"],
  [("plotting", "src/wam2layers/analysis/visualization.py:_plot_input, _plot_output")],
  ["values handed to the figure that is saved"])

p("C26", "The mask tools tag exactly the cells of the requested region",
  "The tools that make tagging region files (around a point, along a track, from shapes of a shapefile, from named regions) write 1 in every cell whose centre lies in any of the requested regions and 0 elsewhere, on the coordinates of the reference file, also across the antimeridian, for any longitude convention, and when some regions have no cell in the grid. Requests that name no existing region end with an error and write nothing.",
  ["inputs"], "every grid, centre, radius, polygon, selection of regions",
  "The module is not imported by any test; which cells are tagged depends on the geometry of grid and region.",
  ["src/wam2layers/utils/tagging_region.py", "notebooks/"],
  [("masks", "src/wam2layers/utils/tagging_region.py:mask_around_point, mask_around_track, mask_with_shapefile, mask_with_regionmask")],
  ["mask files", "tagged moisture of runs that use them"])

p("C27", "Interrupted or failing runs keep finished results and can be repeated",
  "If a tracking or preprocessing run is killed at any moment, or one of its result files cannot be written (no room, name taken by a folder; also in a worker process), the files it had finished before stay exactly as an undisturbed run leaves them, and a failed write ends the command with an error. Running the command again in the same folder gives exactly the files of an undisturbed run, whatever lies there under the same names (complete, cut-off or foreign files). Restarting from the last finished output gives the remaining outputs, and restarting from an output file that was cut off ends with an error.",
  ["crash_points", "inputs"], "every crash point, failing write and leftover file",
  "Long runs are killed by batch systems and full quotas; tests always start in an empty folder and never fail to write.",
  ["src/wam2layers/tracking/io.py", "src/wam2layers/preprocessing/shared.py", "src/wam2layers/preprocessing/xarray_append.py"],
  [("output files", "src/wam2layers/tracking/io.py:write_output"), ("restart", "src/wam2layers/tracking/backtrack.py:initialize; forwardtrack.py:initialize"), ("preprocessed files", "src/wam2layers/preprocessing/shared.py:preprocess, parallel_preprocess"), ("appending", "src/wam2layers/preprocessing/xarray_append.py:append_to_netcdf")],
  ["files left by disturbed, repeated and continued runs", "exit of the command"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for q in props:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
    assert q["statement"].count(". ") <= 2, q["id"]
out.write_text("".join(json.dumps(q) + "\n" for q in props))
print(len(props))
