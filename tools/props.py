"""One entry per property: what properties.jsonl and MANIFEST.json are written from."""
TR = "src/wam2layers/tracking/"
CORE = TR + "core.py"
PP = "src/wam2layers/preprocessing/"
UT = "src/wam2layers/utils/"
STEP_FILES = [TR + "backtrack.py", TR + "forwardtrack.py", TR + "core.py", UT + "grid.py"]
STEP_MECH = [("backward step", TR + "backtrack.py:backtrack"), ("forward step", TR + "forwardtrack.py:forwardtrack"),
             ("donor-cell transport", TR + "core.py:horizontal_advection")]
REALS = "Machine floats are read as exact reals (counterexamples are replayed in floating point); "
REF = "the reference tests compare a few cells of one stored case for one region and one month"
NA = {}
NOTES = ("Every check executes the repository's functions symbolically from /repo's current source (numpy/xarray "
         "operations on solver terms), hands the negated assertions to z3 and replays every counterexample on the "
         "plain code before reporting it. Exit 2: no verdict (an operation the engine cannot encode, or a query "
         "that timed out).")
P = []


def prop(id, title, statement, over, all, why, files, mech, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, all=all, why=why, files=files,
                  mech=mech, note=note, observe=list(observe)))


prop("C01", "Horizontal transport is the documented donor-cell scheme",
     "For any tracer field and any face fluxes, the horizontal transport tendency of every grid cell equals what the "
     "documented donor-cell scheme gives: each face carries its flux times the value of the cell the flow comes from, "
     "taken from that cell and added to the cell it enters. With a periodic domain the last and first column are "
     "neighbours; otherwise nothing crosses the outer edge of the domain.",
     ["inputs", "configurations"], "all real tracer values and face fluxes, both boundary conditions, both flow directions",
     "tests use one single-cell tracer with one constant flow direction; mixed signs per face are never sampled",
     [TR + "core.py"], [("upwind selection and ghost cells", TR + "core.py:horizontal_advection")],
     REALS + "grids of 3x3 to 6x8 cells", ["wam2layers.tracking.core.horizontal_advection"])
prop("C02", "Horizontal transport creates and destroys no moisture",
     "Summed over the whole grid, horizontal transport (forward and reversed) changes the total tracked moisture by "
     "exactly zero, for any flux field, with closed and with periodic boundaries.",
     ["inputs", "configurations"], "all flux fields and tracer fields, forward and backward, closed and periodic",
     "an antisymmetry over all faces and signs; tests sample one uniform flow",
     [TR + "core.py", UT + "grid.py"], [("same face flux used by both neighbours", TR + "core.py:horizontal_advection"),
      ("interpolation to faces", UT + "grid.py:stagger_x, stagger_y")],
     REALS + "grids of 3x3 to 6x6 cells")
prop("C03", "Every tracking step closes the moisture ledger of every cell",
     "In one tracking step, forward or backward, the tracked moisture of every grid cell changes by exactly what is "
     "transported in horizontally plus what is newly tagged minus what is attributed (to evaporation or to "
     "precipitation) minus the reported losses plus the reported gains. This holds also where limits on the storage "
     "are hit and at the edge of the domain.",
     ["inputs", "configurations"], "all fluxes, storages, sources, masks, timesteps, both directions and boundary conditions",
     REF + "; the ledger has to close in every combination of limits being hit",
     STEP_FILES, STEP_MECH + [("losses and gains bookkeeping", TR + "backtrack.py, forwardtrack.py")],
     REALS + "one step, grids 3x3 to 5x4; fluxes, storages, sources, mask, vertical flux and timestep arbitrary")
prop("C04", "Tracked moisture stays between zero and the moisture present",
     "After every tracking step the tracked moisture of each layer and cell is at least zero and at most the total "
     "moisture of that layer at the new time, whatever the fluxes were. In the outermost cells of a closed edge no "
     "tracked moisture remains of what was transported there.",
     ["inputs", "configurations"], "all fluxes (also ones violating the CFL limit), storages, sources and masks",
     REF + " and never check the bounds",
     STEP_FILES, [("limiting", TR + "backtrack.py:backtrack"), ("limiting", TR + "forwardtrack.py:forwardtrack"),
                  ("rim", UT + "grid.py:get_boundary")],
     REALS + "one step, grids 3x3 to 5x6, positive total moisture")
prop("C05", "Attributed moisture never exceeds what evaporated or rained",
     "In every step the evaporation attributed by backward tracking lies between zero and the evaporation of that cell "
     "and step, and the precipitation attributed by forward tracking, per layer, between zero and that layer's share "
     "of the precipitation. The reported tagged amount is exactly the tagged fraction of precipitation (backward) or "
     "evaporation (forward) of that step, added to what was reported before.",
     ["inputs", "configurations"], "all inputs with non-negative evaporation and precipitation and masks in [0, 1]",
     REF + "; the bound has to hold for every state, including more tracked than total moisture",
     STEP_FILES, [("relative share capped at one", TR + "backtrack.py, forwardtrack.py"),
                  ("accumulators", TR + "backtrack.py, forwardtrack.py")],
     REALS + "one step, grids 3x3 to 5x6")
prop("C06", "One step solves the published tracking equations in both layers",
     "Where no storage limit is hit, the tracked moisture of each layer after one step equals the published explicit "
     "update: donor-cell transport per cell area, vertical exchange, tagged source and attributed sink. Forward "
     "tracking uses the fluxes as they are and the storages at the start of the step; backward tracking reverses all "
     "fluxes, and uses the storages at the end.",
     ["inputs", "configurations"], "all fields, masks, timesteps, mixing factors, both directions and boundary conditions",
     REF + "; no test has an independent formulation of the equations",
     STEP_FILES, STEP_MECH + [("vertical exchange", TR + "core.py:vertical_advection, vertical_dispersion")],
     REALS + "one step, grids 3x3 to 5x4; the reference equations are written independently in checks/common.py")
prop("C07", "Vertical exchange is upwind, symmetric and mixes only down-gradient",
     "Whatever vertical exchange adds to one layer it takes from the other, using the tracked share of the layer the "
     "water comes from. The additional mixing is the configured factor times the size of the flux times the difference "
     "of the tracked shares, and always reduces that difference.",
     ["inputs"], "all vertical fluxes, tracked shares, storages and mixing factors",
     "tests use a handful of values; the mixing term is only exercised with one factor",
     [TR + "core.py", TR + "backtrack.py", TR + "forwardtrack.py"],
     [("upwind", TR + "core.py:vertical_advection"), ("dispersion", TR + "core.py:vertical_dispersion")],
     REALS + "3x4 cells for the functions, one step on 3x3 for the use")
prop("C08", "The stability correction weakens fluxes just enough and never breaks them",
     "After the stability correction no cell moves more than half of its moisture per timestep (zonal plus meridional), "
     "in either layer. Fluxes that respected this are unchanged; others are reduced exactly to the limit, keeping "
     "sign and direction. No input of finite fluxes and non-negative moisture, including calm cells, gives an undefined flux.",
     ["inputs", "configurations"], "all fluxes, non-negative moisture fields and timesteps",
     REF + "; zero-flux cells and mixed limits per layer are not sampled",
     [TR + "core.py"], [("limiter", TR + "core.py:stabilize_fluxes")],
     REALS + "grids 3x3 to 6x6, timesteps of 1 s to 1 day")
prop("C09", "The vertical flux closes the column balance and never drains a layer",
     "The vertical flux is the one that leaves the two layers with balance errors in proportion to their moisture, "
     "given storage change, horizontal divergence, precipitation (by moisture share) and evaporation (from the lower "
     "layer), all per unit area. Its amount per timestep never exceeds the moisture of the drier layer divided by one plus "
     "the mixing factor, and its sign is the unlimited one's.",
     ["inputs"], "all fluxes, storages, sources, timesteps and mixing factors",
     REF + "; the closure is never evaluated independently",
     [TR + "core.py", UT + "grid.py"], [("closure and limit", TR + "core.py:calculate_fz, divergence")],
     REALS + "grids 3x3 to 5x5; closure at interior cells only. One known finding (sources divided by the cell area)")
prop("C10", "Without tagging and tracked moisture nothing is attributed",
     "A step that starts without tracked moisture and without tagging ends without tracked moisture, and adds nothing "
     "to any reported amount. Without tagging, what a step attributes never exceeds the share that was tracked before.",
     ["inputs", "configurations"], "all fluxes, storages and sources, masks given as a number or as a field",
     REF + " with tagging switched on", STEP_FILES, STEP_MECH,
     REALS + "one step, grids 3x3 to 4x4")
prop("C11", "On a periodic domain the result does not depend on where it is cut",
     "With periodic boundaries, shifting all input fields by any number of columns shifts tracked moisture, attributed "
     "amounts, losses and gains of a step by the same number of columns and changes nothing else. The stability "
     "correction has the same symmetry.",
     ["inputs", "configurations"], "all fields, two different cuts of the same world",
     "the tests' periodic case is compared with itself only",
     STEP_FILES, [("wrapping ghost cells", TR + "core.py:horizontal_advection"), ("periodic faces", UT + "grid.py:stagger_x, stagger_y"),
                  ("no rim in x", UT + "grid.py:get_boundary")],
     REALS + "one step on 3xN, N = 3..5, vertical flux as an input")
prop("C12", "Water that does not fit one layer goes to the other before it is a loss",
     "Away from the edge, a step reports a loss only if the tracked moisture of both layers together would exceed the "
     "total of both, and then exactly the excess; otherwise the surplus of one layer moves to the other. A gain is "
     "reported only for a layer that would become negative, and is what it takes to bring it to zero. At a closed edge "
     "all that arrives is reported as a loss.",
     ["inputs", "configurations"], "all combinations of layers over- and underflowing",
     REF + "; combinations of overflow and deficit are not sampled",
     STEP_FILES, [("redistribution, gains, losses", TR + "backtrack.py:backtrack"), ("same", TR + "forwardtrack.py:forwardtrack")],
     REALS + "one step, grids 3x3 and 4x4")
prop("C45", "Fluxes at cell faces are the mean of the two cells they separate",
     "The flux through the face between two cells is the mean of the two cells' fluxes, including the face between the "
     "last and first column of a periodic domain. The edge of the domain is the outermost row or column, with only rows "
     "when the domain is periodic.",
     ["inputs", "configurations"], "all flux fields, both boundary conditions", "tests check array shapes and one example",
     [UT + "grid.py"], [("faces", UT + "grid.py:stagger_x, stagger_y"), ("edge", UT + "grid.py:get_boundary")],
     REALS + "grids 3x3 to 7x8")
IO = TR + "io.py"
RUN_FILES = [TR + "backtrack.py", TR + "forwardtrack.py", TR + "shared.py", IO]
TIMES = "Times in whole seconds; "
prop("C13", "A run covers its window in consecutive steps with the right data",
     "A run, forward or backward, consists of consecutive steps of one timestep that start at the beginning (backward: the "
     "end) of the tracking period, stay within it and cover all of it but a rest shorter than one timestep. Every step uses "
     "the moisture states at its two ends and the fluxes halfway, whatever the start, length and timestep.",
     ["inputs", "configurations", "histories"], "all windows and timesteps (whole seconds) up to the step bound, both directions",
     REF + " with a timestep that divides the window", RUN_FILES,
     [("loop over time", TR + "backtrack.py:run_experiment"), ("same", TR + "forwardtrack.py:run_experiment"),
      ("clock and timestep", TR + "shared.py:initialize_time")],
     TIMES + "up to 3 steps quick, 5 thorough; the step itself is recorded, not run")
prop("C14", "Moisture is tagged exactly in the tagging period and region",
     "A step tags moisture in the tagging region if the time it is at lies within the tagging period, and nowhere "
     "otherwise; with no tagging period left or not yet begun, the tagging mask of the step is zero everywhere.",
     ["inputs", "configurations", "histories"], "all tagging periods and steps, both directions",
     REF + " and a tagging window equal to whole days", RUN_FILES,
     [("mask per step", TR + "backtrack.py:run_experiment"), ("same", TR + "forwardtrack.py:run_experiment"),
      ("region", IO + ":load_tagging_region")],
     TIMES + "up to 3 steps quick, 4 thorough; box regions")
prop("C15", "Output files together hold every amount exactly once",
     "An output file is written after exactly those steps that end at an output time, and after the last step. Each file holds "
     "the amounts of the steps since the previous file, no step being left out or counted twice, and the tracked moisture "
     "at its time.",
     ["inputs", "configurations", "histories"], "all starts, timesteps, per-step amounts and listed output frequencies",
     "tests run one day with one output; interactions of timestep and output interval are not sampled", RUN_FILES,
     [("flush and reset", TR + "backtrack.py:run_experiment"), ("same", TR + "forwardtrack.py:run_experiment"),
      ("writing", IO + ":write_output")],
     TIMES + "up to 4 steps quick, 6 thorough; outputs every 10 min, 1 h, 6 h, 1 day; amounts per step arbitrary")
prop("C16", "A run split at an output time and restarted equals the whole run",
     "Stopping a run at an output time and starting a second run there with restart gives the same output files as the "
     "unsplit run: the tracked moisture of both layers and every amount of every file.",
     ["inputs", "configurations", "histories"], "all tracked states, per-step amounts, cut points and both directions",
     "the tests contain no restart at all", RUN_FILES,
     [("reading the restart file", TR + "backtrack.py:initialize"), ("same", TR + "forwardtrack.py:initialize"),
      ("restart fields", IO + ":write_output")],
     TIMES + "up to 3 steps quick, 4 thorough; cut at every output time; the step is an arbitrary function of state and fluxes")
prop("C17", "Data for any instant are linear between the two neighbouring input times",
     "Fields for an instant are those stored for it; between two stored times they are the time-weighted mean of the two, "
     "also across midnight (two daily files), for every calendar.",
     ["inputs", "configurations"], "all instants of three days, all field values, input frequencies from 30 min to 1 day",
     "tests load data at a few instants within one file", [IO, UT + "calendar.py"],
     [("interpolation in time", IO + ":load_data"), ("file of a day", IO + ":input_path, load_slice"),
      ("rounding", UT + "calendar.py:round_cftime")],
     TIMES + "2x2 cells; input every 30 min to 1 day; OpenDAP retries not covered")
prop("C18", "Using or changing loaded data never changes later loads",
     "What load_data returns depends only on time, variables, domain and configuration: neither an earlier load of other "
     "times, variables, domains or configurations, nor in-place changes a caller makes to returned fields, show in any later load.",
     ["histories", "configurations"], "all field values; sequences of 7 loads with changes in between",
     "tests load each slice once; the cache is never hit after a change", [IO],
     [("cache", IO + ":_load_slice_with_cache, load_slice"), ("detached copies", IO + ":fully_load_and_detach")],
     "7 loads per history, a fixed choice of histories, 2x3 cells, any data")
prop("C20", "A box region is exactly the cells whose centre lies in the box",
     "The tagging region of a bounding box is 1 in the cells whose centre lies within west-east and south-north, bounds "
     "included, and 0 elsewhere; a box whose west exceeds its east continues across the antimeridian.",
     ["inputs", "configurations"], "all boxes and all cell coordinates, also coordinates equal to a bound",
     "tests use one box away from the antimeridian", [TR + "shared.py", IO],
     [("mask of a box", TR + "shared.py:initialize_tagging_region")],
     REALS + "3x4 cells at arbitrary coordinates (cells are independent)")
prop("C21", "A tracking domain keeps exactly the cells inside it, unmixed",
     "Selecting a tracking domain keeps exactly the rows and columns whose coordinates lie within the box, bounds included. "
     "Each kept cell has its own data, and columns follow each other eastwards, also across the antimeridian.",
     ["inputs", "configurations"], "all grids (increasing longitudes, decreasing latitudes), boxes and data",
     "tests use one box, away from and one across the antimeridian, never with cells on the bounds", [IO],
     [("selection and roll", IO + ":select_subdomain")],
     REALS + "grids of up to 3x5 cells at arbitrary coordinates; west equal to east left out")
prop("C23", "Every model level counts once, in the layer its number says",
     "With model levels, moisture and moisture fluxes of a layer are the sums over the levels on its side of the boundary "
     "level of humidity (times wind) times pressure thickness over g, so the two layers together are the column.",
     ["inputs", "configurations"], "all humidity, wind and thickness fields; several level choices and boundaries",
     "tests compare one stored day", [PP + "shared.py"],
     [("layers", PP + "shared.py:prep_experiment, preprocess")], REALS + "2x2 cells, 4 level choices of 2 to 4 levels")
prop("C24", "Given total column water, the two layers hold exactly that",
     "When the input has total column water, moisture and fluxes of both layers are scaled by one factor per cell "
     "such that the moisture of both layers adds up to it.",
     ["inputs", "configurations"], "all fields with some water vapour in the column", "tests compare one stored day",
     [PP + "shared.py"], [("correction", PP + "shared.py:preprocess")],
     REALS + "1x2 cells, model levels and pressure levels")
prop("C25", "Pressure levels are integrated from the top to the surface, split once",
     "With pressure levels, fields are extended to the surface, interpolated between levels, and integrated from the top of "
     "the atmosphere to the surface, nothing below the surface being counted, with one split at the documented layer "
     "boundary: the layers add up to the column and each holds what lies on its side.",
     ["inputs"], "all fields and all surface pressures between 500 and 1100 hPa, also levels below the surface",
     "tests compare one stored day over one region", [PP + "pressure_levels.py", PP + "utils.py", PP + "shared.py"],
     [("levels", PP + "pressure_levels.py:extend_pressurelevels"), ("thickness", PP + "pressure_levels.py:interp_dp_midpoints"),
      ("below surface", PP + "pressure_levels.py:mask_below_surface_data"), ("interpolation", PP + "utils.py:interpolate")],
     REALS + "one arbitrary column among fixed ones, 1 to 3 levels quick, 7 thorough. One known finding (integer levels)")
prop("C27", "Chosen model levels fill the atmosphere with no gap or overlap",
     "The pressure thicknesses of any choice of ERA5 model levels add up to the surface pressure; each level's part contains the "
     "level's own pressure, bounded halfway to its neighbours. Writing levels in the documented shorthand means all of them.",
     ["inputs", "configurations"], "all surface pressures, several choices of levels",
     "tests use one choice of levels and compare one stored day", [PP + "era5.py", PP + "arco.py", "src/wam2layers/config.py"],
     [("edges", PP + "era5.py:get_edges, get_dp_modellevels")],
     REALS + "choices of 1 to 137 levels; the coefficient table is taken as given")
prop("C28", "Precipitation and evaporation are non-negative and lose nothing",
     "Preprocessed precipitation and evaporation are non-negative rates. Precipitation plus dew (negative evaporation), "
     "and evaporation, are those of the input divided by the accumulation interval, in kg per square metre and second.",
     ["inputs", "configurations"], "all input values of either sign, all listed input frequencies, every source",
     "tests compare one stored day per source", [PP + "era5.py", PP + "arco.py", PP + "cmip.py", PP + "utils.py"],
     [("signs", PP + "era5.py:preprocess_precip_and_evap"), ("accumulation", PP + "utils.py:accumulation_to_flux"),
      ("latent heat", PP + "cmip.py:get_input_data"), ("3-hourly to 6-hourly", PP + "cmip.py:resample_3hr_var")],
     REALS + "2x2 cells, 3 times, input frequencies from 30 min to 1 day")
prop("C29", "Input fields are read for the right time, variable and level",
     "What preprocessing reads for a time are that time's values of the right variables at exactly the configured levels, "
     "whatever naming convention or file layout (one file, daily files, one file per time) the source has.",
     ["inputs", "configurations"], "all field values; old and new conventions of ERA5, ARCO-ERA5 and CMIP",
     "tests use one stored layout per source", [PP + "era5.py", PP + "arco.py", PP + "cmip.py", UT + "calendar.py"],
     [("ERA5", PP + "era5.py:load_data, get_input_data"), ("ARCO", PP + "arco.py:get_input_data"),
      ("CMIP", PP + "cmip.py:load_cmip_var, open_var"), ("files", UT + "calendar.py:template_to_files")],
     "3 times, 2x2 cells, any values; NetCDF and Zarr libraries replaced by in-memory files")
prop("C30", "Preprocessing writes every time once, in its day's file, in order",
     "Preprocessing writes one file per day of the period. It holds each time of that day exactly once, in order, with that "
     "time's fields, and readers find the times again, for every calendar and with or without parallel processing.",
     ["inputs", "configurations", "histories"], "all field values; periods over day, month and year boundaries",
     "tests preprocess one day in one process", [PP + "shared.py", PP + "xarray_append.py"],
     [("times", PP + "shared.py:get_input_dates, group_timestamps_by_day"), ("appending", PP + "xarray_append.py:append_to_netcdf"),
      ("parallel", PP + "shared.py:parallel_preprocess")],
     "periods of 2 to 3 days; the NetCDF library and process pools are replaced by stand-ins")
prop("C31", "Incomplete input is refused before anything is written",
     "Preprocessing refuses input in which a file, a time, a level, a variable, a dimension or any single value is missing, and then "
     "has written nothing; it accepts input in which all are present.",
     ["inputs", "fault_sequences"], "a missing value at any position, each variable, file, time and level missing or misshapen, every source",
     "tests drop one variable and insert one NaN", [PP + "input_validation.py", PP + "shared.py"],
     [("validation", PP + "input_validation.py:validate_vars, validate_dims, check_nans")],
     "2x2x2 values, each present or missing independently; a file, time or level of one variable missing; optional column water aside")
prop("C32", "Longitudes are brought to -180..180 with each column's data",
     "Input longitudes in -180..360 are brought to -180..180 and sorted; each column keeps its data.",
     ["inputs"], "all increasing longitudes and all data", "tests use one regular global grid", [PP + "shared.py"],
     [("shift", PP + "shared.py:shift_longitude")], REALS + "3 to 6 columns at arbitrary longitudes")
prop("C34", "Surface humidity follows the documented saturation formula",
     "Surface specific humidity is a function of dew point and surface pressure: that of the documented "
     "saturation formula, between zero and one, increasing with dew point and decreasing with pressure.",
     ["inputs"], "all dew points from 200 to 320 K and surface pressures", "tests compare one stored day",
     [PP + "utils.py", PP + "era5.py", PP + "arco.py"], [("formula", PP + "utils.py:calculate_humidity")],
     REALS + "1x2 cells; the exponential is an increasing positive function above its tangent")
prop("C44", "Cell areas and side lengths are those of the sphere",
     "Grid cell areas are the areas of the latitude bands' sectors on the sphere, so that a global grid adds up to the "
     "sphere, and side lengths are those of the cell's sides at their own latitudes, for any regular grid spacing, also across the antimeridian.",
     ["inputs"], "all regular grids: spacing, position, order of latitudes", "tests use one grid with equal spacings",
     [UT + "grid.py"], [("areas and lengths", UT + "grid.py:get_grid_info")],
     REALS + "3 to 6 rows and columns; sine and cosine uninterpreted apart from symmetry and range")
prop("C46", "Output files hold the fields unchanged, under their own time and name",
     "Writing an output file stores every field as it is with its time, the interval it covers and the cell bounds, leaves the "
     "fields in memory as they were, and never writes into the file of another output time.",
     ["inputs", "configurations", "histories"], "all pairs of output times, all field values, all listed output frequencies",
     "tests write one file", [IO], [("file name", IO + ":output_path"), ("time bounds", IO + ":add_time_bounds"),
                                     ("writing", IO + ":write_output")],
     "two files at any two whole minutes of 30 days; the NetCDF library is replaced by in-memory files")
CF = "src/wam2layers/config.py"
CAL = UT + "calendar.py"
prop("C35", "An accepted configuration has ordered periods and the dates it was given",
     "A configuration is refused exactly if its tracking, tagging or preprocessing period ends before it starts, "
     "when it is made and whenever one of its dates is changed. The dates of an accepted one are exactly the given ones, in the given calendar.",
     ["inputs", "configurations"], "all six dates, both ways of writing them, several calendars",
     "tests change one date to one value per period", [CF, CAL],
     [("order", CF + ":Config.check_date_order"), ("reading", CF + ":Config.convert_dates"),
      ("calendars", CAL + ":cftime_from_iso, subclass_cftime")],
     "dates of 800 days in whole seconds, 3 calendars; pydantic's core is interpreted from the model's declarations")
prop("C36", "A box is accepted exactly if it is one, and kept as given",
     "A bounding box for the tagging region or the tracking domain is accepted exactly if its longitudes are within -180..180, "
     "its latitudes within -80..80 and its south is below its north; west may exceed east. It is kept unchanged.",
     ["inputs", "configurations"], "all boxes, given at once or by changing a configuration",
     "tests use one valid and one invalid box", [CF],
     [("validation", CF + ":validate_region, BoundingBox")],
     "any four numbers from -400 to 400; pydantic's core is interpreted from the model's declarations")
prop("C41", "The progress report accounts for all tagged moisture of the run",
     "Every progress report gives, in percent of all moisture tagged since the start of the run, what was tracked, is still in the "
     "atmosphere, left through the edge, was lost and was gained, area-weighted; amounts already written to output files are "
     "still included. The closure is their sum, gains counting negatively, so it is 100% if the ledger closes.",
     ["inputs", "histories", "configurations"], "all amounts in all cells, several outputs, both directions and boundary conditions",
     "no test looks at the report", [UT + "profiling.py", TR + "backtrack.py", TR + "forwardtrack.py"],
     [("totals", UT + "profiling.py:ProgressTracker"), ("order of report and flush", TR + "backtrack.py:run_experiment")],
     REALS + "2 to 3 reports on grids up to 5x6; runs of 3 to 5 steps")
prop("C42", "Stability warnings appear when they should and do not repeat",
     "The user is warned the first time more than 5% of the grid is corrected, and whenever the correction "
     "gets more than 10% stronger or larger than ever; not without correction, nor again "
     "unless it exceeds the last warning's extent or strength by 10%. The file named in the warning has the correction factors.",
     ["inputs", "histories"], "all correction factors, sequences of 2 to 3 steps",
     "tests contain no warning", [UT + "profiling.py", TR + "core.py"],
     [("criteria", UT + "profiling.py:ProgressTracker.track_stability_correction")],
     REALS + "up to 3 cells of a 4x6 grid corrected by any factor")
prop("C19", "A region file tags with its own values, a changing one with the nearest time's",
     "With a tagging region from a NetCDF file, every step inside the tagging period tags each cell with the file's value "
     "for that cell, within the tracking domain if there is one; of a file with times, the values of the time nearest to the step's "
     "reference time (start of a forward, end of a backward step). Outside the period nothing is tagged.",
     ["inputs", "configurations", "histories"], "all region values, windows, timesteps and tagging periods, any domain, both directions",
     "tests tag with one constant region", RUN_FILES,
     [("loading", IO + ":load_tagging_region, select_subdomain"), ("choice per step", TR + "backtrack.py, forwardtrack.py:run_experiment")],
     TIMES + "up to 3 steps, files with no time or three irregular times; NetCDF files in memory")
prop("C38", "A configuration written to a file reads back as the same configuration",
     "Writing a configuration to a file and reading that file gives the same settings: same dates in the same calendar, regions, "
     "numbers and options, whatever (valid) values they have.",
     ["inputs", "configurations"], "all dates in order, boxes and numbers, combinations of the other settings",
     "tests write the stored example", [CF, CAL],
     [("writing", CF + ":Config.to_file, to_string"), ("reading", CF + ":Config.from_yaml")],
     "whole seconds, years from 1000, 3 calendars; pydantic is replaced by an interpreter of the model's declarations and validators")
prop("C43", "The input checker warns exactly when data break a stated requirement",
     "Checking preprocessed data warns, naming the variable or coordinate, if a field leaves its stated range, a coordinate is not evenly spaced or in "
     "the wrong order (latitudes falling, others rising), or units are missing or unknown; and says nothing otherwise.",
     ["inputs"], "all values of three cells of each variable, all triples of coordinates, units of each variable",
     "no test runs the checker", ["src/wam2layers/analysis/checks.py"],
     [("checks", "src/wam2layers/analysis/checks.py:check_input")],
     REALS + "2x3x3 data; spacings that differ do so by more than 0.001 degrees")
prop("C47", "Every step gets side-integrated, limited fluxes and their own vertical flux",
     "In every step of a run the fluxes per metre are multiplied by the length of the cell sides they cross, then limited by "
     "the moisture the step starts from (backward: ends with), and the vertical flux is computed from these limited fluxes, the sources and the "
     "states at both ends with the configured timestep and net-to-gross factor. All of it reaches the step, in all cells.",
     ["inputs", "histories", "configurations"], "all fluxes, states and sources, any limiter and vertical flux, both directions",
     "the reference tests cover one stored case", RUN_FILES + [TR + "core.py"],
     [("order of the terms", TR + "backtrack.py:run_experiment"), ("order of the terms", TR + "forwardtrack.py:run_experiment")],
     REALS + "2 to 6 steps on a 3x3 grid; limiter and vertical flux are arbitrary functions here (decided by C08, C09)")
prop("C37", "Old and lower-case spellings of frequencies are understood, others kept",
     "An output or input frequency that is an optional number followed by an outdated or differently cased alias (H, T, S, L, U, N, BH, CBH, D) is "
     "replaced by the same number with today's alias (h, min, s, ms, us, ns, bh, cbh, D); any other text is left exactly as it is.",
     ["inputs", "configurations"], "all texts of up to 5 printable ASCII characters (thorough: 8)",
     "tests try a dozen spellings", [CAL, CF],
     [("aliases", CAL + ":fix_deprecated_frequency")],
     "strings of symbolic characters; regular expressions are interpreted from their parsed form")
prop("C39", "A DOI is taken apart into prefix, suffix and dataset id",
     "A DOI with or without a resolver before it gives the prefix (10. and 4 to 9 digits) and the whole suffix; the id of the dataset is the suffix up to its "
     "first dot. A text without such a prefix, or with a character no suffix has, is refused with an error.",
     ["inputs"], "all registrants, suffixes of up to 4 and ids of up to 6 characters, 4 resolvers; refused texts of up to 7 characters",
     "tests try two DOIs", ["src/wam2layers/download.py"],
     [("parsing", "src/wam2layers/download.py:parse_doi, get_4tu_id")],
     "strings of symbolic characters; regular expressions are interpreted from their parsed form")
prop("C40", "A download never overwrites, fetches every file once and reports failure",
     "Downloading a case stops, before asking for anything, if the target folder exists, and for an unknown provider makes nothing. Otherwise it asks for every file of "
     "the catalogue and of the listing once and stores each under its name; an error answer to any request is raised, never saved as data.",
     ["inputs", "fault_sequences"], "any status of every answer, any registrant, up to 3 files (thorough: 7), target present or not",
     "tests with a network read one catalogue", ["src/wam2layers/download.py"],
     [("downloading", "src/wam2layers/download.py:download_from_doi, download_from_4tu, download")],
     "the web is a stand-in whose answers have symbolic statuses; files go to a temporary folder")
prop("C26", "A read that fails is tried again, and its outcome is never hidden",
     "Opening a preprocessed file that fails with an IndexError (a spurious OPeNDAP failure) is tried again, up to eight times, after pauses of half "
     "a second doubling each time (at most twice that). Data are those of the successful try; a ninth failure, and any other error at once, is raised. A failure leaves nothing behind: later loads are right.",
     ["inputs", "fault_sequences"], "all numbers of failures, what follows them, pauses, field values and instants",
     "no test makes a read fail", [IO],
     [("retrying", IO + ":read_or_retry"), ("use", IO + ":load_data")],
     TIMES + "up to 9 failures; failures while reading from an opened file are not covered")
prop("C22", "A region from a shapefile tags each cell with the share of it in the polygon",
     "With a tagging region from a shapefile, every cell of the grid (or of the tracking domain) is tagged with the share of its area, in degrees, that "
     "lies in the first polygon: 1 inside, 0 outside, whatever the order of the latitudes. The mask kept in the debug folder is the same.",
     ["inputs", "configurations"], "all rectangles with sides along the grid, with and without a tracking domain",
     "tests compare one stored mask", [UT + "shapefile_mask.py", IO],
     [("shares", UT + "shapefile_mask.py:create_mask, generate_boxes"), ("use", IO + ":load_tagging_region")],
     REALS + "3x3 and 3x4 cells (thorough: 4x5); polygons are rectangles; shapely and the shapefile reader are stand-ins (real ones in replays)")
prop("C33", "A square region around a point or track is exactly the cells within the radius",
     "The region designer's masks around a point, and around every position of a track at its own time, are 1 in the cells whose centre is no further than the "
     "radius from the position in latitude and in longitude, and 0 elsewhere, on the grid of the reference file.",
     ["inputs"], "all grids, positions and radii", "no test covers the region designer", [UT + "tagging_region.py"],
     [("point", UT + "tagging_region.py:mask_around_point"), ("track", UT + "tagging_region.py:mask_around_track")],
     REALS + "3x4 cells, tracks of 3 positions; plotting and shapefile libraries that are not installed are stubbed out")
VIS = "src/wam2layers/analysis/visualization.py"
prop("C48", "Maps of the input and of the results are the totals of the run",
     "The map of the input shows, per cell, the precipitation (backward) or evaporation (forward) of every input record within the tagging period, times the share of "
     "the cell tagged and the length of an input interval. The map of the results is the sum of the tracked moisture in all output files of the tracking period, restart files aside.",
     ["inputs", "configurations"], "all field values and region shares; a choice of periods, frequencies, calendars, regions and domains",
     "tests compare two images of one case", [VIS],
     [("input", VIS + ":visualize_input_data"), ("results", VIS + ":visualize_output_data")],
     REALS + "2x3 cells, up to 4 output files, 4 days of input; the drawing itself is replaced by a recorder. One output file is left out: see known findings")
prop("C49", "Tracking the parts of a region separately adds up to tracking the whole",
     "As long as no limit is hit, a step is additive: with the tagging region and the tracked moisture split into two parts in any way, tracked, tagged and "
     "attributed amounts and losses of the two parts add up, cell by cell, to those of the whole, in both directions.",
     ["inputs"], "all splits of all masks and tracked fields; three fixed weather situations",
     "no test runs two regions", [TR + "backtrack.py", TR + "forwardtrack.py"],
     [("backward", TR + "backtrack.py:backtrack"), ("forward", TR + "forwardtrack.py:forwardtrack")],
     REALS + "one step on 4x4 and 4x5 cells (thorough: 7x8); winds, sources and moisture are three fixed fields")
prop("C50", "Mirrored weather gives mirrored results",
     "Turning the weather around east-west, or north-south on a grid symmetric about the equator (with the flux across the mirror reversed), turns the results of a step, "
     "of the limiter and of the vertical flux around and changes nothing else, with and without a periodic boundary.",
     ["inputs"], "all tracked moisture and masks in three weather situations; limiter and vertical flux: all fields",
     "tests run one region on one side of the equator", [CORE, TR + "backtrack.py", TR + "forwardtrack.py"],
     [("step", TR + "backtrack.py:backtrack, forwardtrack.py:forwardtrack"), ("flows", CORE + ":stabilize_fluxes, calculate_fz")],
     REALS + "one step on 4x4 and 4x5 cells (thorough: 7x8); winds of the step are fixed fields")
prop("C51", "Results are in proportion to the amounts of moisture",
     "Multiplying all moisture, fluxes, precipitation, evaporation and tracked amounts by one factor multiplies every result of a step, the limited fluxes and the vertical flux "
     "by it: shares do not depend on units and there is no hidden threshold.",
     ["inputs"], "all tracked moisture and masks (limiter and vertical flux: all fluxes); factors 1/1024 and 8",
     "tests use one scale", [CORE, TR + "backtrack.py", TR + "forwardtrack.py"],
     [("step", TR + "backtrack.py:backtrack, forwardtrack.py:forwardtrack"), ("flows", CORE + ":stabilize_fluxes, calculate_fz")],
     REALS + "one step on 4x4 and 4x5 cells; moisture of the step and of the vertical flux are two fixed fields; two factors")
prop("C52", "A cell's result depends on the cell and its four neighbours only",
     "One step changes a cell according to the data of that cell and its neighbours to the north, south, east and west (around the globe if periodic) only: other values "
     "elsewhere change nothing there. The limiter looks at the cell alone.",
     ["inputs"], "all fields, every cell, any other values outside its neighbourhood", "tests compare whole results of one case",
     [CORE, TR + "backtrack.py", TR + "forwardtrack.py"],
     [("step", TR + "backtrack.py:backtrack, forwardtrack.py:forwardtrack"), ("flows", CORE + ":stabilize_fluxes, calculate_fz")],
     REALS + "one step on 4x5 and 3x5 cells (thorough: 6x6)")
prop("C53", "Cell bounds stored with data are the edges of the cells",
     "The latitude and longitude bounds written with preprocessed data and with results are half a spacing to either side of each cell centre, also when the "
     "domain lies across the antimeridian, and adding them leaves data and coordinates alone.",
     ["inputs"], "all regular grids in any position, latitudes in either order", "tests use one grid away from the antimeridian",
     [PP + "utils.py", TR + "io.py", PP + "shared.py"],
     [("bounds", PP + "utils.py:add_bounds"), ("results", TR + "io.py:write_output"), ("input", PP + "shared.py:preprocess")],
     REALS + "3x3 and 4x5 cells (thorough: 6x9); files with five ranges of longitude")
