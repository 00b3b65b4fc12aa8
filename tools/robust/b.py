exec(open('/tmp/rf/a.py').read().split("R=[")[0])
R=[
("io-load",[(IO,'''    t0 = round_cftime(t, config.input_frequency, "floor")
    t1 = round_cftime(t, config.input_frequency, "ceil")

    if t == t0 or t == t1:
        return load_slice(t, subset, config)

    da0 = load_slice(t0, subset, config)
    da1 = load_slice(t1, subset, config)
    return da0 + (t - t0) / (t1 - t0) * (da1 - da0)
''','''    before = round_cftime(t, config.input_frequency, "floor")
    if before == t:
        return load_slice(t, subset, config)

    after = round_cftime(t, config.input_frequency, "ceil")
    weight = (t - before) / (after - before)
    return (1 - weight) * load_slice(before, subset, config) + weight * load_slice(
        after, subset, config
    )
''')],"C17 C23 C13"),
("io-slice",[(IO,'''    ds = read_or_retry(filename)
    ds = ds.sel(time=time).drop("time").squeeze()
    ds = ds[variables]
''','''    ds = read_or_retry(filename)[variables]
    ds = ds.sel(time=time).squeeze().drop_vars("time")
'''),(IO,'''    # Avoid modifying the cached slice!
    slice = _load_slice_with_cache(filename, time, subset, domain)
    return deepcopy(slice)
''','''    return _load_slice_with_cache(filename, time, subset, domain).copy(deep=True)
''')],"C17 C23"),
("io-detach",[(IO,'''    loaded_vars = {var: (ds[var].dims, ds[var].values) for var in ds.data_vars}

    # Extract coords similarly (some coords are multi-dimensional)
    loaded_coords = {
        coord: (ds.coords[coord].dims, ds.coords[coord].values) for coord in ds.coords
    }
    return xr.Dataset(data_vars=loaded_vars, coords=loaded_coords, attrs=ds.attrs)
''','''    def detach(arrays):
        return {name: (array.dims, array.values) for name, array in arrays.items()}

    return xr.Dataset(detach(ds.data_vars), detach(ds.coords), ds.attrs)
''')],"C17 C23"),
("io-sub",[(IO,'''    west, south, east, north = [float(p) for p in bbox.split(", ")]
    if west < east:
        return ds.sel(
            longitude=slice(west, east),  # -180 to 180
            latitude=slice(north, south),  # 90 - -90 (decreasing)
            drop=True,
        )
    else:
''','''    west, south, east, north = map(float, bbox.split(", "))
    latitudes = slice(north, south)  # 90 - -90 (decreasing)
    if west < east:
        return ds.sel(longitude=slice(west, east), latitude=latitudes, drop=True)
    else:
'''),(IO,'''        return ds_rolled.sel(longitude=in_bbox, latitude=slice(north, south))
''','''        return ds_rolled.isel(longitude=np.flatnonzero(in_bbox.values)).sel(
            latitude=latitudes
        )
''')],"C21 C19 C23"),
("io-sub-roll",[(IO,'''        in_bbox = (ds.longitude <= east) | (ds.longitude >= west)
        n_roll = in_bbox.argmin().item()  # first false value
        ds_rolled = ds.roll(longitude=-n_roll, roll_coords=True)
        in_bbox = (ds_rolled.longitude <= east) | (ds_rolled.longitude >= west)
        return''','''        def inside(longitude):
            return (longitude <= east) | (longitude >= west)

        n_roll = int(np.argmin(inside(ds.longitude).values))  # first false value
        ds_rolled = ds.roll(longitude=-n_roll, roll_coords=True)
        in_bbox = inside(ds_rolled.longitude)
        return''')],"C21 C19 C23"),
("io-retry",[(IO,'''    for n in range(max_retries + 1):
        try:
            return xr.open_dataset(
                filename, engine="netcdf4", cache=False, use_cftime=True
            )
        except IndexError:
            if n == max_retries:
                raise
            base_delay = initial_delay * 2**n
''','''    n = 0
    while True:
        try:
            return xr.open_dataset(
                filename, engine="netcdf4", cache=False, use_cftime=True
            )
        except IndexError:
            if n >= max_retries:
                raise
            base_delay = initial_delay * 2**n
            n += 1
''')],"C24 C23"),
("io-path",[(IO,'''    return f"{output_dir}/{mode}_{date.strftime('%Y-%m-%dT%H-%M')}.nc"
''','''    stamp = f"{date.year:04d}-{date.month:02d}-{date.day:02d}T{date.hour:02d}-{date.minute:02d}"
    return str(Path(output_dir) / f"{mode}_{stamp}.nc")
''')],"C46 C16"),
("io-write",[(IO,'''    for var in output.data_vars:
        if var != "time_bnds":
            output[var] = output[var].astype("float32")
    output.to_netcdf(path, encoding=encoding)''','''    fields = [var for var in output.data_vars if var != "time_bnds"]
    output = output.assign({var: output[var].astype("float32") for var in fields})
    output.to_netcdf(path, encoding=encoding)'''),(IO,'''    output = output.assign_coords({"time": t})
    output = output.expand_dims(dim="time")
''','''    output = output.assign_coords(time=t).expand_dims("time")
''')],"C46"),
("io-bnds",[(IO,'''    dt = pd.Timedelta(config.output_frequency)
    if config.tracking_direction == "forward":
        ds["time_bnds"] = (("time", "bnds"), np.array(((t - dt, t),)))
    else:
        ds["time_bnds"] = (("time", "bnds"), np.array(((t + dt, t),)))
''','''    dt = pd.Timedelta(config.output_frequency)
    other = t - dt if config.tracking_direction == "forward" else t + dt
    ds["time_bnds"] = (("time", "bnds"), np.array([[other, t]]))
''')],"C46"),
("prof",[(PR,'''        if self.periodic_x:
            interior_losses = area_weighted_output.losses[1:-1, :].sum()
        else:
            interior_losses = area_weighted_output.losses[1:-1, 1:-1].sum()
        boundary_transport = totals["losses"] - interior_losses

        self.lost_water += interior_losses
        self.boundary_transport += boundary_transport
''','''        columns = slice(None) if self.periodic_x else slice(1, -1)
        inside = dict(latitude=slice(1, -1), longitude=columns)
        interior_losses = area_weighted_output["losses"].isel(inside).sum()

        self.lost_water = self.lost_water + interior_losses
        self.boundary_transport += totals["losses"] - interior_losses
'''),(PR,'''        tracked_percentage = tracked / total_tagged_moisture * 100
        in_atmos_percentage = still_in_atmosphere / total_tagged_moisture * 100
        lost_percentage = lost_water / total_tagged_moisture * 100
        gained_percentage = gained_water / total_tagged_moisture * 100
        boundary_percentage = boundary_transport / total_tagged_moisture * 100
''','''        def percentage(amount):
            return 100 * amount / total_tagged_moisture

        tracked_percentage = percentage(tracked)
        in_atmos_percentage = percentage(still_in_atmosphere)
        lost_percentage = percentage(lost_water)
        gained_percentage = percentage(gained_water)
        boundary_percentage = percentage(boundary_transport)
''')],"C41"),
("prof2",[(PR,'''        area_weighted_output = output * np.cos(np.deg2rad(output["latitude"]))
        totals = area_weighted_output.sum()

        if self.mode == "backtrack":
            tracked = self.tracked + totals["e_track"]
''','''        weights = np.cos(np.deg2rad(output["latitude"]))
        area_weighted_output = output * weights
        totals = {name: field.sum() for name, field in area_weighted_output.items()}

        if self.mode == "backtrack":
            tracked = self.tracked + totals["e_track"]
''')],"C41"),
("prof-stab",[(PR,'''        stronger = strongest_correction < self.stability_correction_previous_factor / 1.1
        larger = (
            corrected_percent > 5  # at least 5 percent of the grid should be corrected
            and corrected_percent > self.stability_correction_previous_grid * 1.1
        )

        warn = stronger or larger
        if warn:
''','''        previous_factor = self.stability_correction_previous_factor
        previous_grid = self.stability_correction_previous_grid
        threshold = max(5, previous_grid * 1.1)
        if strongest_correction * 1.1 < previous_factor or corrected_percent > threshold:
''')],"C42"),
("cal",[(CA,'''    if timestamp.count(":") == 1:
        fmt = "%Y-%m-%dT%H:%M"
    else:
        fmt = "%Y-%m-%dT%H:%M:%S"
    return''','''    has_seconds = timestamp.count(":") != 1
    fmt = "%Y-%m-%dT%H:%M" + (":%S" if has_seconds else "")
    return'''),(CA,'''    if how == "nearest":
        return xr.CFTimeIndex([date], calendar=date.calendar).round(freq)[0]
    if how == "ceil":
        return xr.CFTimeIndex([date], calendar=date.calendar).ceil(freq)[0]
    if how == "floor":
        return xr.CFTimeIndex([date], calendar=date.calendar).floor(freq)[0]
''','''    index = xr.CFTimeIndex([date], calendar=date.calendar)
    if how == "nearest":
        rounded = index.round(freq)
    elif how == "ceil":
        rounded = index.ceil(freq)
    else:
        rounded = index.floor(freq)
    return rounded[0]
''')],"C35 C38 C17 C13 C14 C15 C29"),
("cfg",[(CF,'''        if self.tracking_start_date > self.tracking_end_date:
            raise ValueError(
                "tracking_end_date should be later than tracking_start_date"
            )
        if self.tagging_start_date > self.tagging_end_date:
            raise ValueError("tagging_end_date should be later than tagging_start_date")
        if self.preprocess_start_date > self.preprocess_end_date:
            raise ValueError(
                "preprocess_end_date should be later than preprocess_start_date"
            )
''','''        for period in ("tracking", "tagging", "preprocess"):
            start = getattr(self, f"{period}_start_date")
            end = getattr(self, f"{period}_end_date")
            if end < start:
                raise ValueError(
                    f"{period}_end_date should be later than {period}_start_date"
                )
'''),(CF,'''        jsonconfig = self.model_dump_json(exclude=dates)
        jsondict = json.loads(jsonconfig)

        for date in dates:
            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M:%S")
        return json.dumps(jsondict)''','''        settings = json.loads(self.model_dump_json(exclude=set(dates)))
        settings.update(
            {date: getattr(self, date).strftime("%Y-%m-%dT%H:%M:%S") for date in dates}
        )
        return json.dumps(settings)''')],"C35 C36 C38"),
("cfg2",[(CF,'''    assert -180 <= region.west <= 180, "longitude should be between -180 and 180"
    assert -180 <= region.east <= 180, "longitude should be between -180 and 180"
    assert -80 <= region.north <= 80, "latitude should be between -80 and 80"
    assert -80 <= region.south <= 80, "latitude should be between -80 and 80"
    assert region.south < region.north, "south should be smaller than north"
''','''    for longitude in (region.west, region.east):
        if not abs(longitude) <= 180:
            raise ValueError("longitude should be between -180 and 180")
    for latitude in (region.south, region.north):
        if not abs(latitude) <= 80:
            raise ValueError("latitude should be between -80 and 80")
    if region.south >= region.north:
        raise ValueError("south should be smaller than north")
'''),(CF,'''        with open(config_file) as f:
            settings = yaml.safe_load(f)

        return cls(**settings)''','''        settings = yaml.safe_load(Path(config_file).read_text())
        return cls(**settings)''')],"C35 C36 C38"),
("ps-int",[(PS,'''        # Vertically integrate state over two layers
        s_lower = cw.where(lower_layer).sum(dim="level")
        s_upper = cw.where(upper_layer).sum(dim="level")

        # Determine the fluxes
        fx = level_data["u"] * cw  # eastward atmospheric moisture flux (kg m-1 s-1)
        fy = level_data["v"] * cw  # northward atmospheric moisture flux (kg m-1 s-1)

        # Vertically integrate fluxes over two layers
        fx_lower = fx.where(lower_layer).sum(dim="level")  # kg m-1 s-1
        fy_lower = fy.where(lower_layer).sum(dim="level")  # kg m-1 s-1
        fx_upper = fx.where(upper_layer).sum(dim="level")  # kg m-1 s-1
        fy_upper = fy.where(upper_layer).sum(dim="level")  # kg m-1 s-1
''','''        def integrate(field, layer):
            return field.where(layer).sum(dim="level")

        fx = cw * level_data["u"]
        fy = cw * level_data["v"]
        s_lower, s_upper = (integrate(cw, m) for m in (lower_layer, upper_layer))
        fx_lower, fx_upper = (integrate(fx, m) for m in (lower_layer, upper_layer))
        fy_lower, fy_upper = (integrate(fy, m) for m in (lower_layer, upper_layer))
''')],"C25 C27 C28 C29 C34"),
("ps-int2",[(PS,'''        s_lower = cw.where(lower_layer).sum(dim="level")
        s_upper = cw.where(upper_layer).sum(dim="level")
''','''        s_lower = xr.where(lower_layer, cw, 0).sum(dim="level")
        s_upper = (cw * upper_layer).fillna(0).sum(dim="level")
''')],"C25 C27 C28"),
("ps-shift",[(PS,'''    if (ds["longitude"].to_numpy() > 180).any() or (
        ds["longitude"].to_numpy() < 0
    ).any():
        logger.info("Shifting longitude values to a range of -180 to 180 degrees.")
        ds.coords["longitude"] = (ds.coords["longitude"] + 180) % 360 - 180
        return ds.sortby(ds.longitude)
    return ds
''','''    longitude = ds["longitude"].values
    if np.all((longitude >= 0) & (longitude <= 180)):
        return ds
    logger.info("Shifting longitude values to a range of -180 to 180 degrees.")
    shifted = (longitude + 180) % 360 - 180
    return ds.assign_coords(longitude=shifted).sortby("longitude")
'''),(PS,"import xarray as xr\n","import numpy as np\nimport xarray as xr\n")],"C30 C31 C32 C25 C28"),
("ps-loop",[(PS,'''    for i, datetime in enumerate(datetimes):
        is_new_day = i == 0
''','''    is_new_day = True
    for datetime in datetimes:
'''),(PS,'''            append_to_netcdf(output_path, ds, expanding_dim="time")
''','''            append_to_netcdf(output_path, ds, expanding_dim="time")
        is_new_day = False
'''),(PS,'''    return daterange.groupby(
        [date.year * 10000 + date.month * 100 + date.day for date in daterange]
    )
''','''    def day(date):
        return (date.year * 100 + date.month) * 100 + date.day

    return daterange.groupby([day(date) for date in daterange])
''')],"C28 C29 C25"),
("pl",[(PL,'''    p = np.insert(p, 0, 0.0, axis=level_ax)
    q = np.insert(q, 0, 0.0, axis=level_ax)
    v = np.insert(v, 0, np.take(v, p0, axis=level_ax), axis=level_ax)
    u = np.insert(u, 0, np.take(u, p0, axis=level_ax), axis=level_ax)

    # Insert surface level values
    p = np.insert(p, 0, surface_data["ps"], axis=level_ax)
    q = np.insert(q, 0, surface_data["qs"], axis=level_ax)
    v = np.insert(v, 0, surface_data["vs"], axis=level_ax)
    u = np.insert(u, 0, surface_data["us"], axis=level_ax)

    # Sort arrays by pressure (ascending)
    u = sortby_ndarray(u, p, axis=level_ax)
    v = sortby_ndarray(v, p, axis=level_ax)
    q = sortby_ndarray(q, p, axis=level_ax)
    p = sortby_ndarray(p, p, axis=level_ax)
''','''    def prepend(array, values):
        return np.insert(array, 0, values, axis=level_ax)

    top = {"u": u.take(p0, axis=level_ax), "v": v.take(p0, axis=level_ax)}
    p = prepend(prepend(p, 0.0), surface_data["ps"].to_numpy())
    q = prepend(prepend(q, 0.0), surface_data["qs"].to_numpy())
    u = prepend(prepend(u, top["u"]), surface_data["us"].to_numpy())
    v = prepend(prepend(v, top["v"]), surface_data["vs"].to_numpy())

    # Sort arrays by pressure (ascending)
    order = np.argsort(p, axis=level_ax)
    u, v, q, p = (np.take_along_axis(x, order, axis=level_ax) for x in (u, v, q, p))
''')],"C25 C27"),
("pl-mid",[(PL,'''    midpoints = 0.5 * (
        level_data["level"].to_numpy()[1:] + level_data["level"].to_numpy()[:-1]
    )
''','''    levels = level_data["level"].values
    midpoints = levels[:-1] + np.diff(levels) / 2
'''),(PL,'''    above_surface = level_data["p"] < ps.broadcast_like(level_data["p"])
    return level_data.where(above_surface)
''','''    below_surface = level_data["p"] >= ps
    return level_data.where(~below_surface)
''')],"C25 C27"),
("pu-interp",[(PU,'''    upper = np.sum(x > xp, axis=0)
    lower = upper - 1

    # This will allow numpy advanced indexing to take an (N-1)D slice of an ND array
    upper = (upper, *np.meshgrid(*[range(l) for l in x.shape], indexing="ij"))
    lower = (lower, *np.meshgrid(*[range(l) for l in x.shape], indexing="ij"))

    fy = fp[lower] + (fp[upper] - fp[lower]) * (x - xp[lower]) / (xp[upper] - xp[lower])
    return fy
''','''    upper = (xp < x).sum(axis=0)
    lower = upper - 1

    def level(array, index):
        return np.take_along_axis(array, index[None, ...], axis=0)[0]

    x0, x1 = level(xp, lower), level(xp, upper)
    weight = (x - x0) / (x1 - x0)
    return (1 - weight) * level(fp, lower) + weight * level(fp, upper)
''')],"C25 C26 C27 C32"),
("e5",[(E5,'''    precip = np.maximum(precip, 0) + np.maximum(evap, 0)
    precip = precip

    # Change sign convention to all positive,
    evap = np.abs(np.minimum(evap, 0))

    precip = accumulation_to_flux(precip, input_frequency=config.input_frequency)
    evap = accumulation_to_flux(evap, input_frequency=config.input_frequency)
    return precip, evap
''','''    condensation = evap.clip(min=0)
    evap = (-evap).clip(min=0)
    precip = precip.clip(min=0) + condensation

    return tuple(
        accumulation_to_flux(amount, input_frequency=config.input_frequency)
        for amount in (precip, evap)
    )
'''),(PU,'''    timestep = pd.Timedelta(input_frequency)
    nseconds = timestep.total_seconds()

    fluxdata = (density * data / nseconds).assign_attrs(units="kg m-2 s-1")
''','''    nseconds = pd.Timedelta(input_frequency) / pd.Timedelta("1s")

    fluxdata = data * (density / nseconds)
    fluxdata.attrs["units"] = "kg m-2 s-1"
''')],"C30 C31 C28"),
("e5-lev",[(E5,'''    a_edge = midpoints(a_full)
    b_edge = midpoints(b_full)

    # Reinsert the original outer edges
    a_edge = np.block([a[0], a_edge, a[-1]])
    b_edge = np.block([b[0], b_edge, b[-1]])

    return a_edge, b_edge
''','''    return tuple(
        np.concatenate([full[:1], midpoints(levels), full[-1:]])
        for full, levels in ((a, a_full), (b, b_full))
    )
'''),(E5,'''    p_edge = a + b * sp

    # Calculate the difference between the pressure levels
    dp = p_edge.diff("level")  # in Pa

    return dp
''','''    p_edge = a + b * sp
    return p_edge.diff(dim="level")
''')],"C30 C25 C28"),
("e5-hum",[(PU,'''    svp = a1 * np.exp(a3 * (dewpoint - t0) / (dewpoint - a4))

    # Specific humidity
    spec_hum = (Rd / Rv) * svp / (pressure - ((1 - Rd / Rv) * svp))

    return spec_hum
''','''    ratio = Rd / Rv
    svp = a1 * np.exp(a3 * ((dewpoint - t0) / (dewpoint - a4)))
    return ratio * svp / (pressure - (1 - ratio) * svp)
''')],"C32 C30 C31"),
("cm",[(CM,'''    data["time"] = np.repeat(
        data["time"].isel(time=slice(None, None, 2)) + pd.Timedelta("4h30m"), repeats=2
    )

    return (data.isel(time=slice(0, None, 2)) + data.isel(time=slice(1, None, 2))) / 2
''','''    first = data.isel(time=slice(0, None, 2))
    times = first["time"] + pd.Timedelta(hours=4, minutes=30)
    first = first.assign_coords(time=times.values)
    second = data.isel(time=slice(1, None, 2)).assign_coords(time=times.values)
    return 0.5 * (first + second)
'''),(CM,'''    data["precip"] = np.maximum(data["precip"], 0) - np.minimum(data["evap"], 0)
    data["evap"] = np.abs(np.maximum(data["evap"], 0))
''','''    evap = data["evap"]
    data["precip"] = np.maximum(data["precip"], 0) + np.maximum(-evap, 0)
    data["evap"] = np.maximum(evap, 0)
''')],"C30 C31 C28"),
("iv",[(IV,'''    for var in expected_surface_vars:
        if set(data[var].dims) != {"latitude", "longitude"}:
            msg = (''','''    surface_dims = {"latitude", "longitude"}
    for var in expected_surface_vars:
        if surface_dims != set(data[var].dims):
            msg = ('''),(IV,'''        nans = data[var].isnull()
        if nans.any():
            msg = f"{np.sum(nans)} NaN values found in variable '{var}'"
''','''        n_missing = int(data[var].isnull().sum())
        if n_missing > 0:
            msg = f"{n_missing} NaN values found in variable '{var}'"
''')],"C34 C28"),
("ch",[(CH,'''    if not (data.min() >= range[0] and data.max() <= range[1]):
''','''    lowest, highest = range
    if data.min() < lowest or data.max() > highest:
'''),(CH,'''    spacing = np.diff(coord)
    if not spacing.min() == spacing.max():
''','''    spacing = np.diff(coord)
    if not np.all(spacing == spacing[0]):
''')],"C43"),
("xa",[(XA,'''    nc_slice = (
        (slice(None),) * left_slices
        + (slice(nc_shape, nc_shape + added_size),)
        + (slice(None),) * (right_slices)
    )
    nc_variable[nc_slice] = data_encoded.data
''','''    nc_slice = [slice(None)] * data.ndim
    nc_slice[left_slices] = slice(nc_shape, nc_shape + added_size)
    nc_variable[tuple(nc_slice)] = data_encoded.data
''')],"C28 C29"),
]
