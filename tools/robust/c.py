exec(open('/tmp/rf/a.py').read().split("R=[")[0])
SM="utils/shapefile_mask.py"; TG="utils/tagging_region.py"; VI="analysis/visualization.py"; DL="download.py"
R=[
("sm-boxes",[(SM,'''    boxes = []
    for loc in da_loc:
        x = loc["longitude"].to_numpy()
        y = loc["latitude"].to_numpy()
        box = shapely.box(
            x - 0.5 * resolution.lon,
            y - 0.5 * resolution.lat,
            x + 0.5 * resolution.lon,
            y + 0.5 * resolution.lat,
        )
        boxes.append(box)
    return boxes
''','''    half_x, half_y = resolution.lon / 2, resolution.lat / 2

    def box(x, y):
        return shapely.box(x - half_x, y - half_y, x + half_x, y + half_y)

    return [
        box(float(loc["longitude"]), float(loc["latitude"])) for loc in da_loc
    ]
''')],"C22"),
("sm-weights",[(SM,'''    weights = []
    for box in boxes:
        weights.append(shapely.intersection(box, poly).area / box.area)

    subset_mask''','''    weights = [poly.intersection(box).area / box.area for box in boxes]

    subset_mask'''),(SM,'''        np.array(weights).reshape((subset["longitude"].size, subset["latitude"].size)),
        {"longitude": subset["longitude"], "latitude": subset["latitude"]},
    )
''','''        np.reshape(weights, (subset.sizes["longitude"], subset.sizes["latitude"])),
        coords={"longitude": subset["longitude"], "latitude": subset["latitude"]},
        dims=("longitude", "latitude"),
    )
''')],"C22"),
("sm-reindex",[(SM,'''    mask = subset_mask.interp(
        {"latitude": ds["latitude"].data, "longitude": ds["longitude"].data},
        method="nearest",
    )
''','''    mask = subset_mask.reindex(
        latitude=ds["latitude"].data, longitude=ds["longitude"].data
    )
''')],"C22"),
("sm-res",[(SM,'''    return Resolution(
        lat=abs(float(ds["latitude"].diff(dim="latitude", n=1).median())),
        lon=abs(float(ds["longitude"].diff(dim="longitude", n=1).median())),
    )
''','''    steps = {c: np.abs(np.diff(ds[c].values)) for c in ("latitude", "longitude")}
    return Resolution(
        lat=float(np.median(steps["latitude"])), lon=float(np.median(steps["longitude"]))
    )
''')],"C22"),
("io-retry2",[(IO,'''    for n in range(max_retries + 1):
        try:
            return xr.open_dataset(
                filename, engine="netcdf4", cache=False, use_cftime=True
            )
        except IndexError:
            if n == max_retries:
                raise
''','''    n = 0
    while True:
        try:
            ds = xr.open_dataset(
                filename, engine="netcdf4", cache=False, use_cftime=True
            )
            return ds
        except IndexError:
            if n >= max_retries:
                raise
'''),(IO,'''            logger.debug(msg)
            time.sleep(1e-3 * next_delay)
''','''            logger.debug(msg)
            time.sleep(next_delay / 1000)
            n += 1
''')],"C26 C17"),
("tg-point",[(TG,'''    longitude, latitude = np.meshgrid(longitude_r, latitude_r)

    # retrieve latitude and longitude from ceterpoint
    center_lat, center_lon = centerpoint

    # Set the square region of value 1 in the mask
    mask = (np.abs(latitude - center_lat) <= radius) & (
        np.abs(longitude - center_lon) <= radius
    )

    new_masks = np.where(mask == False, 0, 1)  # Replace True and False by 1 and 0's
''','''    longitude, latitude = np.meshgrid(longitude_r, latitude_r)

    # retrieve latitude and longitude from ceterpoint
    center_lat, center_lon = centerpoint
    new_masks = _square(latitude, longitude, center_lat, center_lon, radius).astype(int)
'''),(TG,'''def mask_around_point(''','''def _square(latitude, longitude, lat, lon, radius):
    rows = np.logical_and(latitude >= lat - radius, latitude <= lat + radius)
    columns = np.logical_and(longitude >= lon - radius, longitude <= lon + radius)
    return np.logical_and(rows, columns)


def mask_around_point(''')],"C33"),
("tg-track",[(TG,'''    # loop over times
    for t in range(len(centerpoints)):
        centerpoint = centerpoints[t]
        # retrieve latitude and longitude from ceterpoint
        center_lat, center_lon = centerpoint
''','''    for t, (center_lat, center_lon) in enumerate(centerpoints):
'''),(TG,'''        new_masks[t, ::] = np.where(
            mask == False, 0, 1
        )  # Replace True and False by 1 and 0's
''','''        new_masks[t] = mask.astype(float)
''')],"C33"),
("vi-input",[(VI,'''    input_files = []
    for date in dates:
        input_files.append(
            input_path(date, config.preprocessed_data_folder)
        )  # takes current directory but needs a better fix
''','''    folder = config.preprocessed_data_folder
    input_files = [input_path(date, folder) for date in dates]
'''),(VI,'''    if config.tracking_direction == "backward":
        subset = ds.precip.sel(time=slice(start, end))
    else:
        subset = ds.evap.sel(time=slice(start, end))
''','''    name = {"backward": "precip", "forward": "evap"}[config.tracking_direction]
    subset = ds[name].sel(time=slice(start, end))
'''),(VI,'''    input = (subset * region * seconds).sum("time").compute()
''','''    input = (seconds * (subset * region).sum(dim="time")).compute()
''')],"C48"),
("vi-region",[(VI,'''def _plot_input(config: Config, ax):''','''def _region(config: Config):
    """The tagging region on the grid of the data."""
    if isinstance(config.tagging_region, Path):
        return load_tagging_region(config)
    coords = load_data(config.tracking_end_date, config, "states").coords
    lat, lon = coords["latitude"], coords["longitude"]
    return xr.DataArray(
        initialize_tagging_region(config.tagging_region, lat, lon),
        coords=[("latitude", lat.values), ("longitude", lon.values)],
    )


def _plot_input(config: Config, ax):'''),(VI,'''    if isinstance(config.tagging_region, Path):
        region = load_tagging_region(config)

    else:
        t = config.tracking_end_date
        grid = load_data(t, config, "states").coords
        lat, lon = grid["latitude"], grid["longitude"]
        bbox = config.tagging_region
        region = xr.DataArray(
            initialize_tagging_region(bbox, lat, lon),
            coords={"latitude": lat, "longitude": lon},
            dims=["latitude", "longitude"],
        )
''','''    region = _region(config)
'''),(VI,'''    if isinstance(config.tagging_region, Path):
        region = load_tagging_region(config)
    else:
        t = config.tracking_end_date
        grid = load_data(t, config, "states").coords
        lat, lon = grid["latitude"], grid["longitude"]
        bbox = config.tagging_region
        region = xr.DataArray(
            initialize_tagging_region(bbox, lat, lon),
            coords={"latitude": lat, "longitude": lon},
            dims=["latitude", "longitude"],
        )
''','''    region = _region(config)
''')],"C48"),
("vi-output",[(VI,'''    if config.tracking_direction == "backward":
        output_files = [output_path(date, config) for date in dates[:-1]]
    else:
        output_files = [output_path(date, config) for date in dates[1:]]
''','''    backward = config.tracking_direction == "backward"
    chosen = dates[:-1] if backward else dates[1:]
    output_files = [output_path(date, config) for date in chosen]
'''),(VI,'''        out_track = ds.p_track_lower.sum("time") + ds.p_track_upper.sum("time")
''','''        out_track = (ds["p_track_lower"] + ds["p_track_upper"]).sum(dim="time")
''')],"C48"),
("bt-locals",[(BT,'''    # Short name for often used expressions
    s_track_relative_lower = np.minimum(s_track_lower / s_lower, 1.0)
    s_track_relative_upper = np.minimum(s_track_upper / s_upper, 1.0)
''','''    # Short name for often used expressions
    s_track_relative_lower = _share(s_track_lower, s_lower)
    s_track_relative_upper = _share(s_track_upper, s_upper)
    s_total = s_upper + s_lower
    tagged = tagging_mask * precip
'''),(BT,'''        + tagging_mask * precip * s_lower / (s_upper + s_lower)
''','''        + tagged * (s_lower / s_total)
'''),(BT,'''        + tagging_mask * precip * s_upper / (s_upper + s_lower)
''','''        + tagged * (s_upper / s_total)
'''),(BT,'''    output["tagged_precip"] += tagging_mask * precip * config.timestep
''','''    output["tagged_precip"] += config.timestep * tagged
'''),(BT,'''def backtrack(
''','''def _share(tracked, total):
    """Part of the moisture that is tracked, at most all of it."""
    return np.clip(tracked / total, None, 1.0)


def backtrack(
''')],"C49 C50 C51 C52 C03 C04 C05 C06"),
("bt-over",[(BT,'''    overshoot_lower = np.maximum(0, s_track_lower - S0["s_lower"])
    overshoot_upper = np.maximum(0, s_track_upper - S0["s_upper"])
    s_track_lower = s_track_lower - overshoot_lower + overshoot_upper
    s_track_upper = s_track_upper - overshoot_upper + overshoot_lower
''','''    room_lower, room_upper = S0["s_lower"], S0["s_upper"]
    overshoot_lower = (s_track_lower - room_lower).clip(min=0)
    overshoot_upper = (s_track_upper - room_upper).clip(min=0)
    exchange = overshoot_upper - overshoot_lower
    s_track_lower = s_track_lower + exchange
    s_track_upper = s_track_upper - exchange
''')],"C49 C50 C51 C52 C12"),
("ft-boundary",[(FT,'''    losses = np.where(boundary, (s_track_upper + s_track_lower), 0)
    s_track_upper = xr.where(boundary, 0, s_track_upper)
    s_track_lower = xr.where(boundary, 0, s_track_lower)
''','''    losses = np.zeros_like(s_track_upper)
    losses[boundary] = s_track_upper[boundary] + s_track_lower[boundary]
    s_track_upper = np.where(boundary, 0, s_track_upper)
    s_track_lower = np.where(boundary, 0, s_track_lower)
''')],"C49 C50 C51 C52 C03"),
("co-limit",[(CO,'''        fx_limit = 1 / 2 * fx_abs / ft_abs * s.values
        fx_stable = np.minimum(fx_abs, fx_limit)

        fy_limit = 1 / 2 * fy_abs / ft_abs * s.values
        fy_stable = np.minimum(fy_abs, fy_limit)
''','''        factor = 0.5 * s.values / ft_abs
        fx_stable = np.minimum(fx_abs, fx_abs * factor)
        fy_stable = np.minimum(fy_abs, fy_abs * factor)
''')],"C50 C51 C52 C08"),
("co-fz",[(CO,'''    fz = foo_lower - S1.s_lower / (S1.s_lower + S1.s_upper) * (foo_upper + foo_lower)
''','''    share_lower = S1.s_lower / (S1.s_lower + S1.s_upper)
    fz = (1 - share_lower) * foo_lower - share_lower * foo_upper
'''),(CO,'''    fz_stable = np.minimum(np.abs(fz), stab * flux_limit)

    # Reinstate the sign and convert accumulation back to flux
    return np.sign(fz) * fz_stable / dt
''','''    most = stab * flux_limit

    # Convert accumulation back to flux
    return np.maximum(-most, np.minimum(fz, most)) / dt
''')],"C50 C51 C52 C09"),
("co-adv",[(CO,'''    us = np.where(up > 0, up * sp[inner, west], up * sp[inner, east])  # [M, N+1]
    vs = np.where(vp > 0, vp * sp[south, inner], vp * sp[north, inner])  # [M+1, N]
''','''    us = np.maximum(up, 0) * sp[inner, west] + np.minimum(up, 0) * sp[inner, east]
    vs = np.maximum(vp, 0) * sp[south, inner] + np.minimum(vp, 0) * sp[north, inner]
''')],"C49 C50 C51 C52 C01 C02"),
("pu-bounds",[(PU,'''    ds["latitude_bnds"] = (
        ("latitude", "bnds"),
        np.array((lats - res_lat / 2, lats + res_lat / 2)).T,
    )
    ds["longitude_bnds"] = (
        ("longitude", "bnds"),
        np.array((lons - res_lon / 2, lons + res_lon / 2)).T,
    )
''','''    for name, centres, width in (
        ("latitude", lats, res_lat),
        ("longitude", lons, res_lon),
    ):
        edges = np.stack([centres - 0.5 * width, centres + 0.5 * width], axis=-1)
        ds[f"{name}_bnds"] = ((name, "bnds"), edges)
''')],"C53 C46"),
("ps-order",[(PS,'''        ds = shift_longitude(ds)
        add_bounds(ds)

        # Add attributes
        for var in PREPROCESSED_DATA_ATTRIBUTES:
            ds[var].attrs.update(PREPROCESSED_DATA_ATTRIBUTES[var])
        ds.attrs.update(input_data_attrs)
''','''        ds.attrs.update(input_data_attrs)
        ds = shift_longitude(ds)
        add_bounds(ds)

        # Add attributes
        for var, attributes in PREPROCESSED_DATA_ATTRIBUTES.items():
            ds[var].attrs.update(attributes)
'''),(PS,'''        is_new_day = i == 0
''','''        is_new_day = datetime == datetimes[0]
''')],"C53 C23 C24 C30"),
("ps-tcw",[(PS,'''            correction = surface_data["tcw"] / cwv.sum(dim="level")
            cw = correction * cwv  # column water (kg/m2)
''','''            total = cwv.sum(dim="level")
            correction = surface_data["tcw"] / total
            cw = cwv * correction  # column water (kg/m2)
''')],"C24 C53"),
("cf-dates",[(CF,'''            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M:%S")
''','''            jsondict[date] = getattr(self, date).isoformat()
''')],"C38"),
("io-fname",[(IO,'''    return f"{input_dir}/{date.strftime('%Y-%m-%d')}_fluxes_storages.nc"
''','''    return f"{input_dir}/{date.year:04d}-{date.month:02d}-{date.day:02d}_fluxes_storages.nc"
''')],"C17 C48 C18 C13"),
("dl-name",[(DL,'''        local_filename = url.split("/")[-1]
''','''        local_filename = url.rsplit("/", 1)[-1]
'''),(DL,'''        with open(local_path, "wb") as f:
            shutil.copyfileobj(r.raw, f)
''','''        with local_path.open("wb") as f:
            shutil.copyfileobj(r.raw, f)
''')],"C40"),
]
