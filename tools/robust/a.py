BT="tracking/backtrack.py"; FT="tracking/forwardtrack.py"; CO="tracking/core.py"; IO="tracking/io.py"; SH="tracking/shared.py"
G="utils/grid.py"; PR="utils/profiling.py"; CA="utils/calendar.py"; CF="config.py"; PS="preprocessing/shared.py"; PL="preprocessing/pressure_levels.py"
PU="preprocessing/utils.py"; E5="preprocessing/era5.py"; AR="preprocessing/arco.py"; CM="preprocessing/cmip.py"; XA="preprocessing/xarray_append.py"; IV="preprocessing/input_validation.py"; CH="analysis/checks.py"
STEP="C03 C04 C05 C06 C07 C10 C47"
RUN="C12 C13 C14 C15 C16 C18 C47 C41"
PRE="C25 C27 C28 C29 C30 C31"
R=[
("bt-helper",[(BT,'''    # Remove boundary transport from s_track and bookkeep losses
    boundary = get_boundary(s_track_upper, periodic=config.periodic_boundary)
    losses = np.where(boundary, (s_track_upper + s_track_lower), 0)
    s_track_upper = xr.where(boundary, 0, s_track_upper)
    s_track_lower = xr.where(boundary, 0, s_track_lower)
''','''    s_track_upper, s_track_lower, losses = _drop_boundary(
        s_track_upper, s_track_lower, config.periodic_boundary
    )
'''),(BT,'''def initialize(config_file''','''def _drop_boundary(upper, lower, periodic):
    rim = get_boundary(upper, periodic=periodic)
    lost = rim * (upper + lower)
    return np.where(rim, 0.0, upper), np.where(rim, 0.0, lower), lost


def initialize(config_file''')],STEP),
("bt-clip",[(BT,'''    s_track_lower = np.maximum(s_track_lower, 0)
    s_track_upper = np.maximum(s_track_upper, 0)
''','''    s_track_lower = np.clip(s_track_lower, 0, None)
    s_track_upper = np.clip(s_track_upper, 0, None)
'''),(BT,'''    gains_lower = np.where(s_track_lower < 0, -s_track_lower, 0)
    gains_upper = np.where(s_track_upper < 0, -s_track_upper, 0)
''','''    gains_lower = np.maximum(-s_track_lower, 0)
    gains_upper = -np.minimum(s_track_upper, 0)
''')],STEP),
("bt-loop",[(BT,'''    overshoot_lower = np.maximum(0, s_track_lower - S0["s_lower"])
    overshoot_upper = np.maximum(0, s_track_upper - S0["s_upper"])
    s_track_lower = s_track_lower - overshoot_lower + overshoot_upper
    s_track_upper = s_track_upper - overshoot_upper + overshoot_lower
''','''    capacity = {"upper": S0["s_upper"].values, "lower": S0["s_lower"].values}
    track = {"upper": s_track_upper, "lower": s_track_lower}
    over = {}
    for layer, content in track.items():
        over[layer] = (content - capacity[layer]).clip(min=0)
    s_track_lower = track["lower"] + (over["upper"] - over["lower"])
    s_track_upper = track["upper"] + (over["lower"] - over["upper"])
'''),(BT,'''    losses_lower = np.maximum(0, s_track_lower - S0["s_lower"])
    losses_upper = np.maximum(0, s_track_upper - S0["s_upper"])
    losses += losses_lower + losses_upper
    s_track_lower = np.minimum(s_track_lower, S0["s_lower"])
    s_track_upper = np.minimum(s_track_upper, S0["s_upper"])
''','''    kept_lower = np.minimum(s_track_lower, capacity["lower"])
    kept_upper = np.minimum(s_track_upper, capacity["upper"])
    losses = losses + (s_track_lower - kept_lower) + (s_track_upper - kept_upper)
    s_track_lower, s_track_upper = kept_lower, kept_upper
''')],STEP),
("bt-tend",[(BT,'''    s_track_lower += config.timestep * (
        +horizontal''','''    exchange = vertical_advection(
        -f_vert, s_track_relative_lower, s_track_relative_upper
    ) + vertical_dispersion(
        -f_vert, s_track_relative_lower, s_track_relative_upper, config.kvf
    )
    dt = config.timestep
    area = a.reshape(-1, 1)
    inflow_lower = horizontal_advection(
        s_track_relative_lower, -fx_lower, -fy_lower, periodic_x=bc
    )
    inflow_upper = horizontal_advection(
        s_track_relative_upper, -fx_upper, -fy_upper, periodic_x=bc
    )
    tagged = tagging_mask * precip / (s_upper + s_lower)
    s_track_lower = s_track_lower + dt * (
        inflow_lower / area
        + exchange
        + tagged * s_lower
        - evap * s_track_relative_lower
    )
    s_track_upper = s_track_upper + dt * (
        inflow_upper / area - exchange + tagged * s_upper
    )
    unused = lambda: (
        +horizontal'''),(BT,'''    s_track_upper += config.timestep * (
        +horizontal''','''    unused = lambda: (
        +horizontal''')],STEP),
("ft-outputs",[(FT,'''    output["tagged_evap"] += region * evap * config.timestep
    output["p_track_lower"] += precip_lower * s_track_relative_lower * config.timestep
    output["p_track_upper"] += precip_upper * s_track_relative_upper * config.timestep
    output["s_track_lower_restart"].values = s_track_lower
    output["s_track_upper_restart"].values = s_track_upper
    output["losses"] += losses
    output["gains"] += gains
''','''    increments = {
        "tagged_evap": region * evap * config.timestep,
        "p_track_lower": precip_lower * s_track_relative_lower * config.timestep,
        "p_track_upper": precip_upper * s_track_relative_upper * config.timestep,
        "losses": losses,
        "gains": gains,
    }
    for name, increment in increments.items():
        output[name] = output[name] + increment
    for name, state in (("upper", s_track_upper), ("lower", s_track_lower)):
        output[f"s_track_{name}_restart"].values = state
''')],STEP),
("ft-rel",[(FT,'''    s_track_relative_lower = np.minimum(s_track_lower / s_lower, 1.0)
    s_track_relative_upper = np.minimum(s_track_upper / s_upper, 1.0)
''','''    def fraction(tracked, total):
        ratio = tracked / total
        return np.where(ratio > 1.0, 1.0, ratio)

    s_track_relative_lower = fraction(s_track_lower, s_lower)
    s_track_relative_upper = fraction(s_track_upper, s_upper)
'''),(FT,'''    precip_lower = precip * s_lower / (s_upper + s_lower)
    precip_upper = precip * s_upper / (s_upper + s_lower)
''','''    s_total = s_upper + s_lower
    precip_lower = precip * (s_lower / s_total)
    precip_upper = precip * (s_upper / s_total)
''')],STEP),
("adv-pad",[(CO,'''    us = np.where(up > 0, up * sp[inner, west], up * sp[inner, east])  # [M, N+1]
    vs = np.where(vp > 0, vp * sp[south, inner], vp * sp[north, inner])  # [M+1, N]

    # Combine advection from all surrounding cells into one
    adv_x = us[:, west] - us[:, east]  # [M, N]
    adv_y = vs[south, :] - vs[north, :]  # [M, N]
''','''    us = np.maximum(up, 0) * sp[inner, west] + np.minimum(up, 0) * sp[inner, east]
    vs = np.maximum(vp, 0) * sp[south, inner] + np.minimum(vp, 0) * sp[north, inner]

    adv_x = -np.diff(us, axis=1)
    adv_y = np.diff(vs, axis=0)
''')],"C01 C02 C11"),
("adv-loop",[(CO,'''    # Combine advection from all surrounding cells into one
    adv_x = us[:, west] - us[:, east]  # [M, N]
    adv_y = vs[south, :] - vs[north, :]  # [M, N]

    return adv_x + adv_y  # [M, N]
''','''    tendency = np.zeros_like(s)
    nrows, ncols = s.shape
    for j in range(nrows):
        for i in range(ncols):
            tendency[j, i] = us[j, i] - us[j, i + 1] + vs[j + 1, i] - vs[j, i]
    return tendency
''')],"C01 C02 C11"),
("adv-concat",[(CO,'''        sp = pad_xy_zero(s)  # [M, N] -> [M+2, N+2]
        up = pad_xy_zero(u)  # [M-2, N-1] -> [M, N+1]
        vp = pad_xy_zero(v)  # [M-1, N-2] -> [M+1, N]
''','''        sp = np.zeros((s.shape[0] + 2, s.shape[1] + 2))
        sp[1:-1, 1:-1] = s
        zero_row = np.zeros((1, u.shape[1]))
        up = np.concatenate([zero_row, u, zero_row], axis=0)
        up = np.hstack([np.zeros((up.shape[0], 1)), up, np.zeros((up.shape[0], 1))])
        vp = np.pad(v, ((1, 1), (1, 1)))
''')],"C01 C02"),
("stab-helper",[(CO,'''        # TODO: make 1/2 configurable?
        fx_limit = 1 / 2 * fx_abs / ft_abs * s.values
        fx_stable = np.minimum(fx_abs, fx_limit)

        fy_limit = 1 / 2 * fy_abs / ft_abs * s.values
        fy_stable = np.minimum(fy_abs, fy_limit)
''','''        half = 0.5 * s.values / ft_abs
        fx_stable = np.minimum(fx_abs, half * fx_abs)
        fy_stable = np.minimum(fy_abs, half * fy_abs)
''')],"C08 C47"),
("stab-where",[(CO,'''        # Get rid of any nan values
        fx_stable = fx_stable.fillna(0)
        fy_stable = fy_stable.fillna(0)

        # Re-instate the sign and convert back to flux instead of accumulation
        F["fx_" + level] = np.sign(fx) * fx_stable / config.timestep
        F["fy_" + level] = np.sign(fy) * fy_stable / config.timestep
''','''        for name, flux, stable in (("fx_", fx, fx_stable), ("fy_", fy, fy_stable)):
            stable = stable.where(stable.notnull(), 0)
            F[name + level] = xr.where(flux < 0, -stable, stable) / config.timestep
'''),(CO,"import numpy as np\n","import numpy as np\nimport xarray as xr\n")],"C08"),
("fz-where",[(CO,'''    fz_stable = np.minimum(np.abs(fz), stab * flux_limit)

    # Reinstate the sign and convert accumulation back to flux
    return np.sign(fz) * fz_stable / dt''','''    limit = stab * flux_limit
    return np.clip(fz, -limit, limit) / dt''')],"C09"),
("fz-total",[(CO,'''    fz = foo_lower - S1.s_lower / (S1.s_lower + S1.s_upper) * (foo_upper + foo_lower)
''','''    total = S1.s_upper + S1.s_lower
    fz = (foo_lower * S1.s_upper - foo_upper * S1.s_lower) / total
''')],"C09"),
("grid-area",[(G,'''    a = (
        np.pi
        / 180.0
        * erad**2
        * dx_deg
        * abs(np.sin(lat_s * np.pi / 180.0) - np.sin(lat_n * np.pi / 180.0))
    )
''','''    band = np.sin(np.deg2rad(lat_n)) - np.sin(np.deg2rad(lat_s))
    a = np.deg2rad(dx_deg) * erad**2 * np.abs(band)
''')],"C44 C03 C09"),
("grid-dx",[(G,'''    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dy_deg / 2) * np.pi / 180)
    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dy_deg / 2) * np.pi / 180)
    dx = 0.5 * (dx_n_gridcell + dx_s_gridcell)  # [m] grid spacing in zonal direction
    return a, dy, dx[:, None]
''','''    edges = [np.cos(np.radians(latitude + sign * dy_deg / 2)) for sign in (1, -1)]
    dx = dx_deg * dg * sum(edges) / 2
    return a, dy, dx.reshape(-1, 1)
''')],"C44 C47"),
("stagger",[(G,'''    ny, nx = fx.shape
    fx_new = np.zeros((ny, nx + 1))
    fx_new[:, 1:-1] = 0.5 * (fx[:, :-1] + fx[:, 1:])
    fx_new[:, 0] = 0.5 * (fx[:, 0] + fx[:, -1])
    fx_new[:, -1] = 0.5 * (fx[:, 0] + fx[:, -1])
    return fx_new[1:-1, :]
''','''    wrapped = np.concatenate([fx[:, -1:], fx, fx[:, :1]], axis=1)
    faces = 0.5 * (wrapped[:, :-1] + wrapped[:, 1:])
    return faces[1:-1]
''')],"C45 C11"),
("stagger-roll",[(G,'''    ny, nx = fx.shape
    fx_new = np.zeros((ny, nx + 1))
    fx_new[:, 1:-1] = 0.5 * (fx[:, :-1] + fx[:, 1:])
    fx_new[:, 0] = 0.5 * (fx[:, 0] + fx[:, -1])
    fx_new[:, -1] = 0.5 * (fx[:, 0] + fx[:, -1])
    return fx_new[1:-1, :]
''','''    west = (fx + np.roll(fx, 1, axis=1)) / 2
    fx_new = np.append(west, west[:, [0]], axis=1)
    return fx_new[1:-1, :]
''')],"C45 C11"),
("boundary",[(G,'''    boundary = np.ones_like(field, dtype=bool)
    # Mask interior
    if periodic:
        boundary[1:-1, :] = 0
    else:
        boundary[1:-1, 1:-1] = 0

    return boundary
''','''    boundary = np.zeros(field.shape, dtype=bool)
    boundary[[0, -1], :] = True
    if not periodic:
        boundary[:, [0, -1]] = True
    return boundary
''')],"C45 C04"),
("shared-time",[(SH,'''    if direction == "forward":
        t0 = config.tracking_start_date
        th = t0 + dt / 2  # th is "half" time, i.e. between t0 and t1
        t1 = t0 + dt
    elif direction == "backward":
        t1 = config.tracking_end_date
        th = t1 - dt / 2  # th is "half" time, i.e. between t0 and t1
        t0 = t1 - dt
    else:
        raise ValueError("Direction should be forward or backward")

    return t0, th, t1, dt
''','''    if direction not in ("forward", "backward"):
        raise ValueError("Direction should be forward or backward")
    if direction == "backward":
        t0 = config.tracking_end_date - dt
    else:
        t0 = config.tracking_start_date
    half = dt / 2
    th = t0 + half
    t1 = th + half

    return t0, th, t1, dt
''')],RUN),
("shared-bbox",[(SH,'''    rolled_domain = bbox.west > bbox.east
    lon_in_bbox = rolled_lon_in_bbox if rolled_domain else unrolled_lon_in_bbox
    tagging_region = xr.where((lat_in_bbox & lon_in_bbox), 1, 0).values
    return tagging_region
''','''    if bbox.east < bbox.west:
        lon_in_bbox = rolled_lon_in_bbox
    else:
        lon_in_bbox = unrolled_lon_in_bbox
    return (lat_in_bbox & lon_in_bbox).astype(int).values
''')],"C20 C12 C18"),
("run-loop",[(BT,'''        a, dy, dx = get_grid_info(F)
        for level in ["upper", "lower"]:
            F["fx_" + level] *= dy
            F["fy_" + level] *= dx
''','''        _integrate_over_sides(F)
'''),(BT,'''def run_experiment(''','''def _integrate_over_sides(fluxes):
    _, dy, dx = get_grid_info(fluxes)
    for component, length in (("fx", dy), ("fy", dx)):
        for level in ("upper", "lower"):
            name = f"{component}_{level}"
            fluxes[name] = fluxes[name] * length


def run_experiment(''')],RUN),
("run-tag",[(BT,'''        tagging_mask = 0
        if config.tagging_start_date <= t1 <= config.tagging_end_date:
            if tagging_region_stationary:
                tagging_mask = tagging_region
            else:
                tagging_mask = load_tagging_region(config, t=t1)
''','''        if not config.tagging_start_date <= t1 <= config.tagging_end_date:
            tagging_mask = 0
        elif tagging_region_stationary:
            tagging_mask = tagging_region
        else:
            tagging_mask = load_tagging_region(config, t=t1)
'''),(BT,'''            output[["e_track", "tagged_precip", "losses", "gains"]] *= 0
''','''            for name in ("e_track", "tagged_precip", "losses", "gains"):
                output[name] = output[name] * 0
''')],RUN+" C19"),
("run-flush",[(BT,'''            output[["e_track", "tagged_precip", "losses", "gains"]] *= 0
''','''            for name in ("e_track", "tagged_precip", "losses", "gains"):
                output[name].values[:] = 0
'''),(BT,'''        is_output_time = t1 == round_cftime(t1, config.output_frequency, "floor")
        is_final_step = t0 < config.tracking_start_date
        if is_output_time or is_final_step:
''','''        finished = t0 < config.tracking_start_date
        if finished or round_cftime(t1, config.output_frequency, "floor") == t1:
''')],RUN),
("run-reuse",[(BT,'''    while t0 >= cftime_from_timestamp(config.tracking_start_date, config.calendar):
        S0 = load_data(t0, config, "states")
        F = load_data(th, config, "fluxes")
        S1 = load_data(t1, config, "states")
''','''    S1 = load_data(t1, config, "states")
    while t0 >= config.tracking_start_date:
        S0 = load_data(t0, config, "states")
        F = load_data(th, config, "fluxes")
'''),(BT,'''        t1 -= dt
        th -= dt
        t0 -= dt
''','''        S1 = S0
        t0, th, t1 = t0 - dt, th - dt, t1 - dt
''')],RUN),
("run-counter",[(FT,'''        t1 += dt
        th += dt
        t0 += dt
''','''        t0, th, t1 = t1, th + dt, t1 + dt
''')],RUN),
("init-out",[(BT,'''    output = xr.Dataset(
        {
            # Keep last state for a restart
            "s_track_upper_restart": xr.DataArray(0, coords=grid).astype("float32"),
            "s_track_lower_restart": xr.DataArray(0, coords=grid).astype("float32"),
            "e_track": xr.DataArray(0, coords=grid).astype("float32"),
            "tagged_precip": xr.DataArray(0, coords=grid).astype("float32"),
            "losses": xr.DataArray(0, coords=grid).astype("float32"),
            "gains": xr.DataArray(0, coords=grid).astype("float32"),
        }
    )
''','''    names = (
        "s_track_upper_restart",
        "s_track_lower_restart",
        "e_track",
        "tagged_precip",
        "losses",
        "gains",
    )
    output = xr.Dataset(
        {name: xr.DataArray(0, coords=grid).astype("float32") for name in names}
    )
'''),(BT,'''        ds = xr.open_dataset(output_path(date, config)).isel(time=0)
        output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
        output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
''','''        previous = xr.open_dataset(output_path(date, config)).squeeze("time")
        for name in ("s_track_upper_restart", "s_track_lower_restart"):
            output[name].values = previous[name].values
''')],RUN),
]
