"""C53: cell bounds stored with preprocessed data and results are the edges of the cells."""
import numpy as np
import xarray as xr

from engine.runner import Scenario

from .files import get, scratch
from .prep import dataset, fields, run_preprocess
from .runs import ACC, make_config


def axes(h, ny, nx):
    """any regular grid, in -180..180 or across the antimeridian, latitudes going either way"""
    d = h.real("dlat", 0.01, 20, nice=(0.1, 10))
    top = h.real("lat0", -90, 90, nice=(-60, 80))
    lat = [top - k * d for k in range(ny)]
    h.assume(lat[-1] >= -90)
    if h.choice("latitudes", ["north to south", "south to north"]) == "south to north":
        lat = lat[::-1]
    dl = h.real("dlon", 0.01, 60, nice=(0.1, 10))
    l0 = h.real("lon0", -180, 180, nice=(-170, 170))
    lon = [l0 + k * dl for k in range(nx)]
    h.assume(lon[-1] < l0 + 360)
    east = h.choice("columns west of the antimeridian", list(range(1, nx + 1)))
    h.assume(lon[east - 1] <= 180)
    if east < nx:
        h.assume(lon[east] >= 180)
        lon = lon[:east] + [x - 360 for x in lon[east:]]
    arr = lambda xs: h._arr(np.array(xs, dtype=object)) if h.symbolic else np.array(xs, dtype=float)
    return arr(lat), arr(lon), d, dl


def raw(v):
    v = v.variable._data
    return getattr(v, "array", v)


def bounds(h, ds, tag, lat, lon, d, dl):
    for name, x, r in (("latitude", lat, d), ("longitude", lon, dl)):
        v = ds[name + "_bnds"]
        h.true(f"{tag}{name} bounds: dimensions", set(v.dims) == {name, "bnds"} and v.sizes[name] == len(x) and v.sizes["bnds"] == 2)
        b = raw(v.transpose(name, "bnds"))
        for k in range(len(x)):
            h.eq(f"{tag}{name} {k} lower bound", h.min(b[k, 0], b[k, 1]), x[k] - r / 2, tol=1e-6)
            h.eq(f"{tag}{name} {k} upper bound", h.max(b[k, 0], b[k, 1]), x[k] + r / 2, tol=1e-6)


def direct(ny, nx):
    def fn(h):
        from wam2layers.preprocessing.utils import add_bounds
        lat, lon, d, dl = axes(h, ny, nx)
        x = h.array("x", (ny, nx))
        ds = xr.Dataset({"x": (("latitude", "longitude"), x.copy())},
                        coords={"latitude": ("latitude", lat.copy()), "longitude": ("longitude", lon.copy())})
        add_bounds(ds)
        bounds(h, ds, "", lat, lon, d, dl)
        for name, v in (("latitude", lat), ("longitude", lon)):
            for k in range(len(v)):
                h.eq(f"{name} {k} kept", raw(ds[name])[k], v[k], tol=1e-9)
        h.eq("data kept", raw(ds["x"]), x)
        h.reach()
    return fn


LON = {"0 to 360": (0.0, 90.0, 4), "across 180": (177.0, 1.5, 4), "below zero": (-3.0, 1.0, 4), "plain": (10.0, 0.25, 4),
       "three across 180": (179.0, 1.0, 3)}


def expect(l0, dl, nx):
    lon = l0 + dl * np.arange(nx)
    if (lon > 180).any() or (lon < 0).any():
        w = (lon + 180) % 360 - 180
        o = np.argsort(w)
        return lon, w[o], o
    return lon, lon, np.arange(nx)


def preprocessed(h):
    l0, dl, nx = LON[h.choice("longitudes", list(LON))]
    lon, want, order = expect(l0, dl, nx)
    lat = np.array([42.0, 41.5, 41.0])
    f = fields(h, 2, 3, nx, [1, 2])
    f["dp"] = h.array("dp", (2, 3, nx), 100, 40000, nice=(100, 40000))
    with scratch(h) as (tmp, vfs):
        ds = run_preprocess(h, tmp, vfs, dataset(f, [1, 2], lat, lon), level_type="model_levels", levels=[1, 2], level_layer_boundary=1)
        bounds(h, ds, "", lat, want, 0.5, dl)
        for n in ("evap", "precip"):
            r = raw(ds[n].transpose("time", "latitude", "longitude"))
            for j in range(3):
                for q, i in enumerate(order):
                    h.eq(f"{n} {j},{q}", r[0, j, q], f[n][j, i], tol=1e-6)
    h.reach()


def output(direction):
    def fn(h):
        from wam2layers.tracking.io import output_path, write_output
        name = h.choice("longitudes", list(LON))
        l0, dl, nx = LON[name]
        lon = (l0 + dl * np.arange(nx) + 180) % 360 - 180 if "across" in name else l0 + dl * np.arange(nx) - (180 if l0 == 0 else 0)
        lat = np.array([42.0, 41.5, 41.0])
        names = ["s_track_upper_restart", "s_track_lower_restart"] + ACC[direction]
        t = 3600 * h.integer("hour", 0, 1000)
        with scratch(h) as (tmp, vfs):
            cfg = make_config(h, direction, tmp, output_frequency="1h")
            f = {n: h.array(n, (3, nx), nice=(0, 9)) for n in names}
            ds = xr.Dataset({n: (("latitude", "longitude"), v.copy()) for n, v in f.items()}, coords={"latitude": lat, "longitude": lon})
            write_output(ds, h.instant(t, "standard"), cfg)
            r = get(h, vfs, output_path(h.instant(t, "standard"), cfg))
            bounds(h, r, "", lat, lon, 0.5, dl)
            for n in names:
                h.eq(n, raw(r[n].transpose("time", "latitude", "longitude"))[0], f[n], tol=1e-5)
        h.reach()
    return fn


SCENARIOS = [Scenario("grid-3x3", direct(3, 3), "3x3 cells, any regular spacing and position, also across the antimeridian"),
             Scenario("grid-4x5", direct(4, 5), "4x5 cells, any regular spacing and position, also across the antimeridian"),
             Scenario("grid-6x9", direct(6, 9), "6x9 cells, as above", thorough_only=True),
             Scenario("preprocessed", preprocessed, "one instant of 3x4 or 3x3 cells, any fields, five ranges of longitude"),
             Scenario("backward", output("backward"), "one output file of 3x4 cells, any fields, five ranges of longitude"),
             Scenario("forward", output("forward"), "one output file of 3x4 cells, any fields, five ranges of longitude")]
ASSUMPTIONS = ["machine floats are read as real numbers", "regular grids"]
OUTSIDE = "the NetCDF library; grids that are not regular"
