"""C33: a square region around a point or along a track is exactly the cells within the radius."""
import sys
import types
from pathlib import Path

import numpy as np
import xarray as xr

from engine import timesym as T
from engine.runner import Scenario

from .files import DAY, get, put, scratch


def designer():
    """the module, with stand-ins for plotting and shapefile libraries that are not installed"""
    for name in ("cartopy", "cartopy.crs", "cartopy.feature", "geopandas", "regionmask"):
        try:
            __import__(name)
        except ImportError:
            m = sys.modules[name] = types.ModuleType(name)
            m.__path__ = []
            if "." in name:
                setattr(sys.modules["cartopy"], name.split(".")[1], m)
    from wam2layers.utils import tagging_region
    return tagging_region


def coords(h, ny, nx):
    lat = [h.real(f"lat[{j}]", -90, 90) for j in range(ny)]
    lon = [h.real(f"lon[{i}]", -180, 360) for i in range(nx)]
    for a in (lat, [-x for x in lon]):
        for p, q in zip(a, a[1:]):
            h.assume(p > q)
    arr = lambda a: h._arr(np.array(a, dtype=object if h.symbolic else float))
    return lat, lon, arr(lat), arr(lon)


def make(track, ny, nx, n=1):
    def fn(h):
        R = designer()
        lat, lon, la, lo = coords(h, ny, nx)
        r = h.real("radius", 0, 180)
        c = [(h.real(f"clat[{k}]", -90, 90), h.real(f"clon[{k}]", -180, 360)) for k in range(n)]
        with scratch(h) as (tmp, vfs):
            ref, out = Path(tmp) / "2000-01-01_fluxes_storages.nc", Path(tmp) / "region.nc"
            put(h, vfs, ref, xr.Dataset({"precip": (("latitude", "longitude"), np.zeros((ny, nx)))},
                                        coords={"latitude": la, "longitude": lo}))
            if track:
                times = np.array([f"2000-01-0{k + 1}" for k in range(n)], dtype="datetime64[ns]")
                R.mask_around_track(c, times, r, str(ref), str(out), False)
            else:
                R.mask_around_point(c[0], r, str(ref), str(out), False)
            ds = get(h, vfs, out)
            names = list(ds.data_vars)
            h.true("one variable", len(names) == 1)
            m = ds[names[0]]
            if track:
                h.true("times", bool((np.asarray(ds["time"].values).astype("datetime64[D]").astype(str) == times.astype("datetime64[D]").astype(str)).all())
                       if np.asarray(ds["time"].values).dtype.kind == "M" else [t.strftime("%Y-%m-%d") for t in ds["time"].values] == [str(t)[:10] for t in times])
            m = m.transpose(*((("time",) if track else ()) + ("latitude", "longitude"))).variable._data
            for n_, a, b in (("latitude", ds["latitude"].variable, lat), ("longitude", ds["longitude"].variable, lon)):
                v = a._data if h.symbolic else a.values
                for k, x in enumerate(b):
                    h.eq(f"{n_}[{k}]", v[k], x)
            for k in range(n):
                for j in range(ny):
                    for i in range(nx):
                        inside = h.land(h.abs(lat[j] - c[k][0]) <= r, h.abs(lon[i] - c[k][1]) <= r)
                        h.eq(f"mask[{k},{j},{i}]", m[k, j, i] if track else m[j, i], h.ite(inside, 1.0, 0.0))
        h.reach()
    return fn


B = "cells at arbitrary coordinates, any centre and radius"
SCENARIOS = [Scenario("point", make(False, 3, 4), "3x4 " + B), Scenario("track", make(True, 2, 3, 3), "3 times, 2x3 " + B)]
ASSUMPTIONS = []
OUTSIDE = "regions from the regionmask and geopandas libraries (not installed); plots; radii across the edge of the longitudes"
