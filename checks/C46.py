"""C46: an output file holds the fields as they are, under its own time stamp and name."""
import numpy as np
import xarray as xr

from engine.runner import Scenario

from .common import grid
from .files import DAY, get, scratch
from .runs import ACC, make_config

HOUR = 3600


def make(direction, calendar, ny=2, nx=3, dlat=2.0, dlon=2.0):
    def fn(h):
        from wam2layers.tracking.io import output_path, write_output
        freq, fs = h.choice("freq", [("1D", DAY), ("6h", 6 * HOUR), ("1h", HOUR)])
        lat, lon = grid(ny, nx, dlat, dlon)
        names = ["s_track_upper_restart", "s_track_lower_restart"] + ACC[direction]
        t1 = 60 * h.integer("t1", 0, 800 * 1440)
        t2 = 60 * h.integer("t2", 0, 800 * 1440)
        h.assume(t1 != t2)
        with scratch(h) as (tmp, vfs):
            cfg = make_config(h, direction, tmp, output_frequency=freq, calendar=calendar)
            sent = []
            again = h.choice("files", ["new", "first one written before"])
            for k, t in enumerate((t1, t2) if again == "new" else (t1, t1, t2)):
                f = {n: h.array(f"{n}{k}", (ny, nx), nice=(0, 9)) for n in names}
                out = xr.Dataset({n: (("latitude", "longitude"), v.copy()) for n, v in f.items()},
                                 coords={"latitude": lat, "longitude": lon})
                write_output(out, h.instant(t, calendar), cfg)
                sent.append((t, f))
                h.true(f"fields in memory keep their shape {k}",
                       all(out[n].dims == ("latitude", "longitude") for n in names))
                for n in names:
                    h.eq(f"{n} in memory {k}", out[n].variable._data, f[n], tol=1e-5)
            for k, (t, f) in enumerate(sent[-2:]):
                ds = get(h, vfs, output_path(h.instant(t, calendar), cfg))
                tt = ds["time"].variable._data
                tt = list(np.asarray(getattr(tt, "array", tt), dtype=object).ravel())
                h.true(f"one time {k}", len(tt) == 1)
                h.eq(f"time {k}", h.sec(tt[0]), t, tol=1e-9, scale=1e-3)
                tb = ds["time_bnds"].variable._data
                tb = [h.sec(x) for x in np.asarray(getattr(tb, "a", tb), dtype=object).ravel()]
                h.true(f"two time bounds {k}", len(tb) == 2)
                lo = t - fs if direction == "forward" else t
                h.eq(f"interval start {k}", h.min(tb[0], tb[1]), lo, tol=1e-9, scale=1e-3)
                h.eq(f"interval end {k}", h.max(tb[0], tb[1]), lo + fs, tol=1e-9, scale=1e-3)
                for n in names:
                    h.true(f"dimensions of {n} {k}", ds[n].dims == ("time", "latitude", "longitude"))
                    h.eq(f"{n} {k}", ds[n].variable._data[0], f[n], tol=1e-5)
                h.true(f"latitude {k}", bool(np.array_equal(ds["latitude"].values, lat)))
                h.true(f"longitude {k}", bool(np.array_equal(ds["longitude"].values, lon)))
                for c, x, r in (("latitude", lat, dlat), ("longitude", lon, dlon)):
                    b = np.sort(np.asarray(ds[c + "_bnds"].values, dtype=float), axis=1)
                    h.eq(f"{c} bounds {k}", b, np.stack([x - r / 2, x + r / 2], axis=1))
            h.reach()
    return fn


SCENARIOS = [Scenario(f"{d}-{c}", make(d, c, **kw), f"two files (or the first replaced) at any two different whole minutes of 800 days, any field "
                      f"values, {c} calendar, output every 1 h, 6 h, 1 day")
             for d, c, kw in (("backward", "standard", {}), ("forward", "noleap", dict(dlat=0.5, dlon=0.75)))]
ASSUMPTIONS = ["output times on whole minutes (file names have no seconds)", "a file spans one whole output interval",
               "storing as 32-bit float is read as exact"]
OUTSIDE = "the NetCDF library; attributes of the file; intervals cut short by the start or end of a run"
