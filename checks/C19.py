"""C19: a region given as a file tags with the file's values, a changing one with those nearest in time."""
from pathlib import Path

import numpy as np
import xarray as xr

from engine.runner import Scenario

from .common import grid
from .files import DAY, put, scratch
from .runs import NX, NY, recorded_run

TIMES = [5 * DAY, 6 * DAY, 6 * DAY + 21600]  # irregular


def make(direction, K, changing, calendar="standard", domain=None):
    def fn(h):
        lat, lon = grid(NY, NX)
        RY, RX, oy = NY, NX, 0  # rows and columns of the region file, row of the first one in the domain
        dt = h.integer("timestep", 60, 2 * DAY)
        start = h.integer("start", 4 * DAY, 9 * DAY)
        n = h.choice("steps", list(range(1, K + 1)))
        end = start + n * dt
        ts = h.integer("tag_start", 3 * DAY, 10 * DAY)
        te = h.integer("tag_end", 3 * DAY, 10 * DAY)
        h.assume(ts <= te)
        times = TIMES if changing else [None]
        kw = {}
        rlat, rlon, cols = lat, lon, list(range(NX))
        if domain is not None:
            from wam2layers.config import BoundingBox
            RY, RX = NY + 2, NX + 2
            rlat = np.array([lat[0] + 2.0 * (1 - k) for k in range(RY)])
            south, north = h.real("south", -80, 80, nice=(lat[-1] - 1, lat[-1])), h.real("north", -80, 80, nice=(lat[0], lat[0] + 1))
            h.assume(h.land(rlat[-2] >= south, south > rlat[-1], rlat[0] > north, north >= rlat[1]))
            if domain == "plain":
                rlon, cols = np.array([lon[0] + 2.0 * (k - 1) for k in range(RX)]), [1, 2, 3]
                west, east = h.real("west", -180, 180, nice=(lon[0] - 1, lon[0])), h.real("east", -180, 180, nice=(lon[-1], lon[-1] + 1))
                h.assume(h.land(rlon[0] < west, west <= rlon[1], rlon[3] <= east, east < rlon[4]))
            else:  # around the globe in 5 columns; the domain runs over the edge of the file
                rlon, cols = np.array([-180.0, -108.0, -36.0, 36.0, 108.0]), [4, 0, 1]
                west, east = h.real("west", -180, 180, nice=(90, 100)), h.real("east", -180, 180, nice=(-100, -90))
                h.assume(h.land(rlon[3] < west, west <= rlon[4], rlon[1] <= east, east < rlon[2]))
            kw["tracking_domain"] = BoundingBox(west, south, east, north)
            oy = 1
        val = {t: h.array(f"region{t}", (RY, RX), lo=0, hi=1) for t in times}
        if changing:
            a = np.empty((len(times), RY, RX), dtype=object if h.symbolic else float)
            for k, t in enumerate(times):
                for j, i in np.ndindex(RY, RX):
                    a[k, j, i] = val[t][j, i]
            tt = np.empty(len(times), dtype=object)
            from engine import timesym as T
            tt[:] = [T.real_time(t, calendar) for t in times]
            region = xr.DataArray(h._arr(a), dims=("time", "latitude", "longitude"), name="tagging_region",
                                  coords={"time": tt, "latitude": rlat, "longitude": rlon})
        else:
            region = xr.DataArray(val[None].copy(), dims=("latitude", "longitude"), name="tagging_region",
                                  coords={"latitude": rlat, "longitude": rlon})
        with scratch(h) as (folder, vfs):
            path = Path(folder) / "region.nc"
            put(h, vfs, path, region.to_dataset())
            I = lambda s: h.instant(s, calendar)
            with recorded_run(h, direction, timestep=dt, output_frequency="1D", calendar=calendar, tagging_region=path,
                              tracking_start_date=I(start), tracking_end_date=I(end),
                              tagging_start_date=I(ts), tagging_end_date=I(te), **kw) as run:
                rec = run()
        h.true("all steps", len(rec.steps) == n)
        for k, s in enumerate(rec.steps):
            ref = end - k * dt if direction == "backward" else start + k * dt
            active = h.land(ts <= ref, ref <= te)
            m = s["mask"]
            if hasattr(m, "transpose"):
                m = m.transpose("latitude", "longitude")
                m = m.variable._data if h.symbolic else m.values
            for j, i in np.ndindex(NY, NX):
                x = m[j, i] if np.ndim(m) else m
                J, I_ = j + oy, cols[i]
                if not changing:
                    h.eq(f"step {k} cell [{j},{i}]", x, h.ite(active, val[None][J, I_], 0.0), tol=1e-6)
                    continue
                # the value is that of a nearest time
                ok = h.lor(*[h.land(*[h.abs(ref - t) <= h.abs(ref - u) for u in times if u != t],
                                    x == val[t][J, I_] if h.symbolic else abs(x - val[t][J, I_]) < 1e-6) for t in times])
                h.true(f"step {k} cell [{j},{i}]", h.lor(h.land(active, ok), h.land(h.lnot(active), x == 0)))
        h.reach()
    return fn


SCENARIOS = [Scenario(f"{d}-{'changing' if c else 'constant'}-{cal}", make(d, 2, c, cal),
                      "up to 2 steps, any window, timestep, tagging period and region values")
             for d, c, cal in (("backward", True, "standard"), ("forward", True, "noleap"),
                               ("backward", False, "standard"), ("forward", False, "standard"))] + \
            [Scenario(f"{d}-{dom}-domain", make(d, 1, c, "standard", dom), "1 step, the region limited to any tracking domain")
             for d, c, dom in (("backward", False, "plain"), ("forward", False, "rolled"), ("forward", True, "rolled"))] + \
            [Scenario(f"{d}-changing-deep", make(d, 3, True), "up to 3 steps", thorough_only=True)
             for d in ("backward", "forward")]
ASSUMPTIONS = ["whole seconds", "the region is on the grid of the data before the tracking domain is cut out"]
OUTSIDE = "regions given as shapefiles (rasterised by libraries); files with other times than the three irregular ones"
