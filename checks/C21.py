"""C21: a tracking domain keeps exactly the cells inside the box, with their data, in eastward order."""
import numpy as np
import xarray as xr

from engine.runner import Scenario

from .C20 import box, coords, inside_lon


def make(ny, nx, rolled, kind):
    def fn(h):
        from wam2layers.tracking.io import select_subdomain
        lat, lon = coords(h, ny, nx)
        b = box(h)
        h.assume(b.west > b.east if rolled else b.west < b.east)
        x = h.array("x", (ny, nx))
        ds = xr.Dataset({"x": (("latitude", "longitude"), x)},
                        coords={"latitude": ("latitude", lat), "longitude": ("longitude", lon)})
        if kind == "array":
            r = select_subdomain(ds["x"], str(b))
        else:
            r = select_subdomain(ds, str(b))["x"]
        rows = [j for j in range(ny) if h.land(b.south <= lat[j], lat[j] <= b.north)]
        cols = [i for i in range(nx) if inside_lon(h, b, lon[i])]
        r = r.transpose("latitude", "longitude")
        h.true("shape", r.shape == (len(rows), len(cols)))
        if r.shape != (len(rows), len(cols)) or not rows or not cols:
            h.reach()
            return
        glon, glat = r["longitude"].variable._data, r["latitude"].variable._data
        glon, glat = [getattr(v, "array", v) for v in (glon, glat)]
        if rolled:
            first = [k for k in cols if (k - 1) % nx not in cols]
            if first:
                start = cols.index(first[0])
            else:  # everything is inside: any start will do
                start = [k for k in cols if glon[0] == lon[k]][0]
            cols = cols[start:] + cols[:start]
        for k, i in enumerate(cols):
            h.eq(f"longitude {k}", glon[k], lon[i], tol=1e-9)
        for k, j in enumerate(rows):
            h.eq(f"latitude {k}", glat[k], lat[j], tol=1e-9)
        v = r.variable._data
        for p, j in enumerate(rows):
            for q, i in enumerate(cols):
                h.eq(f"data {p},{q}", v[p, q], x[j, i])
        h.reach()
    return fn


SCENARIOS = [Scenario(f"{'across' if r else 'plain'}-{k}-{ny}x{nx}", make(ny, nx, r, k), f"{ny}x{nx} cells at any "
                      "coordinates with any data, any valid box " + ("across the antimeridian" if r else "with west < east"),
                      thorough_only=t)
             for r in (False, True)
             for k, ny, nx, t in (("dataset", 2, 4, False), ("array", 2, 3, False), ("dataset", 3, 6, True))]
ASSUMPTIONS = ["longitudes increasing on -180..180, latitudes decreasing (as preprocessing gives them)"]
OUTSIDE = "larger grids; a box of no width (west equal to east)"
