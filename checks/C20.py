"""C20: a box region tags exactly the cells whose centre lies in the box, also across the antimeridian."""
import numpy as np
import xarray as xr

from engine.runner import Scenario


def coords(h, ny, nx):
    """any decreasing latitudes and increasing longitudes"""
    lat = h.array("lat", (ny,), -90, 90, nice=(-70, 70))
    lon = h.array("lon", (nx,), -180, 180, nice=(-175, 175))
    for k in range(1, ny):
        h.assume(lat[k] <= lat[k - 1] - 0.01)
    for k in range(1, nx):
        h.assume(lon[k] >= lon[k - 1] + 0.01)
    return lat, lon


def box(h):
    from wam2layers.config import BoundingBox
    w, e = h.real("west", -180, 180), h.real("east", -180, 180)
    s, n = h.real("south", -80, 80), h.real("north", -80, 80)
    h.assume(s < n)
    return BoundingBox(w, s, e, n)


def inside_lon(h, b, x):
    return h.ite(b.west <= b.east, h.land(b.west <= x, x <= b.east), h.lor(x >= b.west, x <= b.east))


def make(ny, nx):
    def fn(h):
        from wam2layers.tracking.shared import initialize_tagging_region
        lat, lon = coords(h, ny, nx)
        b = box(h)
        g = xr.Dataset(coords={"latitude": ("latitude", lat), "longitude": ("longitude", lon)})
        m = initialize_tagging_region(b, g["latitude"], g["longitude"])
        h.true("shape", tuple(m.shape) == (ny, nx))
        for j in range(ny):
            for i in range(nx):
                want = h.land(b.south <= lat[j], lat[j] <= b.north, inside_lon(h, b, lon[i]))
                h.eq(f"mask[{j},{i}]", m[j, i], h.ite(want, 1.0, 0.0))
        h.reach()
    return fn


SCENARIOS = [Scenario("any-grid", make(3, 4), "3x4 cells at any coordinates, any valid box"),
             Scenario("any-grid-8x12", make(8, 12), "8x12 cells at any coordinates, any valid box", thorough_only=True)]
ASSUMPTIONS = ["longitudes on -180..180 (as preprocessing gives them)"]
OUTSIDE = "larger grids (cells are decided one by one)"
