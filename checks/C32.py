"""C32: longitudes are brought to -180..180 and sorted, each column keeping its data."""
import xarray as xr

from engine.runner import Scenario


def make(nx, ny=2):
    def fn(h):
        from wam2layers.preprocessing.shared import shift_longitude
        lon = h.array("lon", (nx,), -180, 360, nice=(-179, 359))
        for k in range(1, nx):
            h.assume(lon[k] >= lon[k - 1] + 0.01)
        h.assume(lon[nx - 1] <= lon[0] + 359.99)
        lat = [50.0, 40.0][:ny]
        x, y = h.array("x", (ny, nx)), h.array("y", (1, ny, nx))
        ds = xr.Dataset({"x": (("latitude", "longitude"), x), "y": (("time", "latitude", "longitude"), y)},
                        coords={"latitude": ("latitude", lat), "longitude": ("longitude", lon.copy())})
        r = shift_longitude(ds)
        moved = h.lor(*[v > 180 for v in lon], *[v < 0 for v in lon])
        if moved:
            hi = [i for i in range(nx) if lon[i] >= 180]
        else:
            hi = []
        order = hi + [i for i in range(nx) if i not in hi]
        h.true("size", r.sizes["longitude"] == nx)
        g = r["longitude"].variable._data
        g = getattr(g, "array", g)
        rx = r["x"].transpose("latitude", "longitude").variable._data
        ry = r["y"].transpose("time", "latitude", "longitude").variable._data
        for q, i in enumerate(order):
            h.eq(f"longitude {q}", g[q], lon[i] - 360 if i in hi else lon[i], tol=1e-6)
            h.true(f"range {q}", h.land(g[q] >= -180, g[q] <= 180))
            for j in range(ny):
                h.eq(f"x {j},{q}", rx[j, q], x[j, i])
                h.eq(f"y {j},{q}", ry[0, j, q], y[0, j, i])
        h.reach()
    return fn


SCENARIOS = [Scenario("any-4", make(4), "4 columns at any increasing longitudes in -180..360, any data"),
             Scenario("any-7", make(7), "7 columns at any increasing longitudes in -180..360, any data", thorough_only=True)]
ASSUMPTIONS = ["longitudes increase and span less than a full circle"]
OUTSIDE = "more columns"
