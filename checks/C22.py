"""C22: a region from a shapefile tags each cell with the share of it that lies in the polygon."""
import contextlib
from pathlib import Path

import numpy as np
import xarray as xr

from engine.runner import Scenario

from .files import get, put, scratch
from .runs import make_config


class Area:
    """a rectangle, possibly empty: the part of shapely the code needs"""

    def __init__(self, h, w, s, e, n):
        self.h, self.b = h, (w, s, e, n)

    @property
    def bounds(self):
        return self.b

    @property
    def area(self):
        w, s, e, n = self.b
        return self.h.max(e - w, 0.0) * self.h.max(n - s, 0.0)

    @property
    def is_empty(self):
        return self.area <= 0

    def intersection(self, o):
        a, b, h = self.b, o.b, self.h
        return Area(h, h.max(a[0], b[0]), h.max(a[1], b[1]), h.min(a[2], b[2]), h.min(a[3], b[3]))

    def intersects(self, o):
        a, b = self.b, o.b
        return self.h.land(a[0] <= b[2], b[0] <= a[2], a[1] <= b[3], b[1] <= a[3])


def num(x):
    return x.item() if hasattr(x, "item") else x


@contextlib.contextmanager
def polygon(h, path, box, decoy):
    """the shapefile at `path`: two rectangles, of which the first counts"""
    if not h.symbolic:
        import shapefile
        w = shapefile.Writer(str(path))
        w.field("n", "N")
        for k, (a, b, c, d) in enumerate((box, decoy)):
            w.poly([[[a, b], [a, d], [c, d], [c, b], [a, b]]])
            w.record(k)
        w.close()
        yield
        return
    import shapefile
    import shapely
    import shapely.geometry
    path.touch()
    shapes = [Area(h, *box), Area(h, *decoy)]

    class Reader:
        def __init__(self, f, *a, **k):
            if str(f) != str(path):
                raise FileNotFoundError(str(f))

        def shape(self, i=0):
            return shapes[i]

        def shapes(self):
            return list(shapes)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    new = {(shapefile, "Reader"): Reader, (shapely.geometry, "shape"): lambda s: s,
           (shapely, "intersection"): lambda a, b: a.intersection(b), (shapely, "area"): lambda a: a.area}
    for mod in (shapely, shapely.geometry):
        new[(mod, "box")] = lambda a, b, c, d, *r, **k: Area(h, num(a), num(b), num(c), num(d))
    saved = {k: getattr(*k) for k in new}
    try:
        for (m, n), f in new.items():
            setattr(m, n, f)
        yield
    finally:
        for (m, n), f in saved.items():
            setattr(m, n, f)


def make(ny, nx, up=False, domain=False, dlon=1.0):
    def fn(h):
        from wam2layers.config import BoundingBox
        from wam2layers.tracking.io import load_tagging_region
        lat = np.array([10.0 - k for k in range(ny)])
        lat = lat[::-1].copy() if up else lat
        lon = np.array([20.0 + dlon * k for k in range(nx)])
        w, e = h.real("west", lon[0] - dlon / 2, lon[-1] + dlon / 2), h.real("east", lon[0] - dlon / 2, lon[-1] + dlon / 2)
        s, n = h.real("south", min(lat) - 0.5, max(lat) + 0.5), h.real("north", min(lat) - 0.5, max(lat) + 0.5)
        h.assume(h.land(w < e, s < n))
        with scratch(h) as (tmp, vfs):
            kw, jj, ii = {}, range(ny), range(nx)
            if domain:
                kw["tracking_domain"] = BoundingBox(20.5, 7.5, 22.5, 9.5)
                jj = [j for j in jj if 7.5 <= lat[j] <= 9.5]
                ii = [i for i in ii if 20.5 <= lon[i] <= 22.5]
            cfg = make_config(h, "backward", tmp, tagging_region=Path(tmp) / "region.shp", output_folder=Path(tmp) / "out",
                              preprocessed_data_folder=Path(tmp) / "pre", **kw)
            for d in ("out", "pre"):
                (Path(tmp) / d).mkdir()
            f = Path(tmp) / "pre" / "2000-01-01_fluxes_storages.nc"
            times = np.array(["2000-01-01T00", "2000-01-01T01"], dtype="datetime64[ns]")
            data = xr.Dataset({"precip": (("time", "latitude", "longitude"), np.zeros((2, ny, nx)))},
                              coords={"time": times, "latitude": lat, "longitude": lon})
            if h.symbolic:
                f.touch()
            put(h, vfs, f, data)
            with polygon(h, Path(tmp) / "region.shp", (w, s, e, n), (lon[0], min(lat), lon[-1], max(lat))):
                r = load_tagging_region(cfg)
            h.true("dimensions", tuple(r.dims) == ("latitude", "longitude"))
            h.true("coordinates", bool(np.array_equal(r.latitude.values, lat[list(jj)])
                                       and np.array_equal(r.longitude.values, lon[list(ii)])))
            saved = get(h, vfs, Path(tmp) / "out" / "debug" / "tagging_region.nc")
            saved = saved["tagging_region"].transpose("latitude", "longitude").variable._data
            v = r.variable._data
            for j in range(ny):
                for i in range(nx):
                    y = h.max(h.min(n, lat[j] + 0.5) - h.max(s, lat[j] - 0.5), 0.0)
                    x = h.max(h.min(e, lon[i] + dlon / 2) - h.max(w, lon[i] - dlon / 2), 0.0)
                    h.eq(f"file [{j},{i}]", saved[j, i], x * y / dlon)
                    if j in jj and i in ii:
                        h.eq(f"share [{j},{i}]", v[list(jj).index(j), list(ii).index(i)], x * y / dlon)
        h.reach()
    return fn


B = "any rectangle with sides along the grid within the grid's extent"
SCENARIOS = [Scenario("falling-3x4", make(3, 4), "3x4 cells, " + B), Scenario("rising-3x3", make(3, 3, up=True), "3x3 cells, " + B),
             Scenario("domain-3x4", make(3, 4, domain=True), "3x4 cells, of which a domain keeps 2x2, " + B),
             Scenario("oblong-3x3", make(3, 3, dlon=2.0), "3x3 cells twice as wide as high, " + B),
             Scenario("falling-4x5", make(4, 5), "4x5 cells, " + B, thorough_only=True)]
ASSUMPTIONS = ["the region is a rectangle in longitude and latitude; areas of intersections are shapely's contract"]
OUTSIDE = "polygons that are not rectangles (their intersections are computed by GEOS); regions beyond the grid or across the antimeridian"
