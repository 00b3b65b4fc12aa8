"""C44: cell areas and side lengths are those of the sphere, for any regular grid."""
import math

import numpy as np
import xarray as xr

from engine.runner import Scenario

from .common import DG, ERAD

R = np.pi / 180


def rows(h, ny, poles):
    d = h.real("dlat", 0.01, 20, nice=(0.1, 10))
    top = h.real("lat0", -90, 90, nice=(-60, 80))
    lat = [top - k * d for k in range(ny)]
    if poles:
        h.assume(lat[-1] >= -90)
    else:
        h.assume(top + d / 2 <= 90)
        h.assume(lat[-1] - d / 2 >= -90)
    return lat, d


def make(ny, up, wrap, poles, second=False):
    def fn(h):
        from wam2layers.utils.grid import get_grid_info
        lat, d = rows(h, ny, poles)
        dl = h.real("dlon", 0.01, 60, nice=(0.1, 10))
        l0 = h.real("lon0", -180, 180, nice=(-170, 170))
        lon = [l0 + k * dl for k in range(3)]
        if wrap:  # first two columns on either side of the antimeridian
            h.assume(lon[1] >= 180)
            h.assume(l0 < 180)
            lon = [lon[0]] + [x - 360 for x in lon[1:]]
        else:
            h.assume(lon[2] <= 180)
        order = lat[::-1] if up else lat
        mk = lambda xs: h._arr(np.array(xs, dtype=object))
        ds = xr.Dataset(coords={"latitude": ("latitude", mk(order)), "longitude": ("longitude", mk(lon))})
        if second:  # another grid of the same shape and first corner came before
            t = h.choice("other rows", [0.5, 1.0])
            get_grid_info(xr.Dataset(coords={
                "latitude": ("latitude", mk([order[0] + t * (x - order[0]) for x in order])),
                "longitude": ("longitude", mk([lon[0] + (1.5 - t) * (x - lon[0]) for x in lon]))}))
        a, dy, dx = get_grid_info(ds)
        a, dx = np.asarray(a) if not h.symbolic else a, dx
        h.true("shapes", tuple(a.shape) == (ny,) and tuple(dx.shape) == (ny, 1))
        h.eq("length of the east and west sides", dy, d * DG, tol=1e-9)
        for j, p in enumerate(order):
            n, s = h.min(90.0, p + d / 2), h.max(-90.0, p - d / 2)
            area = R * ERAD ** 2 * dl * (np.sin(n * np.pi / 180) - np.sin(s * np.pi / 180))
            h.eq(f"area of row {j}", a[j], h.abs(area), tol=1e-9)
            if not poles:
                side = dl * DG * (np.cos((p + d / 2) * np.pi / 180) + np.cos((p - d / 2) * np.pi / 180)) / 2
                h.eq(f"mean length of the north and south sides, row {j}", dx[j, 0], side, tol=1e-9)
        h.reach()
    return fn


SCENARIOS = [Scenario(f"{'up' if u else 'down'}{'-wrap' if w else ''}{'-poles' if p else ''}-{ny}", make(ny, u, w, p),
                      f"{ny} rows x 3 columns, any spacing and position" + (", first two columns across the antimeridian"
                      if w else "") + (", rows up to and on the poles" if p else ""), thorough_only=t)
             for u, w, p, ny, t in ((False, False, False, 3, False), (True, True, False, 2, False),
                                    (False, False, True, 2, False), (True, True, True, 6, True),
                                    (False, False, False, 8, True))]
SCENARIOS.append(Scenario("second-2", make(2, False, False, False, True), "2 rows x 3 columns, any spacing and position, after "
                          "another grid of the same shape and first corner"))
ASSUMPTIONS = ["sine and cosine are uninterpreted apart from their range and symmetries"]
OUTSIDE = "irregular grids; the length of the sides of cells that touch a pole"
