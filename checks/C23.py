"""C23: model levels: every level counts once, in the layer its number says."""
import numpy as np

from engine.runner import Scenario

from .common import grid
from .files import scratch
from .prep import G, dataset, fields, level_array, out, run_preprocess


def make(level_sets, ny, nx, tcw=False, later=False):
    def fn(h):
        levels, bound = h.choice("levels", level_sets)
        n = len(levels)
        lat, lon = grid(ny, nx)
        f = fields(h, n, ny, nx, levels)
        f["dp"] = level_array(h, "dp", n, ny, nx, 0, nice=(1, 20000))
        if tcw:
            f["tcw"] = h.array("tcw", (ny, nx), 0, nice=(1, 60))
        with scratch(h) as (tmp, vfs):
            ds = run_preprocess(h, tmp, vfs, dataset(f, levels, lat, lon), level_type="model_levels",
                                levels=list(levels), level_layer_boundary=bound, later=later)
        for j in range(ny):
            for i in range(nx):
                cw = [f["q"][k, j, i] * f["dp"][k, j, i] / G for k in range(n)]
                tot = sum(cw)
                if tcw:
                    h.assume(tot > 0)
                corr = f["tcw"][j, i] / tot if tcw else 1
                for name, w in (("s", None), ("fx", f["u"]), ("fy", f["v"])):
                    up = lo = 0
                    for k, l in enumerate(levels):
                        x = cw[k] * (1 if w is None else w[k, j, i])
                        if l > bound:
                            lo = lo + x
                        else:
                            up = up + x
                    h.eq(f"{name}_upper[{j},{i}]", out(ds, name + "_upper")[j, i], corr * up, tol=1e-5)
                    h.eq(f"{name}_lower[{j},{i}]", out(ds, name + "_lower")[j, i], corr * lo, tol=1e-5)
                if tcw:
                    h.eq(f"total[{j},{i}]", out(ds, "s_upper")[j, i] + out(ds, "s_lower")[j, i], f["tcw"][j, i], tol=1e-5)
                h.eq(f"precip[{j},{i}]", out(ds, "precip")[j, i], f["precip"][j, i], tol=1e-5)
                h.eq(f"evap[{j},{i}]", out(ds, "evap")[j, i], f["evap"][j, i], tol=1e-5)
        h.true("coordinates", bool(np.array_equal(ds["latitude"].values, lat)
                                   and np.array_equal(ds["longitude"].values, lon)))
        h.reach()
    return fn


SETS = [((100, 111, 112, 137), 111), ((110, 111), 111), ((112, 113, 130), 111), ((20, 60, 90), 60)]
SCENARIOS = [Scenario("water-vapour", make(SETS, 2, 2), "4 choices of 2 to 4 levels and boundary, 2x2 cells, any fields"),
             Scenario("later-instant", make(SETS[:2], 1, 2, later=True), "2 choices of levels, 1x2 cells, the second of three instants of a day"),
             Scenario("many-levels", make([((20, 40, 60, 80, 90, 95, 100, 105, 110, 115, 120, 123, 125, 128, 130, 131, 132,
                                             133, 134, 135, 136, 137), 111)], 2, 3),
                      "the 22 documented levels, 2x3 cells, any fields", thorough_only=True)]
ASSUMPTIONS = ["storing as 32-bit float is read as exact"]
OUTSIDE = "more cells and levels than the bounds"
