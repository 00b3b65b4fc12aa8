"""C27: the pressure thickness of the chosen model levels fills the column from the top of the atmosphere to the surface."""
import csv

import numpy as np

from engine import timesym as T
from engine.runner import Scenario

from .raw import HOUR, era5, load, val

TABLE = "/repo/src/wam2layers/preprocessing/tableERA5model_to_pressure.csv"


def half_levels():
    """coefficients a (Pa), b at the 138 interfaces"""
    import wam2layers.preprocessing as P
    with open(P.__path__[0] + "/" + TABLE.rsplit("/", 1)[1]) as f:
        rows = list(csv.DictReader(f))
    num = lambda s: 0.0 if s.strip() in ("", "-") else float(s)
    return [num(r["a [Pa]"]) for r in rows], [num(r["b"]) for r in rows]


def make(wants, ny=1, nx=2):
    def fn(h):
        want = h.choice("levels", wants)
        levels = list(range(1, 138)) if isinstance(want, str) else list(want)
        a, b = half_levels()
        full = lambda l: ((a[l - 1] + a[l]) / 2, (b[l - 1] + b[l]) / 2)
        with era5(h, "model_levels", [0], levels, ny, nx, tcw=False, want=want, input_frequency="1h") as (raw, cfg, tmp, vfs):
            data = load("ERA5", T.real_time(0), cfg)
        h.true("levels", sorted(int(x) for x in data["dp"]["level"].values) == sorted(levels))
        dp = val(data, "dp", ("level", "latitude", "longitude"))
        at = {int(l): k for k, l in enumerate(data["dp"]["level"].values)}
        for j in range(ny):
            for i in range(nx):
                ps = raw.at("sp", 0)[j, i]
                tot = 0
                for n, l in enumerate(levels):
                    x = dp[at[l], j, i]
                    tot = tot + x
                    h.true(f"level {l} is above the next [{j},{i}]", x > 0)
                    if isinstance(want, str):
                        lo, hi = (a[l - 1], b[l - 1]), (a[l], b[l])
                    else:
                        mid = lambda p, q: tuple((s + t) / 2 for s, t in zip(full(p), full(q)))
                        lo = (a[0], b[0]) if n == 0 else mid(levels[n - 1], l)
                        hi = (a[-1], b[-1]) if n == len(levels) - 1 else mid(l, levels[n + 1])
                    h.eq(f"thickness of level {l} [{j},{i}]", x, hi[0] - lo[0] + (hi[1] - lo[1]) * ps, tol=1e-7)
                h.eq(f"whole column[{j},{i}]", tot, ps, tol=1e-7)
        h.reach()
    return fn


DOC = [20, 40, 60, 80, 90, 95, 100, 105, 110, 115, 120, 123, 125, 128, 130, 131, 132, 133, 134, 135, 136, 137]
SCENARIOS = [Scenario("subsets", make([[100, 120, 137], [137], [1, 137], [60, 61, 62], DOC]), "5 choices of 1 to 22 levels, 1x2 cells, "
                      "any surface pressure"),
             Scenario("all", make(["all", "All"], 1, 1), "all 137 levels, one cell, any surface pressure")]
ASSUMPTIONS = ["surface pressure between 500 and 1100 hPa", "levels counted downwards, as documented"]
OUTSIDE = "whether the table of coefficients is ECMWF's; levels in another order"
