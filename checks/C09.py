"""C09: the vertical flux closes the column balance and never drains a layer."""
import contextlib

import numpy as np

from engine.runner import Scenario

from .common import areas, ds, grid, vals


@contextlib.contextmanager
def square_metres(used):
    """every cell has an area of exactly one square metre: there, totals and amounts per square metre coincide"""
    from engine.patches import Stubs
    from wam2layers.utils.grid import get_grid_info

    def info(*x, **k):
        used.append(1)
        a, dy, dx = get_grid_info(*x, **k)
        return np.ones(np.shape(a)), dy, dx

    with Stubs([(get_grid_info, info)]):
        yield


def make(shape, sources, kvf=None, closure=True, unit=False):
    def fn(h):
        from wam2layers.tracking.core import calculate_fz
        ny, nx = shape
        lat, lon = grid(ny, nx, lat0=10.0, lon0=0.0)
        dt = h.integer("dt", 1, 86400)
        k = h.real("kvf", 0, nice=(0, 5)) if kvf is None else kvf
        sc = 1e-2 if unit else 1e6
        f = {f"{c}_{l}": h.array(f"{c}_{l}", shape, nice=(-sc, sc)) for c in ("fx", "fy")
             for l in ("upper", "lower")}
        for n in ("evap", "precip"):
            f[n] = h.array(n, shape, lo=0, nice=(0, 0.01)) if sources else h.const_array(shape, 0.0)
        s0 = {"s_" + l: h.array("S0_" + l, shape, lo=0, strict=True, nice=(1, 30)) for l in ("upper", "lower")}
        s1 = {"s_" + l: h.array("S1_" + l, shape, lo=0, strict=True, nice=(1, 30)) for l in ("upper", "lower")}
        used = []
        with square_metres(used) if unit else contextlib.nullcontext():
            fz = vals(calculate_fz(ds(lat, lon, **f), ds(lat, lon, **s0), ds(lat, lon, **s1), dt, k))
        a = [1.0] * ny if unit else areas(lat, 2.0, 2.0)
        if unit and not used:  # the areas come from elsewhere: this scenario says nothing
            h.reach()
            return
        for j in range(ny):
            for i in range(nx):
                su0, sl0, su1, sl1 = (s["s_" + l][j, i] for s in (s0, s1) for l in ("upper", "lower"))
                mu, ml = (su0 + su1) / 2, (sl0 + sl1) / 2
                z = fz[j, i] * dt
                cap = h.min(mu, ml) / (k + 1)
                h.le(f"limit[{j},{i}]", h.abs(z), cap)
                if not (0 < j < ny - 1 and 0 < i < nx - 1 and closure):
                    continue
                conv = {}
                for l in ("upper", "lower"):
                    fx, fy = f["fx_" + l], f["fy_" + l]
                    conv[l] = ((fx[j, i + 1] - fx[j, i - 1]) / 2 - (fy[j + 1, i] - fy[j - 1, i]) / 2) / a[j]
                P, E = f["precip"][j, i], f["evap"][j, i]
                # what the balance of each layer leaves unexplained without vertical exchange
                ru = su1 - su0 + dt * (conv["upper"] + P * mu / (mu + ml))
                rl = sl1 - sl0 + dt * (conv["lower"] + P * ml / (mu + ml) - E)
                # with the exchange, the errors are in proportion to the water of the layers
                free = rl - (ru + rl) * sl1 / (su1 + sl1)  # the flux (downward) that does so
                want = h.ite(free > cap, cap, h.ite(free < -cap, -cap, free))
                h.eq(f"closure[{j},{i}]", z, want, tol=1e-6)
        h.reach()
    return fn


SCENARIOS = [
    Scenario("transport", make((3, 3), False), "3x3 grid without evaporation and precipitation, any fluxes"),
    Scenario("limit", make((3, 3), True, closure=False), "3x3 grid, all terms: the limit only"),
    Scenario("unit-cells", make((3, 3), True, unit=True), "3x3 grid of 1 m2 cells, all terms"),
    Scenario("sources", make((3, 3), True), "3x3 grid, all terms"),
    Scenario("transport-4x4", make((4, 4), False), "4x4 grid", thorough_only=True),
    Scenario("limit-5x5", make((5, 5), True, closure=False), "5x5 grid", thorough_only=True),
]
ASSUMPTIONS = ["machine floats are read as real numbers", "positive moisture in both layers"]
OUTSIDE = "cells at the rim of the grid (one-sided differences), except for the limit"
