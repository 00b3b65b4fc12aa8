"""C08: the stability correction only ever weakens fluxes, just enough, and never breaks them."""
from engine.runner import Scenario

from .common import Cfg, Quiet, areas, ds, grid, vals


def make(shape, dlon=2.0, zero=False):
    def fn(h):
        from wam2layers.tracking.core import stabilize_fluxes
        ny, nx = shape
        lat, lon = grid(ny, nx, 2.0, dlon)
        dt = h.integer("dt", 1, 86400)
        f0, s0 = {}, {}
        for l in ("upper", "lower"):
            s0["s_" + l] = h.array("s_" + l, shape, lo=0, nice=(1, 30))
            for c in ("fx", "fy"):
                f0[f"{c}_{l}"] = (h.const_array(shape, 0.0) if zero and l == "upper"
                                  else h.array(f"{c}_{l}", shape, nice=(-1e8, 1e8)))
        F = ds(lat, lon, **{k: v.copy() for k, v in f0.items()})
        S = ds(lat, lon, **{k: v.copy() for k, v in s0.items()})
        stabilize_fluxes(F, S, Quiet(), Cfg(timestep=dt), None)
        a = areas(lat, 2.0, dlon)
        for l in ("upper", "lower"):
            gx, gy = vals(F["fx_" + l]), vals(F["fy_" + l])
            for j in range(ny):
                for i in range(nx):
                    x0, y0 = f0["fx_" + l][j, i], f0["fy_" + l][j, i]
                    x1, y1 = gx[j, i], gy[j, i]
                    s = s0["s_" + l][j, i] * a[j]
                    lab = f"{l}[{j},{i}]"
                    h.finite("finite." + lab, x1)
                    h.finite("finite.y." + lab, y1)
                    h.ge("sign.x." + lab, x0 * x1, 0)
                    h.ge("sign.y." + lab, y0 * y1, 0)
                    h.le("weaker.x." + lab, h.abs(x1), h.abs(x0), scale=1e-3)
                    h.le("weaker.y." + lab, h.abs(y1), h.abs(y0), scale=1e-3)
                    ft = h.abs(x0) + h.abs(y0)
                    half = s / 2
                    out = (h.abs(x1) + h.abs(y1)) * dt
                    h.le("limit." + lab, out, half, scale=1e-3)
                    small = ft * dt <= half
                    h.eq("unchanged.x." + lab, h.ite(small, x1, 0), h.ite(small, x0, 0), scale=1e-3)
                    h.eq("unchanged.y." + lab, h.ite(small, y1, 0), h.ite(small, y0, 0), scale=1e-3)
                    # when limited, exactly to the limit, in the same direction
                    h.eq("tight." + lab, h.ite(small, half, out), half, scale=1e-3)
                    h.eq("direction." + lab, x1 * y0, y1 * x0, scale=1e-3)
        h.reach()
    return fn


SCENARIOS = [
    Scenario("3x3", make((3, 3)), "3x3 grid, any fluxes, non-negative moisture, timestep 1 s to 1 d"),
    Scenario("3x4", make((3, 4), 1.0), "3x4 grid of 2x1 degrees"),
    Scenario("no-flow-aloft", make((3, 3), zero=True), "upper layer without any flow"),
    Scenario("6x6", make((6, 6)), "6x6 grid", thorough_only=True),
]
ASSUMPTIONS = ["machine floats are read as real numbers"]
