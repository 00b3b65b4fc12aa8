"""C50: mirrored weather gives mirrored results."""
import numpy as np

from engine.runner import Scenario

from .common import Cfg, Quiet, Step, ds, grid, vals, weather

WEATHER = [(1, "calm"), (2, "storm"), (3, "storm")]


def mirror(axis, n, x):
    """a field seen in the mirror; the flux across the mirror turns around"""
    if np.ndim(x) == 0:
        return x
    y = np.flip(x, axis=axis)
    return -1.0 * y if n.startswith("fx" if axis == 1 else "fy") else y


def lat_north(ny):
    return float(ny - 1)  # of rows 2 degrees apart on both sides of the equator


def step(direction, shape, periodic, axis):
    def fn(h):
        a = Step(h, direction, *shape, periodic=periodic, acc0=True, lat0=lat_north(shape[0]), dt=600, kvf=3.0)
        weather(h, a, *h.choice("weather", WEATHER))
        out1 = {k: v.copy() for k, v in a.run().items()}
        for d in (a.F, a.S0, a.S1, a.track0, a.acc0):
            for k in d:
                d[k] = mirror(axis, k, d[k])
        a.mask = mirror(axis, "", a.mask)
        out2 = a.run()
        for n in out1:
            r = mirror(axis, "", out1[n])
            for j, i in a.cells():
                h.eq(f"{n}[{j},{i}]", out2[n][j, i], r[j, i], tol=1e-6)
        h.reach()
    return fn


def vertical(shape, axis):
    def fn(h):
        from wam2layers.tracking.core import calculate_fz
        lat, lon = grid(*shape, lat0=lat_north(shape[0]))
        dt, kvf = h.integer("dt", 1, 86400), h.real("kvf", 0, nice=(0, 5))
        f = {f"{c}_{l}": h.array(f"{c}_{l}", shape, nice=(-1e6, 1e6)) for c in ("fx", "fy") for l in ("upper", "lower")}
        f.update({n: h.array(n, shape, lo=0, nice=(0, 0.01)) for n in ("evap", "precip")})
        s = [{"s_" + l: h.array(f"S{k}_{l}", shape, lo=0, strict=True, nice=(1, 30)) for l in ("upper", "lower")} for k in (0, 1)]
        res = []
        for m in (lambda n, x: x, lambda n, x: mirror(axis, n, x)):
            F, A, B = (ds(lat, lon, **{n: m(n, v.copy()) for n, v in d.items()}) for d in (f, *s))
            res.append(vals(calculate_fz(F, A, B, dt, kvf)).copy())
        h.eq("f_vert", res[1], mirror(axis, "", res[0]), tol=1e-6)
        h.reach()
    return fn


def limiter(shape, axis):
    def fn(h):
        from wam2layers.tracking.core import stabilize_fluxes
        lat, lon = grid(*shape, lat0=lat_north(shape[0]))
        names = ["fx_upper", "fy_upper", "fx_lower", "fy_lower"]
        f = {n: h.array(n, shape, nice=(-1e8, 1e8)) for n in names}
        s = {n: h.array(n, shape, lo=0, strict=True, nice=(1, 30)) for n in ("s_upper", "s_lower")}
        for n in names:
            for x in f[n].ravel():
                h.assume(x != 0)
        dt = h.integer("dt", 1, 3600)
        res = []
        for m in (lambda n, x: x, lambda n, x: mirror(axis, n, x)):
            F = ds(lat, lon, **{n: m(n, v.copy()) for n, v in f.items()})
            S = ds(lat, lon, **{n: m(n, v.copy()) for n, v in s.items()})
            stabilize_fluxes(F, S, Quiet(), Cfg(timestep=dt), None)
            res.append({n: vals(F[n]).copy() for n in names})
        for n in names:
            h.eq(n, res[1][n], mirror(axis, n, res[0][n]), tol=1e-6)
        h.reach()
    return fn


SIDES = {1: "east-west", 0: "north-south"}
SCENARIOS = []
for ax, side in SIDES.items():
    for d in ("backward", "forward"):
        for shape, per, t in (((4, 5), False, False), ((4, 4), True, False), ((7, 8), False, True), ((6, 7), True, True)):
            SCENARIOS.append(Scenario(f"{d}-{side}-{'periodic' if per else 'closed'}-{shape[0]}x{shape[1]}", step(d, shape, per, ax),
                                      f"{shape[0]}x{shape[1]} grid around the equator, any tracked moisture and mask, {len(WEATHER)} fixed weather situations", thorough_only=t))
    SCENARIOS.append(Scenario(f"vertical-{side}", vertical((3, 4), ax), "3x4 grid around the equator, any fields"))
    SCENARIOS.append(Scenario(f"limiter-{side}", limiter((3, 4), ax), "3x4 grid around the equator, any fields"))
ASSUMPTIONS = ["machine floats are read as real numbers", "total moisture of every cell is positive"]
OUTSIDE = "grids that are not symmetric about the equator (north-south)"
