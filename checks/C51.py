"""C51: results are in proportion to the moisture: there is no hidden threshold."""
import numpy as np

from engine.runner import Scenario

from .common import Cfg, Quiet, Step, ds, grid, vals, weather

WEATHER = [(1, "calm"), (2, "storm")]

FACTORS = [2.0**-10, 8.0]


def step(direction, shape, periodic):
    def fn(h):
        c = h.choice("factor", FACTORS)
        a = Step(h, direction, *shape, periodic=periodic, acc0=True, dt=600, kvf=3.0)
        weather(h, a, *h.choice("weather", WEATHER))
        out1 = {k: v.copy() for k, v in a.run().items()}
        for d in (a.F, a.S0, a.S1, a.track0, a.acc0):
            for k in d:
                d[k] = d[k] * c
        out2 = a.run()
        for n in out1:
            for j, i in a.cells():
                h.eq(f"{n}[{j},{i}]", out2[n][j, i] * (1 / c), out1[n][j, i], tol=1e-6)
        h.reach()
    return fn


def vertical(shape):
    def fn(h):
        from wam2layers.tracking.core import calculate_fz
        c = h.choice("factor", FACTORS)
        lat, lon = grid(*shape)
        dt, kvf = h.integer("dt", 1, 86400), 3.0
        f = {f"{x}_{l}": h.array(f"{x}_{l}", shape, nice=(-1e6, 1e6)) for x in ("fx", "fy") for l in ("upper", "lower")}
        f.update({n: h.array(n, shape, lo=0, nice=(0, 0.01)) for n in ("evap", "precip")})
        st = Step(h, "forward", *shape, dt=600, kvf=3.0)
        weather(h, st, h.choice("weather", [1, 2]), "storm")
        s = [st.S0, st.S1]
        res = []
        for m in (1, c):
            F, A, B = (ds(lat, lon, **{n: v * m for n, v in d.items()}) for d in (f, *s))
            res.append(vals(calculate_fz(F, A, B, dt, kvf)).copy())
        h.eq("f_vert", res[1] * (1 / c), res[0], tol=1e-6)
        h.reach()
    return fn


def limiter(shape):
    def fn(h):
        from wam2layers.tracking.core import stabilize_fluxes
        c = h.choice("factor", FACTORS)
        lat, lon = grid(*shape)
        names = ["fx_upper", "fy_upper", "fx_lower", "fy_lower"]
        f = {n: h.array(n, shape, nice=(-1e8, 1e8)) for n in names}
        s = {n: h.array(n, shape, lo=0, strict=True, nice=(1, 30)) for n in ("s_upper", "s_lower")}
        dt = h.integer("dt", 1, 3600)
        res = []
        for m in (1, c):
            F = ds(lat, lon, **{n: v * m for n, v in f.items()})
            S = ds(lat, lon, **{n: v * m for n, v in s.items()})
            stabilize_fluxes(F, S, Quiet(), Cfg(timestep=dt), None)
            res.append({n: vals(F[n]).copy() for n in names})
        for n in names:
            h.eq(n, res[1][n] * (1 / c), res[0][n], tol=1e-6)
        h.reach()
    return fn


SCENARIOS = []
for d in ("backward", "forward"):
    for shape, per, t in (((4, 5), False, False), ((4, 4), True, False), ((7, 8), False, True)):
        SCENARIOS.append(Scenario(f"{d}-{'periodic' if per else 'closed'}-{shape[0]}x{shape[1]}", step(d, shape, per),
                                  f"{shape[0]}x{shape[1]} grid, any tracked moisture and mask, {len(WEATHER)} fixed weather situations, times 1/1024 and 8", thorough_only=t))
SCENARIOS.append(Scenario("vertical", vertical((3, 3)), f"3x3 grid, any fluxes and time step, two fixed states, times 1/1024 and 8"))
SCENARIOS.append(Scenario("limiter", limiter((3, 3)), f"3x3 grid, any fields, times 1/1024 and 8"))
ASSUMPTIONS = ["machine floats are read as real numbers", "total moisture of every cell is positive"]
OUTSIDE = "other factors"
