"""C52: what happens in a cell during a step depends on that cell and its four neighbours only."""
import numpy as np

from engine.runner import Scenario

from .common import Cfg, Quiet, Step, ds, grid, vals


def near(j, i, ny, nx, periodic):
    r = {(j, i), (j - 1, i), (j + 1, i)}
    for k in (i - 1, i + 1):
        r.add((j, k % nx if periodic else k))
    return r


def vary(h, name, x, keep, lo=None, strict=False, nice=(0, 1)):
    """other values in the cells that are not in `keep`"""
    if np.ndim(x) == 0:
        return x
    y = h.array(name + "'", x.shape, lo=lo, strict=strict, nice=nice)
    for c in keep:
        if 0 <= c[0] < x.shape[0] and 0 <= c[1] < x.shape[1]:
            y[c] = x[c]
    return y


def step(direction, shape, periodic):
    def fn(h):
        a = Step(h, direction, *shape, periodic=periodic, acc0=True)
        out1 = {k: v.copy() for k, v in a.run().items()}
        j, i = h.choice("cell", [(j, i) for j in range(shape[0]) for i in range(shape[1])])
        keep = near(j, i, *shape, periodic)
        for d, tag, lo, strict in ((a.F, "F", 0, False), (a.S0, "S0", 0, True), (a.S1, "S1", 0, True), (a.track0, "t", 0, False),
                                   (a.acc0, "acc", 0, False)):
            for k in d:
                d[k] = vary(h, tag + k, d[k], keep, None if k[:2] in ("fx", "fy", "f_") else lo, strict, (1, 5))
        a.mask = vary(h, "mask", a.mask, keep, 0)
        for x in np.ravel(a.mask):
            h.assume(x <= 1)
        out2 = a.run()
        for n in out1:
            h.eq(f"{n}[{j},{i}]", out2[n][j, i], out1[n][j, i], tol=1e-6)
        h.reach()
    return fn


def flows(shape, what):
    def fn(h):
        from wam2layers.tracking.core import calculate_fz, stabilize_fluxes
        lat, lon = grid(*shape)
        dt = h.integer("dt", 1, 3600)
        f = {f"{c}_{l}": h.array(f"{c}_{l}", shape, nice=(-1e6, 1e6)) for c in ("fx", "fy") for l in ("upper", "lower")}
        f.update({n: h.array(n, shape, lo=0, nice=(0, 0.01)) for n in ("evap", "precip")})
        s = [{"s_" + l: h.array(f"S{k}_{l}", shape, lo=0, strict=True, nice=(1, 30)) for l in ("upper", "lower")} for k in (0, 1)]
        j, i = h.choice("cell", [(j, i) for j in range(shape[0]) for i in range(shape[1])])
        keep = {(j, i)} if what == "limiter" else near(j, i, *shape, False)
        res = []
        for k in (0, 1):
            if k:
                f = {n: vary(h, n, v, keep, None if n[0] == "f" else 0, False, (1, 5)) for n, v in f.items()}
                s = [{n: vary(h, n + str(m), v, keep, 0, True, (1, 5)) for n, v in d.items()} for m, d in enumerate(s)]
            F, A, B = (ds(lat, lon, **{n: v.copy() for n, v in d.items()}) for d in (f, *s))
            if what == "limiter":
                stabilize_fluxes(F, A, Quiet(), Cfg(timestep=dt), None)
                res.append({n: vals(F[n])[j, i] for n in f if n[0] == "f"})
            else:
                res.append({"f_vert": vals(calculate_fz(F, A, B, dt, 3.0))[j, i]})
        for n in res[0]:
            a, b = res[0][n], res[1][n]
            h.eq(f"{n}[{j},{i}]", b, a, tol=1e-6)
        h.reach()
    return fn


SCENARIOS = []
for d in ("backward", "forward"):
    for shape, per, t in (((4, 5), False, False), ((3, 5), True, False), ((6, 6), False, True), ((5, 6), True, True)):
        SCENARIOS.append(Scenario(f"{d}-{'periodic' if per else 'closed'}-{shape[0]}x{shape[1]}", step(d, shape, per),
                                  f"{shape[0]}x{shape[1]} grid, every cell, any fields, any other values outside its neighbourhood", thorough_only=t))
for w in ("vertical", "limiter"):
    SCENARIOS.append(Scenario(w, flows((4, 5), w), "4x5 grid, every cell, any fields"))
ASSUMPTIONS = ["machine floats are read as real numbers", "total moisture of every cell is positive"]
OUTSIDE = "more than one step"
