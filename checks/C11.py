"""C11: on a periodic grid the result does not depend on where the grid is cut."""
import numpy as np

from engine.runner import Scenario

from .common import Step


def make(direction, shape, shift):
    def fn(h):
        a = Step(h, direction, *shape, periodic=True, acc0=False)
        out1 = {k: v.copy() for k, v in a.run().items()}
        roll = lambda x: x if np.ndim(x) == 0 else np.roll(x, shift, axis=1)
        for d in (a.F, a.S0, a.S1, a.track0, a.acc0):
            for k in d:
                d[k] = roll(d[k])
        a.mask = roll(a.mask)
        out2 = a.run()
        for n in out1:
            r = roll(out1[n])
            for j, i in a.cells():
                h.eq(f"{n}[{j},{i}]", out2[n][j, i], r[j, i], tol=1e-6)
        h.reach()
    return fn


def stab(shape, shift):
    def fn(h):
        from wam2layers.tracking.core import stabilize_fluxes

        from .common import Cfg, Quiet, ds, grid, vals
        lat, lon = grid(*shape)
        names = ["fx_upper", "fy_upper", "fx_lower", "fy_lower"]
        f = {n: h.array(n, shape, nice=(-1e8, 1e8)) for n in names}
        s = {n: h.array(n, shape, lo=0, strict=True, nice=(1, 30)) for n in ("s_upper", "s_lower")}
        for n in names:
            h.assume(f[n] != 0)
        dt = h.integer("dt", 1, 3600)
        res = []
        for k in (0, shift):
            F = ds(lat, lon, **{n: np.roll(v, k, axis=1) for n, v in f.items()})
            S = ds(lat, lon, **{n: np.roll(v, k, axis=1) for n, v in s.items()})
            stabilize_fluxes(F, S, Quiet(), Cfg(timestep=dt), None)
            res.append({n: vals(F[n]) for n in names})
        for n in names:
            h.eq(n, res[1][n], np.roll(res[0][n], shift, axis=1), tol=1e-6)
        h.reach()
    return fn


SCENARIOS = [Scenario(f"{d}-3x{n}-by{k}", make(d, (3, n), k), f"3x{n} grid rolled by {k}",
                      thorough_only=t)
             for d in ("backward", "forward") for n, k, t in ((3, 1, False), (4, 1, False), (5, 2, True))]
SCENARIOS.append(Scenario("stabilisation", stab((3, 4), 1), "3x4 grid rolled by 1"))
ASSUMPTIONS = ["machine floats are read as real numbers", "total moisture of every cell is positive",
               "the vertical flux is an input of the step (its closure uses one-sided differences at the rim)"]
