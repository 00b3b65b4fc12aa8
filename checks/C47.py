"""C47: every step of a run gets side-integrated, limited fluxes and the vertical flux that belongs to them."""
import numpy as np

from engine.runner import Scenario

from .common import ds, grid
from .runs import NX, NY, field, recorded_run

DAY = 86400
FLUXES = ("fx_upper", "fx_lower", "fy_upper", "fy_lower")
STATES = ("s_upper", "s_lower")


def raw(x):
    return x.variable._data.copy() if hasattr(x, "variable") else np.array(x, copy=True)


def make(direction, K, cells, periodic=False, calendar="standard"):
    def fn(h):
        from wam2layers.utils.grid import get_grid_info
        lat, lon = grid(NY, NX, dlat=2.0, dlon=1.0, lat0=50.0)
        dt, start = h.choice("timestep", [600, 1800, 5400]), 10 * DAY
        end = start + K * dt
        kvf = h.real("kvf", 0, 10, nice=(0, 5))
        fields, limited, vert = {}, [], []

        def free(name, lo, hi):
            a = field(h, 0.0)
            for j, i in cells:
                a[j, i] = h.real(f"{name}[{j},{i}]", lo, hi)
            return a

        def load(subset, sec):
            out = {}
            for n in STATES if subset == "states" else FLUXES + ("evap", "precip"):
                key = f"{n}@{int(round((sec - start) * 2))}"
                if key not in fields:
                    fields[key] = free(key, *((1, 50) if n[0] == "s" else (-1e4, 1e4) if n[0] == "f" else (0, 0.01)))
                out[n] = fields[key].copy()
            return ds(lat, lon, **out)

        def limit(F, S, config):
            """any limiter: it may give back any fluxes"""
            k = len(limited)
            new = {n: free(f"limited{k}_{n}", -1e9, 1e9) for n in FLUXES}
            limited.append(({n: raw(F[n]) for n in F.data_vars}, {n: raw(S[n]) for n in S.data_vars}, new))
            for n in FLUXES:
                F[n] = F[n] * 0.0 + ds(lat, lon, x=new[n])["x"]

        def vertical(F, S0, S1, dt, kvf):
            k = len(vert)
            new = free(f"vertical{k}", -1e3, 1e3)
            vert.append(({n: raw(F[n]) for n in F.data_vars}, {n: raw(S0[n]) for n in S0.data_vars},
                         {n: raw(S1[n]) for n in S1.data_vars}, dt, kvf, new))
            return F["evap"] * 0.0 + ds(lat, lon, x=new)["x"]

        def same(what, got, want):
            for j, i in np.ndindex(NY, NX):
                h.eq(f"{what}[{j},{i}]", got[j, i], want[j, i], tol=1e-5, scale=1e-3)

        with recorded_run(h, direction, load=load, capture=True, limit=limit, vertical=vertical, timestep=dt,
                          output_frequency="1D", kvf=kvf, periodic_boundary=periodic, calendar=calendar,
                          tracking_start_date=h.instant(start, calendar), tracking_end_date=h.instant(end, calendar),
                          tagging_start_date=h.instant(start, calendar), tagging_end_date=h.instant(end, calendar)) as run:
            rec = run()
        h.true("all steps", len(rec.steps) == K and len(limited) == K and len(vert) == K)
        _, dy, dx = get_grid_info(ds(lat, lon))
        dx = dx * np.ones((1, NX))
        for k, s in enumerate(rec.steps):
            t0 = end - (k + 1) * dt if direction == "backward" else start + k * dt
            F, S0, S1 = ({n: raw(d[n]) for n in d.data_vars} for d in (
                load("fluxes", t0 + dt / 2), load("states", t0), load("states", t0 + dt)))
            for n in FLUXES:
                F[n] = F[n] * (dy if n[1] == "x" else dx)
            arg, state, new = limited[k]
            for n in FLUXES:
                same(f"step {k}: {n} through the cell sides", arg[n], F[n])
            # the water a step can move is that of the layers it starts from
            for n in STATES:
                same(f"step {k}: {n} limiting the fluxes", state[n], (S1 if direction == "backward" else S0)[n])
            vF, v0, v1, vdt, vkvf, vnew = vert[k]
            for n in FLUXES:
                same(f"step {k}: {n} the vertical flux closes", vF[n], new[n])
            for n in ("evap", "precip"):
                same(f"step {k}: {n} in the vertical flux", vF[n], F[n])
            for n in STATES:
                same(f"step {k}: first {n} in the vertical flux", v0[n], S0[n])
                same(f"step {k}: last {n} in the vertical flux", v1[n], S1[n])
            h.eq(f"step {k}: timestep of the vertical flux", vdt, dt, tol=0)
            h.eq(f"step {k}: net-to-gross factor", vkvf, kvf, tol=1e-9)
            gF, gS1, gS0 = s["data"]
            for n in STATES:
                same(f"step {k}: {n} at the earlier time", gS0[n], S0[n])
                same(f"step {k}: {n} at the later time", gS1[n], S1[n])
            for n in FLUXES:
                same(f"step {k}: {n}", gF[n], new[n])
            for n in ("evap", "precip"):
                same(f"step {k}: {n}", gF[n], F[n])
            same(f"step {k}: vertical flux", gF["f_vert"], vnew)
        h.reach()
    return fn


ALL = [(j, i) for j in range(NY) for i in range(NX)]
SOME = [(0, 1), (1, 1), (2, 2)]
SCENARIOS = [Scenario(f"{d}-2", make(d, 2, ALL), "2 steps, all fluxes, states and sources arbitrary") for d in ("backward", "forward")] + \
            [Scenario(f"{d}-4-ring", make(d, 4, SOME, True, "noleap"), "4 steps, around the globe, three cells") for d in ("backward", "forward")] + \
            [Scenario(f"{d}-6", make(d, 6, ALL), "6 steps", thorough_only=True) for d in ("backward", "forward")]
ASSUMPTIONS = ["machine floats are read as real numbers",
               "limiter and vertical flux are replaced by arbitrary functions: what they do is C08 and C09; side lengths: C44"]
OUTSIDE = "more steps; grids other than 3 x 3"
