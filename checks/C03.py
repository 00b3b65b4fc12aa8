"""C03: every tracking step closes the moisture ledger of every grid cell."""
from engine.runner import Scenario

from .common import Step, areas, donor_cell, face_fluxes, relative


def make(direction, shape, periodic, exact=False):
    def fn(h):
        st = Step(h, direction, *shape, periodic=periodic)
        out = st.run()
        a = areas(st.lat, 2.0, 2.0)
        rel = relative(h, st)
        adv = {}
        sign = -1 if direction == "backward" else 1
        for l in ("upper", "lower"):
            w, s = face_fluxes(st.F["fx_" + l], st.F["fy_" + l], periodic)
            adv[l] = donor_cell(h, rel[l], w, s, st.ny, st.nx, sign)
        for j, i in st.cells():
            moved = st.dt * ((adv["lower"][j][i] + adv["upper"][j][i]) / a[j])
            before = st.track0["lower"][j, i] + st.track0["upper"][j, i]
            after = out["s_track_lower_restart"][j, i] + out["s_track_upper_restart"][j, i]
            if direction == "backward":
                tagged = out["tagged_precip"][j, i]
                tracked = out["e_track"][j, i]
            else:
                tagged = out["tagged_evap"][j, i]
                tracked = out["p_track_lower"][j, i] + out["p_track_upper"][j, i]
            h.eq(f"ledger[{j},{i}]", after,
                 before + moved + tagged - tracked - out["losses"][j, i] + out["gains"][j, i],
                 tol=1e-6, scale=10)
        h.reach()
    return fn


SCENARIOS = []
for d in ("backward", "forward"):
    SCENARIOS += [
        Scenario(f"{d}-closed-3x3", make(d, (3, 3), False), "3x3 grid, one step"),
        Scenario(f"{d}-periodic-3x3", make(d, (3, 3), True), "3x3 grid, periodic, one step"),
        Scenario(f"{d}-closed-5x4", make(d, (5, 4), False), "5x4 grid, one step", thorough_only=True),
        Scenario(f"{d}-periodic-4x5", make(d, (4, 5), True), "4x5 grid, periodic", thorough_only=True),
    ]
ASSUMPTIONS = ["machine floats are read as real numbers", "total moisture of every cell is positive"]
