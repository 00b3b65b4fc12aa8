"""C05: attributed moisture is never negative and never more than what evaporated / rained."""
from engine.runner import Scenario

from .common import Step


def make(direction, shape, periodic):
    def fn(h):
        st = Step(h, direction, *shape, periodic=periodic, acc0=True)
        out = st.run()
        for j, i in st.cells():
            d = {k: out[k][j, i] - st.acc0[k][j, i] for k in st.acc0}
            evap, precip = st.F["evap"][j, i] * st.dt, st.F["precip"][j, i] * st.dt
            if direction == "backward":
                h.ge(f"e_track>=0[{j},{i}]", d["e_track"], 0, tol=1e-9)
                h.le(f"e_track<=evap[{j},{i}]", d["e_track"], evap, tol=1e-9)
                h.eq(f"tagged_precip[{j},{i}]", d["tagged_precip"], st.m(j, i) * precip)
            else:
                s0u, s0l = st.S0["s_upper"][j, i], st.S0["s_lower"][j, i]
                for l, s in (("upper", s0u), ("lower", s0l)):
                    h.ge(f"p_track_{l}>=0[{j},{i}]", d["p_track_" + l], 0, tol=1e-9)
                    h.le(f"p_track_{l}<=share[{j},{i}]", d["p_track_" + l],
                         precip * s / (s0u + s0l), tol=1e-9)
                h.eq(f"tagged_evap[{j},{i}]", d["tagged_evap"], st.m(j, i) * evap)
        h.reach()
    return fn


SCENARIOS = []
for d in ("backward", "forward"):
    SCENARIOS += [
        Scenario(f"{d}-closed-3x3", make(d, (3, 3), False), "3x3 grid, one step"),
        Scenario(f"{d}-periodic-3x4", make(d, (3, 4), True), "3x4 grid, periodic, one step"),
        Scenario(f"{d}-closed-5x6", make(d, (5, 6), False), "5x6 grid, one step", thorough_only=True),
    ]
ASSUMPTIONS = ["machine floats are read as real numbers", "total moisture of every cell is positive",
               "evaporation and precipitation are non-negative, the tagging mask is between 0 and 1"]
