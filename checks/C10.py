"""C10: without tagging and without tracked moisture nothing is attributed anywhere."""
from engine.runner import Scenario

from .common import Step


def make(direction, shape, periodic, maskfield):
    def fn(h):
        sh = shape
        mask = h.const_array(sh, 0) if maskfield else 0
        st = Step(h, direction, *shape, periodic=periodic, track=False, tagmask=mask, acc0=True)
        out = st.run()
        for j, i in st.cells():
            for l in ("upper", "lower"):
                h.eq(f"{l}[{j},{i}]", out[f"s_track_{l}_restart"][j, i], 0)
            for n in st.names:
                h.eq(f"{n}[{j},{i}]", out[n][j, i], st.acc0[n][j, i])
        h.reach()
    return fn


def untagged(direction, periodic):
    """tagging off: what is attributed comes out of what was tracked before"""
    def fn(h):
        st = Step(h, direction, 3, 3, periodic=periodic, tagmask=0)
        out = st.run()
        for j, i in st.cells():
            if direction == "backward":
                h.eq(f"no tag[{j},{i}]", out["tagged_precip"][j, i], 0)
                h.le(f"bounded[{j},{i}]", out["e_track"][j, i],
                     st.F["evap"][j, i] * st.dt * st.track0["lower"][j, i] / st.S1["s_lower"][j, i])
            else:
                h.eq(f"no tag[{j},{i}]", out["tagged_evap"][j, i], 0)
                col = st.S0["s_upper"][j, i] + st.S0["s_lower"][j, i]
                for l in ("upper", "lower"):
                    h.le(f"bounded.{l}[{j},{i}]", out["p_track_" + l][j, i],
                         st.F["precip"][j, i] * st.dt * st.track0[l][j, i] / col)
        h.reach()
    return fn


SCENARIOS = []
for d in ("backward", "forward"):
    SCENARIOS += [
        Scenario(f"{d}-closed-3x3", make(d, (3, 3), False, False), "3x3 grid, scalar zero mask"),
        Scenario(f"{d}-closed-4x4-field", make(d, (4, 4), False, True), "4x4 grid, mask field of zeros"),
        Scenario(f"{d}-periodic-3x3", make(d, (3, 3), True, True), "3x3 grid, periodic"),
        Scenario(f"{d}-untagged", untagged(d, False), "3x3 grid, any tracked moisture, no tagging"),
        Scenario(f"{d}-untagged-periodic", untagged(d, True), "3x3 periodic, any tracked moisture",
                 thorough_only=True),
    ]
ASSUMPTIONS = ["machine floats are read as real numbers", "total moisture of every cell is positive"]
