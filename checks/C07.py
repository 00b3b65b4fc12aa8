"""C07: vertical exchange takes from one layer what it gives to the other, from the donor layer."""
from engine.runner import Scenario

from .common import Step


def functions(h):
    from wam2layers.tracking.core import vertical_advection, vertical_dispersion
    sh = (3, 4)
    fv = h.array("fv", sh)
    lo = h.array("lo", sh, lo=0, hi=1)
    up = h.array("up", sh, lo=0, hi=1)
    kvf = h.real("kvf", 0, nice=(0, 5))
    va = vertical_advection(fv, lo, up)
    vb = vertical_advection(-fv, lo, up)
    vd = vertical_dispersion(fv, lo, up, kvf)
    vd2 = vertical_dispersion(-fv, lo, up, kvf)
    for j in range(3):
        for i in range(4):
            f = fv[j, i]
            h.eq("upwind", va[j, i], h.ite(f >= 0, f * up[j, i], f * lo[j, i]))
            h.eq("reversed", vb[j, i], h.ite(f <= 0, -f * up[j, i], -f * lo[j, i]))
            h.eq("dispersion", vd[j, i], kvf * h.abs(f) * (up[j, i] - lo[j, i]))
            h.eq("dispersion does not depend on the direction", vd[j, i], vd2[j, i])
            # mixing never increases the difference between the layers
            h.ge("down gradient", vd[j, i] * (up[j, i] - lo[j, i]), 0, tol=1e-9)
    h.reach()


def step(direction):
    def fn(h):
        # only vertical fluxes: no horizontal transport, sources or tagging
        st = Step(h, direction, 3, 3, sources=False, tag=False, fluxes=False)
        st.F["f_vert"] = h.array("fv", (3, 3), nice=(-0.01, 0.01))
        out = st.run()
        j, i = 1, 1
        nu, nl = (out[f"s_track_{l}_restart"][j, i] for l in ("upper", "lower"))
        before = st.track0["upper"][j, i] + st.track0["lower"][j, i]
        h.eq("exchange only", nu + nl + out["losses"][j, i] - out["gains"][j, i], before, tol=1e-6)
        # nothing tracked anywhere moves nothing; equal shares do not mix by dispersion
        fv = st.F["f_vert"][j, i] * (-1 if direction == "backward" else 1)
        tot = st.total_from
        ru = h.min(st.track0["upper"][j, i] / tot["s_upper"][j, i], 1.0)
        rl = h.min(st.track0["lower"][j, i] / tot["s_lower"][j, i], 1.0)
        down = h.ite(fv >= 0, fv * ru, fv * rl) + st.kvf * h.abs(fv) * (ru - rl)
        rawl = st.track0["lower"][j, i] + st.dt * down
        rawu = st.track0["upper"][j, i] - st.dt * down
        ok = h.land(rawl >= 0, rawl <= st.total_to["s_lower"][j, i], rawu >= 0,
                    rawu <= st.total_to["s_upper"][j, i])
        h.eq("lower", h.ite(ok, nl, 0), h.ite(ok, rawl, 0), tol=1e-6)
        h.eq("upper", h.ite(ok, nu, 0), h.ite(ok, rawu, 0), tol=1e-6)
        h.reach()
    return fn


SCENARIOS = [
    Scenario("functions", functions, "any vertical flux, shares and mixing factor, 3x4 cells"),
    Scenario("backward-step", step("backward"), "3x3 grid, only vertical fluxes"),
    Scenario("forward-step", step("forward"), "3x3 grid, only vertical fluxes"),
]
ASSUMPTIONS = ["machine floats are read as real numbers"]
