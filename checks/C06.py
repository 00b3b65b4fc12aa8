"""C06: one step solves the published forward / backward tracking equations in both layers."""
from engine.runner import Scenario

from .common import Step, raw_update


def make(direction, shape, periodic, dlon=2.0):
    def fn(h):
        st = Step(h, direction, *shape, periodic=periodic, dlon=dlon)
        out = st.run()
        new = raw_update(h, st)
        for j, i in st.cells(interior=True):
            tu, tl = (st.total_to["s_" + l][j, i] for l in ("upper", "lower"))
            ru, rl = new["upper"][j][i], new["lower"][j][i]
            ok = h.land(ru >= 0, ru <= tu, rl >= 0, rl <= tl)  # no limit is hit
            for l, r in (("upper", ru), ("lower", rl)):
                got = out[f"s_track_{l}_restart"][j, i]
                h.eq(f"{l}[{j},{i}]", h.ite(ok, got, 0), h.ite(ok, r, 0), tol=1e-6)
            h.eq(f"no loss[{j},{i}]", h.ite(ok, out["losses"][j, i], 0), 0, tol=1e-6)
            h.eq(f"no gain[{j},{i}]", h.ite(ok, out["gains"][j, i], 0), 0, tol=1e-6)
        h.reach()
    return fn


SCENARIOS = []
for d in ("backward", "forward"):
    SCENARIOS += [
        Scenario(f"{d}-closed-3x3", make(d, (3, 3), False), "3x3 grid, one step"),
        Scenario(f"{d}-periodic-3x3", make(d, (3, 3), True), "3x3 grid, periodic, one step"),
        Scenario(f"{d}-closed-5x4", make(d, (5, 4), False, 3.0), "5x4 grid of 2x3 degrees",
                 thorough_only=True),
        Scenario(f"{d}-periodic-4x4", make(d, (4, 4), True), "4x4 grid, periodic", thorough_only=True),
    ]
ASSUMPTIONS = ["machine floats are read as real numbers", "total moisture of every cell is positive",
               "the vertical flux is an input of the step here (C09 decides it)"]
