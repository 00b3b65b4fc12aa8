"""C04: tracked moisture stays between zero and the moisture there is; the rim is emptied."""
from engine.runner import Scenario

from .common import Step


def make(direction, shape, periodic):
    def fn(h):
        st = Step(h, direction, *shape, periodic=periodic)
        out = st.run()
        for l in ("upper", "lower"):
            new = out[f"s_track_{l}_restart"]
            for j, i in st.cells():
                h.ge(f"nonnegative.{l}[{j},{i}]", new[j, i], 0, tol=1e-9)
                h.le(f"below total.{l}[{j},{i}]", new[j, i], st.total_to["s_" + l][j, i], tol=1e-9)
            for j, i in st.cells(interior=False):
                # nothing of what was advected into the rim stays tracked
                h.eq(f"rim.{l}[{j},{i}]", new[j, i], 0)
        for j, i in st.cells():
            h.ge(f"losses[{j},{i}]", out["losses"][j, i], 0, tol=1e-9) if not st.boundary(j, i) else None
            h.ge(f"gains[{j},{i}]", out["gains"][j, i], 0, tol=1e-9)
        h.reach()
    return fn


SCENARIOS = []
for d in ("backward", "forward"):
    SCENARIOS += [
        Scenario(f"{d}-closed-3x3", make(d, (3, 3), False), "3x3 grid, one step"),
        Scenario(f"{d}-closed-4x4", make(d, (4, 4), False), "4x4 grid, one step"),
        Scenario(f"{d}-periodic-3x3", make(d, (3, 3), True), "3x3 grid, periodic, one step"),
        Scenario(f"{d}-closed-5x6", make(d, (5, 6), False), "5x6 grid, one step", thorough_only=True),
        Scenario(f"{d}-periodic-4x5", make(d, (4, 5), True), "4x5 grid, periodic", thorough_only=True),
    ]
ASSUMPTIONS = ["machine floats are read as real numbers", "total moisture of every cell is positive"]
