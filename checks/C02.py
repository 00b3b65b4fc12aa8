"""C02: horizontal transport only moves moisture: nothing is created or destroyed."""
from engine.runner import Scenario


def make(shape, periodic):
    def fn(h):
        from wam2layers.tracking.core import horizontal_advection
        from wam2layers.utils.grid import stagger_x, stagger_y
        M, N = shape
        fx = h.array("fx", (M, N), nice=(-5, 5))
        fy = h.array("fy", (M, N), nice=(-5, 5))
        s = h.array("s", (M, N), lo=0, hi=1)
        for sign, lab in ((1, "forward"), (-1, "backward")):
            u = sign * stagger_x(fx, periodic)
            v = sign * stagger_y(fy, periodic)
            g = horizontal_advection(s, u, v, periodic)
            h.true(f"{lab}.shape", tuple(g.shape) == (M, N))
            tot = 0
            for j in range(M):
                for i in range(N):
                    tot = tot + g[j, i]
            h.eq(f"{lab}.total", tot, 0, tol=1e-9, scale=1e3)
            # corners exchange nothing when the domain is closed
            if not periodic:
                for j in (0, M - 1):
                    for i in (0, N - 1):
                        h.eq(f"{lab}.corner", g[j, i], 0)
        h.reach()
    return fn


SCENARIOS = [
    Scenario("closed-3x3", make((3, 3), False), "3x3 grid, closed boundary"),
    Scenario("closed-4x4", make((4, 4), False), "4x4 grid, closed boundary"),
    Scenario("periodic-3x3", make((3, 3), True), "3x3 grid, periodic"),
    Scenario("periodic-4x4", make((4, 4), True), "4x4 grid, periodic"),
    Scenario("closed-6x6", make((6, 6), False), "6x6 grid, closed", thorough_only=True),
    Scenario("periodic-6x6", make((6, 6), True), "6x6 grid, periodic", thorough_only=True),
]
ASSUMPTIONS = ["machine floats are read as real numbers"]
