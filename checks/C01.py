"""C01: horizontal transport is the documented donor-cell (upwind) scheme, in every cell."""
import numpy as np

from engine.runner import Scenario


def make(shape, periodic):
    def fn(h):
        from wam2layers.tracking.core import horizontal_advection
        M, N = shape
        s = h.array("s", (M, N), nice=(0, 1))
        if periodic:
            u = h.array("u", (M - 2, N + 1), nice=(-5, 5))
            v = h.array("v", (M - 1, N), nice=(-5, 5))
        else:
            u = h.array("u", (M - 2, N - 1), nice=(-5, 5))
            v = h.array("v", (M - 1, N - 2), nice=(-5, 5))
        if periodic:
            for j in range(M - 2):
                h.assume(u[j, 0] == u[j, N])
        got = horizontal_advection(s, u, v, periodic)
        h.true("shape", tuple(got.shape) == (M, N))
        # reference: face by face bookkeeping of what leaves and what arrives
        ref = [[0 for _ in range(N)] for _ in range(M)]
        for j in range(1, M - 1):
            faces = range(N) if periodic else range(1, N)
            for k in faces:  # face between cell k-1 and k
                w, e = (k - 1) % N, k % N
                f = u[j - 1, k] if periodic else u[j - 1, k - 1]
                flow = h.ite(f > 0, f * s[j, w], f * s[j, e])
                ref[j][w] = ref[j][w] - flow
                ref[j][e] = ref[j][e] + flow
        cols = range(N) if periodic else range(1, N - 1)
        for j in range(1, M):  # face between row j-1 (north) and j (south)
            for i in cols:
                f = v[j - 1, i] if periodic else v[j - 1, i - 1]
                flow = h.ite(f > 0, f * s[j, i], f * s[j - 1, i])
                ref[j][i] = ref[j][i] - flow
                ref[j - 1][i] = ref[j - 1][i] + flow
        for j in range(M):
            for i in range(N):
                h.eq(f"cell[{j},{i}]", got[j, i], ref[j][i])
        h.reach()
    return fn


SCENARIOS = [
    Scenario("closed-3x3", make((3, 3), False), "3x3 grid, closed boundary, any real s, u, v"),
    Scenario("closed-4x5", make((4, 5), False), "4x5 grid, closed boundary, any real s, u, v"),
    Scenario("periodic-3x3", make((3, 3), True), "3x3 grid, periodic"),
    Scenario("periodic-4x5", make((4, 5), True), "4x5 grid, periodic"),
    Scenario("closed-6x7", make((6, 7), False), "6x7 grid, closed", thorough_only=True),
    Scenario("periodic-6x8", make((6, 8), True), "6x8 grid, periodic", thorough_only=True),
]
ASSUMPTIONS = ["machine floats are read as real numbers"]
