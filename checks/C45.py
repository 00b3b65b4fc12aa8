"""C45: fluxes at cell interfaces are the mean of the two cells they separate."""
from engine.runner import Scenario


def make(shape, periodic):
    def fn(h):
        from wam2layers.utils.grid import get_boundary, stagger_x, stagger_y
        M, N = shape
        f = h.array("f", shape)
        x, y = stagger_x(f, periodic), stagger_y(f, periodic)
        h.true("shape x", tuple(x.shape) == (M - 2, N + 1 if periodic else N - 1))
        h.true("shape y", tuple(y.shape) == (M - 1, N if periodic else N - 2))
        for j in range(M - 2):
            for i in range(x.shape[1]):
                a, b = (i - 1, i) if periodic else (i, i + 1)
                h.eq(f"x[{j},{i}]", x[j, i], (f[j + 1, a % N] + f[j + 1, b % N]) / 2)
        for j in range(M - 1):
            for i in range(y.shape[1]):
                k = i if periodic else i + 1
                h.eq(f"y[{j},{i}]", y[j, i], (f[j, k] + f[j + 1, k]) / 2)
        b = get_boundary(f, periodic)
        for j in range(M):
            for i in range(N):
                rim = j in (0, M - 1) or (not periodic and i in (0, N - 1))
                h.true(f"rim[{j},{i}]", b[j, i] == rim)
        h.reach()
    return fn


SCENARIOS = [Scenario(f"{'periodic' if p else 'closed'}-{m}x{n}", make((m, n), p), f"{m}x{n} grid",
                      thorough_only=t)
             for p in (False, True) for m, n, t in ((3, 3, False), (4, 5, False), (7, 8, True))]
ASSUMPTIONS = ["machine floats are read as real numbers"]
