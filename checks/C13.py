"""C13: a run covers its window in consecutive steps, each with the data of the right instants."""
from engine.runner import Scenario

from .runs import recorded_run

DAY = 86400


def make(direction, K, freq="1D"):
    def fn(h):
        start = h.integer("start", 0, 40 * DAY)
        length = h.integer("length", 0, 20 * DAY)
        dt = h.integer("timestep", 1, 6 * 3600)
        h.assume(length < (K + 1) * dt)
        end = start + length
        tag = (h.instant(start - 10 * DAY), h.instant(start - 9 * DAY))
        with recorded_run(h, direction, timestep=dt, output_frequency=freq,
                          tracking_start_date=h.instant(start), tracking_end_date=h.instant(end),
                          tagging_start_date=tag[0], tagging_end_date=tag[1]) as run:
            rec = run()
        n = len(rec.steps)
        h.le("stays in the window", n * dt, length)
        h.true("covers the window", (n + 1) * dt > length)
        for k, s in enumerate(rec.steps):
            if direction == "backward":
                s1, s0 = end - k * dt, end - (k + 1) * dt
            else:
                s0, s1 = start + k * dt, start + (k + 1) * dt
            h.eq(f"state at the end of step {k}", s["S1"], s1, tol=1e-9, scale=1e-3)
            h.eq(f"state at the start of step {k}", s["S0"], s0, tol=1e-9, scale=1e-3)
            h.eq(f"flux at the middle of step {k}", 2 * s["F"], s0 + s1, tol=1e-9, scale=1e-3)
        h.reach()
    return fn


SCENARIOS = [Scenario(f"{d}-{k}-steps", make(d, k), f"windows of up to {k} steps, any start, length and timestep",
                      thorough_only=t)
             for d in ("backward", "forward") for k, t in ((3, False), (6, True))]
ASSUMPTIONS = ["whole seconds", "the calendar turns texts into instants and back exactly (library)"]
OUTSIDE = "more steps than the bound; the steps themselves (C01-C12) and the reading of the data (C17) are recorded, not run"
