"""C14: tagging happens exactly in the steps whose reference time lies in the tagging window."""
import numpy as np

from engine.runner import Scenario

from .runs import NX, NY, recorded_run

DAY = 86400
REGION = np.array([[1, 1, 0]] * 3)  # cells of the test grid inside the configured box


def make(direction, K):
    def fn(h):
        start = h.integer("start", 0, 3 * DAY)
        dt = h.integer("timestep", 60, 3600)
        n = h.choice("steps", list(range(1, K + 1)))
        end = start + n * dt
        ts = h.integer("tag_start", -DAY, 5 * DAY)
        te = h.integer("tag_end", -DAY, 5 * DAY)
        h.assume(ts <= te)
        with recorded_run(h, direction, timestep=dt, output_frequency="1D",
                          tracking_start_date=h.instant(start), tracking_end_date=h.instant(end),
                          tagging_start_date=h.instant(ts), tagging_end_date=h.instant(te)) as run:
            rec = run()
        h.true("all steps", len(rec.steps) == n)
        for k, s in enumerate(rec.steps):
            ref = end - k * dt if direction == "backward" else start + k * dt
            active = h.land(ts <= ref, ref <= te)
            m = s["mask"]
            m = np.broadcast_to(np.asarray(getattr(m, "values", m)), (NY, NX))
            for j in range(NY):
                for i in range(NX):
                    h.eq(f"step {k} cell [{j},{i}]", float(m[j, i]), h.ite(active, float(REGION[j, i]), 0.0))
        h.reach()
    return fn


SCENARIOS = [Scenario(f"{d}-{k}-steps", make(d, k), f"up to {k} steps, any window, timestep and tagging window",
                      thorough_only=t)
             for d in ("backward", "forward") for k, t in ((3, False), (5, True))]
ASSUMPTIONS = ["whole seconds", "a region given as a box"]
OUTSIDE = "more steps than the bound; regions that change in time (C19)"
