"""C16: a run that is split at an output time and restarted gives the same output files as the whole run."""
import xarray as xr

from engine.runner import Scenario

from .files import DAY, get, scratch
from .runs import ACC, cell, field, recorded_run

HOUR = 3600


def make(direction, K, freqs):
    def fn(h):
        from wam2layers.tracking.io import output_path
        freq, fs = h.choice("freq", freqs)
        dt = h.choice("timestep", [fs // 2, fs])
        n = h.choice("steps", list(range(2, K + 1)))
        cut = h.choice("cut", list(range(1, K)))
        h.assume(cut < n)
        start = fs * h.integer("start", 0, 5 * DAY // fs) + 60 * h.integer("offset", 0, fs // 60 - 1)
        end = start + n * dt
        names = ACC[direction]
        back = direction == "backward"
        mid = end - cut * dt if back else start + cut * dt
        h.assume(h.floor(mid, fs) == mid)

        def window(a, b, **kw):
            def step(rec, k, out):
                t = rec.steps[k]["S1"]
                su, sl = cell(out["s_track_upper_restart"]), cell(out["s_track_lower_restart"])
                for a in names:
                    out[a] += xr.DataArray(field(h, h.uf(a, t, su, sl)), dims=("latitude", "longitude"))
                out["s_track_upper_restart"].values = field(h, h.uf("upper", t, su, sl))
                out["s_track_lower_restart"].values = field(h, h.uf("lower", t, su, sl))
            return recorded_run(h, direction, step=step, real=("write",), timestep=dt, output_frequency=freq,
                                tracking_start_date=h.instant(a), tracking_end_date=h.instant(b),
                                tagging_start_date=h.instant(a), tagging_end_date=h.instant(a), **kw)

        with scratch(h) as (tmp, vfs):
            with window(start, end, output_folder=tmp / "whole") as run:
                (tmp / "whole").mkdir()
                run()
                whole = run.cfg
            parts = [(mid, end), (start, mid)] if back else [(start, mid), (mid, end)]
            (tmp / "parts").mkdir()
            for p, (a, b) in enumerate(parts):
                with window(a, b, output_folder=tmp / "parts", restart=p == 1) as run:
                    rec = run()
                    split = run.cfg
                    h.true(f"steps of part {p}", len(rec.steps) == (cut if p == 0 else n - cut))
            for k in range(1, n + 1):
                t = end - k * dt if back else start + k * dt
                due = (h.floor(t, fs) == t) if k < n else True
                if not due:
                    continue
                w = get(h, vfs, output_path(h.instant(t), whole))
                s = get(h, vfs, output_path(h.instant(t), split))
                for v in names + ["s_track_upper_restart", "s_track_lower_restart"]:
                    h.eq(f"{v} in the file after step {k}", cell(s[v]), cell(w[v]), tol=1e-4)
            h.reach()
    return fn


Q = [("1D", DAY), ("6h", 6 * HOUR)]
SCENARIOS = [Scenario(f"{d}-{k}-steps", make(d, k, Q), f"up to {k} steps of a whole or half output interval, cut at any "
                      "output time; any start (whole minutes); the step is an arbitrary function of time and state",
                      thorough_only=t)
             for d in ("backward", "forward") for k, t in ((3, False), (5, True))]
ASSUMPTIONS = ["the cut is at an output time of the whole run", "whole minutes (file names have no seconds)",
               "storing as 32-bit float is read as exact"]
OUTSIDE = "the NetCDF library; runs in which the restart has other settings"
