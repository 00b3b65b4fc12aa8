"""C15: output is written at every output time and at the end, and nothing is lost between files."""
import xarray as xr

from engine.runner import Scenario

from .runs import ACC, field, recorded_run

HOUR = 3600


def make(direction, K, freqs):
    def fn(h):
        freq, fs = h.choice("freq", freqs)
        dt = h.integer("timestep", 60, 6 * HOUR)
        n = h.choice("steps", list(range(1, K + 1)))
        start = h.integer("start", 0, 3 * 24 * HOUR)
        slack = h.integer("slack", 0, 6 * HOUR)  # window longer than a whole number of steps
        h.assume(slack < dt)
        end = start + n * dt + slack
        names = ACC[direction]
        amt = [{a: h.real(f"{a}{k}", 0, nice=(0, 5)) for a in names} for k in range(n)]
        st = [{l: h.real(f"s_{l}{k}", 0, nice=(0, 5)) for l in ("upper", "lower")} for k in range(n)]

        def step(rec, k, out):
            k = min(k, n - 1)
            for a in names:
                out[a] += xr.DataArray(field(h, amt[k][a]), dims=("latitude", "longitude"))
            for l in ("upper", "lower"):
                out[f"s_track_{l}_restart"].values = field(h, st[k][l])

        with recorded_run(h, direction, step=step, timestep=dt, output_frequency=freq,
                          tracking_start_date=h.instant(start), tracking_end_date=h.instant(end),
                          tagging_start_date=h.instant(start), tagging_end_date=h.instant(start)) as run:
            rec = run()
        h.true("all steps", len(rec.steps) == n)
        w = {x["after"]: x for x in rec.writes}
        h.true("one file per time", len(w) == len(rec.writes))
        acc = {a: 0 for a in names}
        for k in range(n):
            t = end - (k + 1) * dt if direction == "backward" else start + (k + 1) * dt
            due = (h.floor(t, fs) == t) if k < n - 1 else True
            wrote = (k + 1) in w
            h.true(f"written exactly when due, step {k}", due if wrote else h.lnot(due))
            for a in names:
                acc[a] = acc[a] + amt[k][a]
            if wrote:
                o = w[k + 1]
                h.eq(f"time of the file after step {k}", o["t"], t, tol=1e-9, scale=1e-3)
                for a in names:
                    h.eq(f"{a} in the file after step {k}", o["fields"][a], acc[a], tol=1e-5)
                    acc[a] = 0
                for l in ("upper", "lower"):
                    h.eq(f"state {l} in the file after step {k}", o["fields"][f"s_track_{l}_restart"],
                         st[k][l], tol=1e-5)
        h.reach()
    return fn


F = [("1D", 86400), ("6h", 6 * HOUR), ("1h", HOUR), ("10min", 600)]
SCENARIOS = [Scenario(f"{d}-{k}-steps", make(d, k, F), f"up to {k} steps, any start, timestep and amounts; "
                      "output every 10 min, 1 h, 6 h, 1 day", thorough_only=t)
             for d in ("backward", "forward") for k, t in ((3, False), (5, True))]
ASSUMPTIONS = ["whole seconds", "the writing of one file is C46"]
OUTSIDE = "more steps than the bound; output frequencies other than the listed ones"
