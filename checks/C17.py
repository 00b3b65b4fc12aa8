"""C17: data for any instant is read from that day's file, or interpolated linearly between its neighbours."""
import numpy as np

from engine.runner import Scenario

from .common import grid
from .files import DAY, FLUX, STATE, Preprocessed, scratch
from .runs import make_config


def make(freqs, subset, calendar="standard", lo=0, hi=3 * DAY - 1):
    def fn(h):
        from wam2layers.tracking.io import load_data
        freq, f = h.choice("freq", freqs)
        t = h.integer("t", lo, hi)
        lat, lon = grid(2, 2)
        with scratch(h) as (tmp, vfs):
            cfg = make_config(h, "backward", tmp, input_frequency=freq, calendar=calendar)
            pre = Preprocessed(h, cfg.preprocessed_data_folder, f, lat, lon, range(-1, 5), calendar,
                               names=FLUX + STATE)
            if vfs is not None:
                vfs.openers.append(pre.open)
            r = load_data(h.instant(t, calendar), cfg, subset)
            names = STATE if subset == "states" else FLUX
            t0 = h.floor(t, f)
            t1 = h.ite(t0 == t, t0, t0 + f)
            w = (t - t0) / f
            for n in names:
                v = r[n].transpose("latitude", "longitude").variable._data
                for j in range(2):
                    for i in range(2):
                        a, b = pre.value(n, t0, j, i), pre.value(n, t1, j, i)
                        h.eq(f"{n}[{j},{i}]", v[j, i], a + w * (b - a), tol=1e-5)
            h.true("coordinates", bool(np.array_equal(r["latitude"].values, lat)
                                       and np.array_equal(r["longitude"].values, lon)))
            h.reach()
    return fn


Q = [("6h", 6 * 3600), ("12h", 12 * 3600), ("1D", DAY)]
ALL = [("1h", 3600), ("3h", 3 * 3600)] + Q
SCENARIOS = [Scenario(f"{s}-{c}", make(Q, s, c), f"any instant of 3 days; input every 6 h, 12 h, 1 day; {c} calendar")
             for s, c in (("states", "standard"), ("fluxes", "noleap"))] + \
            [Scenario("half-hourly", make([("30min", 1800)], "states", "standard", DAY - 3600, DAY + 3600),
                      "any instant within an hour of midnight; input every 30 min")] + \
            [Scenario(f"{s}-deep", make(ALL, s), "any instant of 3 days; input every 1, 3, 6, 12, 24 h", thorough_only=True)
             for s in ("states", "fluxes")]
ASSUMPTIONS = ["whole seconds", "the fields are arbitrary functions of time; the daily files hold them at every multiple "
               "of the input frequency", "xarray finds a time coordinate by its text form (library)"]
OUTSIDE = "other input frequencies; reading through OpenDAP and its retries"
