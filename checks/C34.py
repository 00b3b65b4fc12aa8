"""C34: surface humidity follows from dew point and surface pressure by the documented saturation formula."""
import math

from engine import timesym as T
from engine.runner import Scenario

from .raw import HOUR, arco, era5, load, val


def make(source):
    def fn(h):
        secs = [0, HOUR]
        k = h.choice("time", secs)
        cm = era5(h, "pressure_levels", secs, (500, 850), 1, 2) if source == "ERA5" else arco(h, secs, (500, 850), 1, 2)
        with cm as (raw, cfg, tmp, vfs):
            data = load(source, T.real_time(k, raw.calendar), cfg)
        q = val(data, "qs")
        eps = 287.0597 / 461.5250
        for i in range(2):
            t, p = raw.at("d2m", k)[0, i], raw.at("sp", k)[0, i]
            e = 611.21 * math.exp(17.502 * (t - 273.15) / (t - 32.19))
            h.assume(e < 0.5 * p)
            h.eq(f"humidity[{i}]", q[0, i] * (p - (1 - eps) * e), eps * e, tol=1e-9)
            h.true(f"positive[{i}]", q[0, i] > 0)
            h.true(f"below one[{i}]", q[0, i] < 1)
        a, b = [(raw.at("d2m", k)[0, i], raw.at("sp", k)[0, i], q[0, i]) for i in range(2)]
        h.true("moister with a higher dew point", h.implies(h.land(a[0] < b[0], a[1] == b[1]), a[2] <= b[2]))
        h.true("moister with less pressure", h.implies(h.land(a[0] == b[0], a[1] > b[1]), a[2] <= b[2]))
        h.reach()
    return fn


SCENARIOS = [Scenario("era5", make("ERA5"), "2 times, 1x2 cells, any dew point from 200 to 320 K and surface pressure"),
             Scenario("arco", make("ARCO"), "2 times, 1x2 cells, any dew point from 200 to 320 K and surface pressure")]
ASSUMPTIONS = ["saturation pressure below half of the surface pressure",
               "the exponential function is known only as positive, increasing and above its tangent at 0"]
OUTSIDE = "the rounding of the exponential function"
