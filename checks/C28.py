"""C28: precipitation and evaporation: non-negative rates, dew counts as precipitation, nothing lost."""
import numpy as np

from engine import timesym as T
from engine.runner import Scenario

from .raw import HOUR, arco, cmip, era5, load, val

FREQ = [("1h", HOUR), ("3h", 3 * HOUR), ("6h", 6 * HOUR), ("30min", HOUR // 2), ("1D", 24 * HOUR)]


def check(h, data, up_m, down_m, kg, j, i, tag=""):
    """up_m: what leaves the surface (positive upward) and down_m: what rains, both times kg in kg m-2 s-1"""
    P, E = val(data, "precip")[j, i], val(data, "evap")[j, i]
    h.ge(f"precipitation is not negative{tag}[{j},{i}]", P, 0)
    h.ge(f"evaporation is not negative{tag}[{j},{i}]", E, 0)
    h.eq(f"evaporation{tag}[{j},{i}]", E, h.max(up_m, 0) * kg, tol=1e-6)
    h.eq(f"precipitation{tag}[{j},{i}]", P, (h.max(down_m, 0) + h.max(-up_m, 0)) * kg, tol=1e-6)
    h.true(f"net flux into the surface{tag}[{j},{i}]",
           h.implies(down_m >= 0, h.abs((P - E) - (down_m - up_m) * kg) <= 1e-6))


def era(level_type, levels):
    def fn(h):
        freq, fs = h.choice("frequency", FREQ)
        secs = [0, fs, 2 * fs]
        k = h.choice("time", [0, 1, 2])
        with era5(h, level_type, secs, levels, 2, 2, input_frequency=freq) as (raw, cfg, tmp, vfs):
            data = load("ERA5", T.real_time(secs[k]), cfg)
        for j in range(2):
            for i in range(2):
                # ERA5: metres of water since the previous time, evaporation negative
                check(h, data, -raw.at("e", secs[k])[j, i], raw.at("tp", secs[k])[j, i], 1000.0 / fs, j, i)
        h.reach()
    return fn


def from_arco(h):
    freq, fs = h.choice("frequency", FREQ)
    secs = [0, fs, 2 * fs]
    k = h.choice("time", [0, 1, 2])
    with arco(h, secs, (500, 850), input_frequency=freq) as (raw, cfg, tmp, vfs):
        data = load("ARCO", T.real_time(secs[k], raw.calendar), cfg)
    for j in range(2):
        for i in range(2):
            check(h, data, -raw.at("e", secs[k])[j, i], raw.at("tp", secs[k])[j, i], 1000.0 / fs, j, i)
    h.reach()


def from_cmip(files):
    def fn(h):
        secs = [6 * HOUR * k for k in range(1, 5)]
        t = h.choice("time", secs)
        with cmip(h, secs, (85000, 50000), files=files) as (raw, cfg, tmp, vfs):
            data = load("CMIP", T.real_time(t, raw.calendar), cfg)
        mean = lambda n: [(a + b) / 2 for a, b in zip(raw.at(n, t - int(4.5 * HOUR)).ravel(), raw.at(n, t - int(1.5 * HOUR)).ravel())]
        le, pr = mean("hfls"), mean("pr")
        for j in range(2):
            for i in range(2):
                check(h, data, le[2 * j + i] / 2.45e6, pr[2 * j + i], 1.0, j, i)
        h.reach()
    return fn


B = "every input frequency of 5, 3 times, 2x2 cells, any fields"
SCENARIOS = [Scenario("era5-model-levels", era("model_levels", (100, 120)), B),
             Scenario("era5-pressure-levels", era("pressure_levels", (500, 850)), B),
             Scenario("arco", from_arco, B),
             Scenario("cmip", from_cmip(1), "the 4 times of a day, 2x2 cells, any fields"),
             Scenario("cmip-two-files", from_cmip(2), "the 4 times of a day in two files, 2x2 cells, any fields")]
ASSUMPTIONS = ["CMIP latent heat flux becomes evaporation with 2.45 MJ/kg", "accumulations below 1 m per interval"]
OUTSIDE = "the NetCDF and Zarr libraries; access to the ARCO store"
