"""C29: preprocessing reads, for each time, that time's fields at the wanted levels."""
import numpy as np

from engine import timesym as T
from engine.runner import Scenario

from .raw import HOUR, arco, cmip, era5, load, val

D3 = ("level", "latitude", "longitude")


def same(h, data, raw, t, levels, level_names, flat_names, scale, tag=""):
    """level_names, flat_names: name in data -> raw name; scale: level unit"""
    got = [float(x) for x in np.asarray(data["level"].values)]
    h.true(f"levels{tag}", sorted(got) == sorted(l * scale for l in levels))
    for n, r in level_names.items():
        x = val(data, n, D3)
        for k, l in enumerate(got):
            src = raw.levels.index(int(round(l / scale)))
            h.eq(f"{n} at level {l}{tag}", x[k], raw.at(r, t)[src], tol=1e-9)
    for n, r in flat_names.items():
        h.eq(f"{n}{tag}", val(data, n), raw.at(r, t), tol=1e-9)
    h.true(f"coordinates{tag}", bool(np.array_equal(data["latitude"].values, raw.lat)
                                     and np.array_equal(data["longitude"].values, raw.lon)))


LV = {"q": "q", "u": "u", "v": "v"}
NAMES = [("time", "level", "latitude", "longitude"), ("valid_time", "pressure_level", "latitude", "longitude"),
         ("valid_time", "model_level", "latitude", "longitude")]


def era(level_type, levels, wants, each=False):
    def fn(h):
        want = h.choice("levels", wants)
        names = h.choice("names", NAMES[:1] if each else [n for n in NAMES if level_type[:5] == "model" or n[1] != "model_level"])
        tcw = h.choice("tcw", [True, False])
        secs = [22 * HOUR, 23 * HOUR, 23 * HOUR + 1800, 25 * HOUR] if each else [22 * HOUR, 23 * HOUR, 24 * HOUR, 25 * HOUR]
        with era5(h, level_type, secs, levels, 2, 2, tcw=tcw, names=names, each=each, want=want, input_frequency="1h") as (raw, cfg, tmp, vfs):
            for t in (secs[1], secs[2], secs[0]):
                data = load("ERA5", T.real_time(t), cfg)
                flat = {"ps": "sp"}
                if level_type == "pressure_levels":
                    flat.update(us="u10", vs="v10")
                if tcw:
                    flat["tcw"] = "tcw"
                else:
                    h.true(f"no column water at {t}", "tcw" not in data)
                same(h, data, raw, t, levels if isinstance(want, str) else want, LV, flat,
                     100 if level_type == "pressure_levels" else 1, f" at {t // HOUR} h")
        h.reach()
    return fn


def from_arco(h):
    levels = (300, 500, 850, 1000)
    want = h.choice("levels", [[500, 850], [850, 500], [300, 500, 1000], [1000]])
    secs = [22 * HOUR, 23 * HOUR, 24 * HOUR]
    with arco(h, secs, levels, want=want, input_frequency="1h") as (raw, cfg, tmp, vfs):
        for t in (secs[1], secs[2], secs[0]):
            data = load("ARCO", T.real_time(t, raw.calendar), cfg)
            same(h, data, raw, t, want, LV, {"ps": "sp", "us": "us", "vs": "vs", "tcw": "tcw"}, 100, f" at {t // HOUR} h")
    h.reach()


def from_cmip(files):
    def fn(h):
        secs = [6 * HOUR * k for k in range(1, 5)]
        with cmip(h, secs, (85000, 50000, 30000), files=files) as (raw, cfg, tmp, vfs):
            for t in (secs[2], secs[0], secs[3]):
                data = load("CMIP", T.real_time(t, raw.calendar), cfg)
                same(h, data, raw, t, raw.levels, {"q": "hus", "u": "ua", "v": "va"},
                     {"ps": "ps", "qs": "huss", "us": "uas", "vs": "vas"}, 1, f" at {t // HOUR} h")
        h.reach()
    return fn


B = "3 times on 2 days, 2x2 cells, any fields, old and new file conventions, with and without column water"
SCENARIOS = [Scenario("era5-model-levels", era("model_levels", (100, 120, 137), [[100, 120, 137], [120], [100, 137]]), B),
             Scenario("era5-pressure-levels", era("pressure_levels", (300, 500, 850), ["all", "All", [500, 850], [850, 300], [500]]), B),
             Scenario("era5-file-per-time", era("model_levels", (100,), [[100]], each=True), B),
             Scenario("arco", from_arco, "3 times, 4 choices of levels, 2x2 cells, any fields"),
             Scenario("cmip", from_cmip(1), "3 times, 3 levels, 2x2 cells, any fields"),
             Scenario("cmip-two-files", from_cmip(2), "3 times, 3 levels in two files, 2x2 cells, any fields")]
ASSUMPTIONS = []
OUTSIDE = "the NetCDF and Zarr libraries; access to the ARCO store; CMIP variables on different sets of levels"
