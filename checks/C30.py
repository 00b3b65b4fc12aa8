"""C30: preprocessing writes one file per day, holding every time of that day once, in order, with that time's fields."""
import multiprocessing
import multiprocessing.pool

import numpy as np
import xarray as xr

from engine import timesym as T
from engine.runner import Scenario

from .common import grid
from .files import scratch
from .runs import make_config

HOUR = 3600
SURF, LEV = ("ps", "precip", "evap"), ("q", "u", "v", "dp")


def make(cases, calendar, leftover=False, parallel=False):
    def fn(h):
        from engine.patches import Stubs
        from wam2layers.config import Config
        from wam2layers.preprocessing import shared
        freq, first, last = h.choice("dates", cases)
        step = {"1h": 1, "3h": 3, "6h": 6, "12h": 12, "31D": 31 * 24, "366D": 366 * 24, "30min": 0.5}[freq] * HOUR
        secs = list(range(first, last + 1, int(step)))
        lat, lon = grid(2, 2)
        f = {}
        for s in secs + ([0] if leftover else []):
            f[s] = {n: h.array(f"{n}@{s / HOUR:g}", (2, 2), 0, 100, nice=(0, 9)) for n in SURF}
            f[s].update({n: h.array(f"{n}@{s / HOUR:g}", (2, 2, 2), 0, 100, nice=(0, 9)) for n in LEV})
        sec = lambda t: int(h.sec(t))
        asked = []
        order = h.choice("order", ["first day first", "last day first"]) if parallel else None

        class Workers:
            """a pool of processes: every task once, in any order"""

            def __init__(self, *a, **k):
                pass

            def starmap(self, f, args, *a, **k):
                tasks = list(args)
                res = [f(*t) for t in (tasks if order == "first day first" else tasks[::-1])]
                return res if order == "first day first" else res[::-1]

            def map(self, f, args, *a, **k):
                return self.starmap(f, [(x,) for x in args])

            imap = map

            def close(self):
                pass

            join = terminate = close

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

        def get_input_data(datetime, config, data_source="ERA5"):
            s = sec(datetime)
            asked.append(s)
            d3, d2 = ("level", "latitude", "longitude"), ("latitude", "longitude")
            ds = xr.Dataset({n: (d3 if n in LEV else d2, v.copy()) for n, v in f[s].items()},
                            coords={"level": [1, 2], "latitude": lat, "longitude": lon})
            return ds.assign_coords(time=datetime), {"title": "x"}

        saved = Config.__dict__["from_yaml"]
        with scratch(h) as (tmp, vfs):
            (tmp / "pre").mkdir()
            cfg = make_config(h, "backward", tmp, preprocessed_data_folder=tmp / "pre", level_type="model_levels", levels=[1, 2],
                              level_layer_boundary=1, calendar=calendar, input_frequency=freq, parallel_preprocess=parallel, parallel_processes=2,
                              preprocess_start_date=T.real_time(first, calendar), preprocess_end_date=T.real_time(last, calendar))
            Config.from_yaml = classmethod(lambda cls, p: cfg)
            try:
                pools = [(multiprocessing.Pool, Workers), (multiprocessing.pool.Pool, Workers)] if parallel else []
                with Stubs([(shared.get_input_data, get_input_data)] + pools):
                    shared.prep_experiment("config.yaml", "ERA5")
                    if leftover:  # preprocessing the same days again replaces the files
                        shared.prep_experiment("config.yaml", "ERA5")
            finally:
                Config.from_yaml = saved
            names = sorted({T.real_time(s, calendar).strftime("%Y-%m-%d") + "_fluxes_storages.nc" for s in secs})
            if h.symbolic:
                have = sorted(p[len(str(tmp / "pre")) + 1:] for p, _ in vfs.files)
            else:
                have = sorted(p.name for p in (tmp / "pre").iterdir())
            h.true("one file per day", have == names)
            for name in names:
                if h.symbolic:
                    ds = vfs.read(tmp / "pre" / name)
                else:
                    with xr.open_dataset(tmp / "pre" / name, use_cftime=True) as d:
                        ds = d.load()
                want = [s for s in secs if T.real_time(s, calendar).strftime("%Y-%m-%d") == name[:10]]
                tt = [sec(t) for t in ds["time"].values]
                h.true(f"times in {name}", tt == want)
                if tt != want:
                    continue
                for n in ("precip", "evap", "s_upper", "s_lower", "fx_upper", "fy_lower"):
                    x = ds[n].transpose("time", "latitude", "longitude").variable._data
                    for k, s in enumerate(want):
                        g = f[s]
                        if n in SURF:
                            w = g[n]
                        else:
                            l = 0 if n.endswith("upper") else 1
                            w = g["q"][l] * g["dp"][l] / 9.80665
                            w = w * g["u"][l] if n[:2] == "fx" else w * g["v"][l] if n[:2] == "fy" else w
                        h.eq(f"{n} at {s / HOUR:g} h", x[k], w, tol=1e-5)
                h.true(f"coordinates in {name}", bool(np.array_equal(ds["latitude"].values, lat)
                                                      and np.array_equal(ds["longitude"].values, lon)))
        h.true("every time is read", sorted(asked) == sorted(secs * (2 if leftover else 1)))
        h.reach()
    return fn


D = 24 * HOUR
CASES = [("30min", D - 2700, D + 2700), ("6h", 0, D + 18 * HOUR), ("6h", 12 * HOUR, D + 6 * HOUR), ("12h", 0, 2 * D), ("3h", 21 * HOUR, D + 3 * HOUR)]
SCENARIOS = [Scenario("days", make(CASES, "standard"), "5 choices of first and last time over 2 or 3 days, every 30 min to 12 h, any fields"),
             Scenario("february", make([("12h", 58 * D, 60 * D)], "noleap"), "the end of February without leap day, any fields"),
             Scenario("months", make([("31D", 0, 31 * D), ("366D", 0, 366 * D)], "standard"), "the same day of two months and of two years, any fields"),
             Scenario("parallel", make([("12h", 0, 2 * D)], "standard", parallel=True), "three days by a pool of processes, in both orders, any fields"),
             Scenario("again", make([("12h", 0, D + 12 * HOUR)], "standard", leftover=True), "the same two days twice, any fields")]
ASSUMPTIONS = ["storing as 32-bit float is read as exact"]
OUTSIDE = "processes of a pool that share state or fail; the NetCDF library; longer periods"
