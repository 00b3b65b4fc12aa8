"""Running the real preprocessing of one or more times on arbitrary input fields."""
import contextlib

import numpy as np
import xarray as xr

from engine import timesym as T

from .files import get, scratch
from .runs import make_config

G = 9.80665


def level_array(h, name, n, ny, nx, lo=None, hi=None, nice=None):
    return h.array(name, (n, ny, nx), lo, hi, nice=nice)


DECOY = {"q": 0.01, "u": 7.0, "v": -3.0, "dp": 5000.0, "ps": 98000.0, "qs": 0.012, "us": 2.0, "vs": 1.0, "tcw": 35.0, "precip": 0.002, "evap": 0.001}


def decoy(h, data):
    """an instant with other data"""
    d = data.copy()
    for n in data.data_vars:
        d[n] = (data[n].dims, h.const_array(data[n].shape, DECOY[n]))
    return d


def run_preprocess(h, tmp, vfs, data, source="ERA5", attrs=None, later=False, **kw):
    """preprocess one instant whose input is `data` (the first or a later one of its day); the dataset that was written for it"""
    from engine.patches import Stubs
    from wam2layers.preprocessing import shared
    cfg = make_config(h, "backward", tmp, preprocessed_data_folder=tmp / "pre", **kw)
    (tmp / "pre").mkdir(exist_ok=True)
    times = [T.real_time(3600 * k) for k in range(3 if later else 1)]
    mine = times[1] if later else times[0]

    def get_input_data(datetime, config, data_source="ERA5"):
        d = data.copy() if datetime == mine else decoy(h, data)
        return d.assign_coords(time=datetime), dict(attrs or {})

    with Stubs([(shared.get_input_data, get_input_data)]):
        shared.preprocess(times, source, cfg)
    r = get(h, vfs, f"{cfg.preprocessed_data_folder}/2000-01-01_fluxes_storages.nc")
    return r.isel(time=[times.index(mine)]) if later else r


def fields(h, n, ny, nx, levels, extra=(), pos_q=True):
    """q, u, v on levels; ps, precip, evap (and more) at the surface"""
    S = lambda name, lo=None, hi=None, nice=None: h.array(name, (ny, nx), lo, hi, nice=nice)
    f = {"q": level_array(h, "q", n, ny, nx, 0, 0.1, nice=(0, 0.02)),
         "u": level_array(h, "u", n, ny, nx, -500, 500, nice=(-30, 30)),
         "v": level_array(h, "v", n, ny, nx, -500, 500, nice=(-30, 30)),
         "ps": S("ps", 50000, 110000, nice=(60000, 105000)),
         "precip": S("precip", 0, 1, nice=(0, 0.01)), "evap": S("evap", 0, 1, nice=(0, 0.01))}
    return f


def dataset(f, levels, lat, lon):
    d3, d2 = ("level", "latitude", "longitude"), ("latitude", "longitude")
    return xr.Dataset({k: (d3 if np.ndim(v) == 3 or getattr(v, "ndim", 0) == 3 else d2, v.copy()) for k, v in f.items()},
                      coords={"level": ("level", np.asarray(levels)), "latitude": lat, "longitude": lon})


def out(ds, name):
    d = ds[name].transpose("time", "latitude", "longitude").variable._data
    return d[0]
