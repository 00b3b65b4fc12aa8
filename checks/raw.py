"""Raw ERA5, ARCO-ERA5 and CMIP input with arbitrary field values, read by the repository's own loaders."""
import contextlib

import numpy as np
import xarray as xr

from engine import timesym as T

from .common import grid
from .files import put, scratch
from .runs import make_config

HOUR = 3600
ERA_UNITS = 1000.0  # kg of water in a cubic metre


def stamps(secs, calendar="standard"):
    out = np.empty(len(secs), dtype=object)
    out[:] = [T.real_time(s, calendar) for s in secs]
    return out


def field4(h, name, secs, levels, ny, nx, lo, hi, nice):
    return h.array(name, (len(secs), len(levels), ny, nx), lo, hi, nice=nice)


class Raw:
    """raw variables: name -> array over (time, [level,] y, x), with their coordinates"""

    def __init__(self, h, secs, levels, lat, lon, calendar="standard"):
        self.h, self.secs, self.levels, self.lat, self.lon = h, list(secs), list(levels), lat, lon
        self.calendar, self.v = calendar, {}

    def add(self, name, lo=None, hi=None, nice=None, level=False, secs=None):
        secs = self.secs if secs is None else list(secs)
        sh = (len(secs),) + ((len(self.levels),) if level else ()) + (len(self.lat), len(self.lon))
        self.v[name] = (secs, level, self.h.array(name, sh, lo, hi, nice=nice))
        return self

    def array(self, name, names=("time", "level", "latitude", "longitude")):
        secs, level, a = self.v[name]
        dims = tuple(n for n, k in zip(names, (True, level, True, True)) if k)
        co = {names[0]: stamps(secs, self.calendar), names[2]: self.lat, names[3]: self.lon}
        if level:
            co[names[1]] = (names[1], np.array(self.levels))
        return xr.DataArray(a.copy(), co, dims)

    def at(self, name, sec):
        secs, level, a = self.v[name]
        return a[secs.index(sec)]


WIND = dict(lo=-500, hi=500, nice=(-30, 30))
HUM = dict(lo=0, hi=0.1, nice=(0, 0.02))
PRES = dict(lo=50000, hi=110000, nice=(60000, 105000))
RAIN = dict(lo=-1, hi=1, nice=(-0.01, 0.01))


@contextlib.contextmanager
def era5(h, level_type, secs, levels, ny=2, nx=2, tcw=True, names=("time", "level", "latitude", "longitude"),
         calendar="standard", lat=None, lon=None, want=None, each=False, edit=None, **kw):
    """yields (raw, config, folder, vfs) with the raw files in place; `edit` may change a file or leave it out"""
    g = grid(ny, nx)
    raw = Raw(h, secs, levels, g[0] if lat is None else lat, g[1] if lon is None else lon, calendar)
    for n, d in (("q", HUM), ("u", WIND), ("v", WIND)):
        raw.add(n, level=True, **d)
    raw.add("sp", **PRES).add("e", **RAIN).add("tp", **RAIN)
    if tcw:
        raw.add("tcw", 0, 100, nice=(1, 60))
    if level_type == "pressure_levels":
        raw.add("d2m", 200, 320, nice=(240, 300)).add("u10", **WIND).add("v10", **WIND)
    with scratch(h) as (tmp, vfs):
        cfg = make_config(h, "backward", tmp, filename_template=f"{tmp}/{{year}}-{{month:02}}-{{day:02}}"
                          + ("T{hour:02}{minute:02}" if each else "") + "{levtype}_{variable}.nc",
                          preprocessed_data_folder=tmp / "pre", level_type=level_type, calendar=calendar,
                          levels=list(levels) if want is None else want, **kw)
        (tmp / "pre").mkdir()
        tag = {"model_levels": "_ml", "pressure_levels": "_pl"}[level_type]
        per = 1 if each else 86400  # a file for each time or for each day
        days = sorted({s // per for s in raw.secs})
        for n in raw.v:
            for d in days:
                day = T.real_time(d * per, calendar).strftime("%Y-%m-%dT%H%M" if each else "%Y-%m-%d")
                sel = [k for k, s in enumerate(raw.secs) if s // per == d]
                ds = raw.array(n, names).isel({names[0]: sel}).to_dataset(name=n)
                ds = ds if edit is None else edit(n, ds)
                if ds is not None:
                    put(h, vfs, f"{tmp}/{day}{tag if n in ('q', 'u', 'v') else ''}_{n}.nc", ds)
        yield raw, cfg, tmp, vfs


def load(source, t, cfg):
    from wam2layers.preprocessing import shared
    data, attrs = shared.get_input_data(t, cfg, source)
    return data if any(type(v._data).__name__ == "SymArray" for v in data.variables.values()) else data.load()


def val(data, name, dims=("latitude", "longitude")):
    return data[name].transpose(*dims).variable._data


@contextlib.contextmanager
def cmip(h, secs, levels, ny=2, nx=2, files=1, calendar="noleap", sfx=None, edit=None, **kw):
    """6-hourly states at `secs`; 3-hourly fluxes covering them, in `files` files each"""
    lat, lon = grid(ny, nx)
    raw = Raw(h, secs, levels, lat, lon, calendar)
    for n, d in (("hus", HUM), ("ua", WIND), ("va", WIND)):
        raw.add(n, level=True, **d)
    raw.add("ps", **PRES).add("huss", **HUM).add("uas", **WIND).add("vas", **WIND)
    first = min(secs) - 4.5 * HOUR
    three = [int(first + 3 * HOUR * k) for k in range(2 * len(secs))]
    raw.add("pr", -0.01, 0.1, nice=(0, 0.001), secs=three).add("hfls", -2000, 2000, nice=(-200, 400), secs=three)
    with scratch(h) as (tmp, vfs):
        cfg = make_config(h, "backward", tmp, filename_template=f"{tmp}/raw/{{variable}}_*.nc", calendar=calendar,
                          preprocessed_data_folder=tmp / "pre", level_type="pressure_levels", levels=list(levels),
                          input_frequency="6h", **kw)
        (tmp / "pre").mkdir()
        (tmp / "raw").mkdir()
        for n, (ss, level, a) in raw.v.items():
            da = raw.array(n, ("time", "plev", "lat", "lon")).to_dataset(name=n)
            per = len(ss) // files
            for f in range(files):
                p = tmp / "raw" / f"{n}_model_{f}.nc"
                ds = da.isel(time=slice(f * per, (f + 1) * per if f < files - 1 else None))
                ds = ds if edit is None else edit(n, ds)
                if ds is not None:
                    p.touch()
                    put(h, vfs, p, ds)
        yield raw, cfg, tmp, vfs


ARCO = {"q": "specific_humidity", "u": "u_component_of_wind", "v": "v_component_of_wind", "us": "10m_u_component_of_wind",
        "vs": "10m_v_component_of_wind", "sp": "surface_pressure", "d2m": "2m_dewpoint_temperature",
        "t2m": "2m_temperature", "tcw": "total_column_water", "tp": "total_precipitation", "e": "evaporation"}


@contextlib.contextmanager
def arco(h, secs, levels, ny=2, nx=2, want=None, valid=None, lat=None, lon=None, edit=None, **kw):
    """the ARCO store, with stand-in for opening it"""
    g = grid(ny, nx)
    cal = "proleptic_gregorian"
    raw = Raw(h, secs, levels, g[0] if lat is None else lat, g[1] if lon is None else lon, cal)
    for n, d in (("q", HUM), ("u", WIND), ("v", WIND)):
        raw.add(n, level=True, **d)
    raw.add("sp", **PRES).add("e", **RAIN).add("tp", **RAIN).add("tcw", 0, 100, nice=(1, 60)).add(
        "d2m", 200, 320, nice=(240, 300)).add("t2m", 200, 330, nice=(240, 300)).add("us", **WIND).add("vs", **WIND)
    ds = xr.Dataset({ARCO[n]: raw.array(n) for n in raw.v})
    ds = ds if edit is None else edit(ds)
    lo, hi = valid or (min(secs), max(secs))
    ds.attrs = {"valid_time_start": T.real_time(lo, cal).strftime("%Y-%m-%dT%H:%M"),
                "valid_time_stop": T.real_time(hi, cal).strftime("%Y-%m-%dT%H:%M")}
    with scratch(h) as (tmp, vfs):
        cfg = make_config(h, "backward", tmp, preprocessed_data_folder=tmp / "pre", level_type="pressure_levels",
                          levels=list(levels) if want is None else want, calendar=cal, **kw)
        (tmp / "pre").mkdir()
        saved = xr.open_zarr
        xr.open_zarr = lambda *a, **k: ds
        from wam2layers.preprocessing import arco as A
        for f in vars(A).values():
            if hasattr(f, "cache_clear"):
                f.cache_clear()
        try:
            yield raw, cfg, tmp, vfs
        finally:
            xr.open_zarr = saved
            for f in vars(A).values():
                if hasattr(f, "cache_clear"):
                    f.cache_clear()
