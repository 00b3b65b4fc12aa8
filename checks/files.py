"""Files the code under test reads and writes: in memory when symbolic, in a scratch folder when replayed."""
import contextlib
import os
import tempfile
from pathlib import Path

import numpy as np
import xarray as xr

from engine import timesym as T

DAY = 86400
FLUX = ("fx_upper", "fx_lower", "fy_upper", "fy_lower", "evap", "precip")
STATE = ("s_upper", "s_lower")


@contextlib.contextmanager
def scratch(h, openers=()):
    """yields (folder, vfs or None)"""
    with tempfile.TemporaryDirectory() as tmp:
        if h.symbolic:
            from engine.vfs import VFS
            with VFS(openers) as v:
                yield Path(tmp), v
        else:
            yield Path(tmp), None


def put(h, vfs, path, ds, opener=None):
    """a file that is there from the start"""
    if h.symbolic:
        vfs.files.append([str(path), ds])
    else:
        Path(path).parent.mkdir(parents=True, exist_ok=True)
        ds.to_netcdf(path)


def get(h, vfs, path):
    """what was written to a file"""
    if h.symbolic:
        return vfs.read(path)
    with xr.open_dataset(path, use_cftime=True) as ds:
        return ds.load()


class Preprocessed:
    """A folder of daily preprocessed files whose content is an arbitrary function of time and cell."""

    def __init__(self, h, folder, freq, lat, lon, days=None, calendar="standard", tag="", names=FLUX + STATE):
        self.h, self.folder, self.freq, self.lat, self.lon = h, Path(folder), freq, lat, lon
        self.calendar, self.tag, self.names = calendar, tag, names
        self.cache = {}
        if not h.symbolic:
            self.folder.mkdir(parents=True, exist_ok=True)
            for d in days:
                ds = self.dataset(d * DAY)
                day = T.real_time(d * DAY, calendar).strftime("%Y-%m-%d")
                ds.to_netcdf(self.folder / f"{day}_fluxes_storages.nc")

    def value(self, name, sec, j, i):
        return self.h.uf(f"{self.tag}{name}[{j},{i}]", sec)

    def dataset(self, day):
        h = self.h
        times = [day + k * self.freq for k in range(DAY // self.freq)]
        ny, nx = len(self.lat), len(self.lon)
        out = {}
        for n in self.names:
            a = np.empty((len(times), ny, nx), dtype=object if h.symbolic else float)
            for k, t in enumerate(times):
                for j in range(ny):
                    for i in range(nx):
                        a[k, j, i] = self.value(n, t, j, i)
            out[n] = (("time", "latitude", "longitude"), h._arr(a))
        ts = np.empty(len(times), dtype=object)
        ts[:] = [h.instant(t, self.calendar) for t in times]
        return xr.Dataset(out, coords={"time": ts, "latitude": self.lat, "longitude": self.lon})

    def open(self, path):
        """opener for the in-memory file system"""
        pre, suf = str(self.folder) + "/", "_fluxes_storages.nc"
        p = T.norm(os.path.normpath(path))
        if not (p.startswith(pre) and p.endswith(suf)):
            return None
        tok = p[len(pre):-len(suf)]
        m = T.TOKRE.fullmatch(tok)
        if m is None:
            return None
        sec, fmt, cal = T.TOK[int(m.group(1))]
        if fmt != "%Y-%m-%d" or cal != self.calendar:
            return None
        return self.dataset(T.floor_to(sec, DAY))
