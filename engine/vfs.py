"""Files of a symbolic run: held in memory; names may contain symbolic dates."""
from __future__ import annotations

import os

import numpy as np
import xarray as xr

from . import core as C
from . import timesym as T
from .arr import SymArray, obj
from .core import Ctx, EngineError

CUR = None  # the active file system, if any


def same_path(a, b):
    """do two names denote the same file? (may fork on symbolic dates)"""
    a, b = T.norm(os.path.normpath(str(a))), T.norm(os.path.normpath(str(b)))
    if a == b:
        return True
    pa, pb = T.TOKRE.split(a), T.TOKRE.split(b)
    if pa[0::3] != pb[0::3] or pa[2::3] != pb[2::3]:
        return False
    for i, j in zip(pa[1::3], pb[1::3]):
        if not T.same_text(int(i), int(j)):
            return False
    return True


class VFS:
    """with VFS(openers): reads and writes of netCDF files stay in memory"""

    def __init__(self, openers=()):
        self.files = []  # [path, dataset]
        self.openers = list(openers)
        self.opened, self.log, self.encodings = [], [], {}

    def __enter__(self):
        global CUR
        self.prev, CUR = CUR, self
        return self

    def __exit__(self, *a):
        global CUR
        CUR = self.prev

    def write(self, path, ds, mode="w", **kw):
        self.log.append(("write", str(path), ds, dict(kw, mode=mode)))
        ds = ds.copy(deep=True)
        for e in self.files:
            if same_path(e[0], path):
                if mode == "a":
                    ds = e[1].merge(ds, compat="override")
                e[1] = ds
                self.encodings[id(e)] = dict(kw.get("encoding") or {})
                return
        self.files.append([str(path), ds])
        self.encodings[id(self.files[-1])] = dict(kw.get("encoding") or {})

    def has(self, path):
        return any(same_path(f, path) for f, _ in self.files) or any(o(str(path)) is not None for o in self.openers)

    def read(self, path):
        p = str(path)
        self.opened.append(p)
        for f, ds in reversed(self.files):
            if same_path(f, p):
                return ds.copy(deep=True)
        for o in self.openers:
            ds = o(p)
            if ds is not None:
                return ds
        raise FileNotFoundError(f"[Errno 2] No such file or directory: {p!r}")


def _exists(orig):
    def exists(path, *a, **k):
        if Ctx.cur is not None and CUR is not None and isinstance(path, (str, os.PathLike)) and CUR.has(path):
            return True
        return orig(path, *a, **k)
    return exists


def _remove(orig):
    def remove(path, *a, **k):
        if Ctx.cur is not None and CUR is not None and isinstance(path, (str, os.PathLike)):
            for n, (f, _) in enumerate(CUR.files):
                if same_path(f, path):
                    del CUR.files[n]
                    return
        return orig(path, *a, **k)
    return remove


def _open_dataset(orig):
    def open_dataset(path, *a, **k):
        if not (Ctx.cur is not None and CUR is not None):
            return orig(path, *a, **k)
        return CUR.read(path)
    return open_dataset


def _open_mfdataset(orig):
    def open_mfdataset(paths, *a, **k):
        if not (Ctx.cur is not None and CUR is not None):
            return orig(paths, *a, **k)
        if isinstance(paths, str) or hasattr(paths, "__fspath__"):
            import glob
            paths = sorted(glob.glob(str(paths))) if "*" in str(paths) else [paths]
        paths = list(paths)
        if not paths:
            raise OSError("no files to open")
        if a:
            raise EngineError("open_mfdataset with positional options")
        sets = [CUR.read(p) for p in paths]
        if k.get("preprocess"):
            sets = [k["preprocess"](d) for d in sets]
        if k.get("combine", "by_coords") == "nested":
            dim = k.get("concat_dim")
            if isinstance(dim, (list, tuple)):
                (dim,) = dim
            return xr.concat(sets, dim)
        dims = {d for s in sets for d in s.dims if d in s.coords and any(
            s.sizes[d] != sets[0].sizes.get(d) or not s.coords[d].variable.equals(sets[0].coords[d].variable) for s in sets)}
        if not dims:
            return sets[0] if len(sets) == 1 else xr.merge(sets)
        (dim,) = dims
        sets.sort(key=lambda s: s.coords[dim].values[0])
        return xr.concat(sets, dim)
    return open_mfdataset


def _open_dataarray(orig):
    def open_dataarray(path, *a, **k):
        if not (Ctx.cur is not None and CUR is not None):
            return orig(path, *a, **k)
        ds = CUR.read(path)
        if isinstance(ds, xr.DataArray):
            return ds
        if len(ds.data_vars) != 1:
            raise ValueError("Given file dataset contains more than one data variable.")
        (n,) = ds.data_vars
        return ds[n]
    return open_dataarray


def _to_netcdf(orig, is_array):
    def to_netcdf(self, path=None, mode="w", *a, **k):
        if not (Ctx.cur is not None and CUR is not None):
            return orig(self, path, mode, *a, **k)
        ds = self
        if is_array:
            ds = self.to_dataset(name=self.name or "__xarray_dataarray_variable__")
        CUR.write(path, ds, mode, **k)
    return to_netcdf


# ---- picking an instant out of a time coordinate --------------------------------

def _key_time(k):
    if isinstance(k, T.SymTime):
        return k
    if isinstance(k, str) and T.TOKRE.search(k):
        return T.parse_token(k)
    if isinstance(k, xr.DataArray) and k.ndim == 0:
        d = k.variable._data
        return _key_time(d.item() if hasattr(d, "item") else d)
    return None


def _time_coord(ds, name):
    if name not in ds.coords:
        return None
    v = ds.coords[name].variable
    if v.ndim != 1:
        return None
    items = list(np.asarray(v._data.array if hasattr(v._data, "array") else v._data, dtype=object))
    return items


def _secs(x):
    return x.sec if isinstance(x, T.SymTime) else (x - T.base(x.calendar)).total_seconds()


def _sel(orig):
    def sel(self, indexers=None, method=None, tolerance=None, drop=False, **kw):
        if Ctx.cur is None:
            return orig(self, indexers, method, tolerance, drop, **kw)
        idx = {n: _settled(v) for n, v in {**(indexers or {}), **kw}.items()}
        r = self
        for n in list(idx):
            t = _key_time(idx[n])
            items = None
            if t is not None:
                items = _time_coord(self, n)
            elif n in self.coords and isinstance(idx[n], __import__("cftime").datetime):
                items = _time_coord(self, n)
                if items is not None and any(isinstance(x, T.SymTime) for x in items):
                    t = idx[n]
                else:
                    items = None
            if items is None:
                if t is not None:
                    raise KeyError(n)
                continue
            k = pick(items, t, method)
            r = r.isel({n: k}, drop=drop)
            del idx[n]
        if not idx:
            return r
        return orig(r, idx, method, tolerance, drop)
    return sel


def _where(orig):
    from xarray.core import dtypes

    def where(self, cond, other=dtypes.NA, drop=False):
        if drop and Ctx.cur is not None and hasattr(cond, "variable"):
            cond = _settled(cond)  # which rows and columns are left must be decided
        return orig(self, cond, other, drop)
    return where


def _settled(v):
    """a mask of symbolic truth values, decided one by one"""
    data = v.variable._data if hasattr(v, "variable") else v
    if isinstance(data, SymArray) and data.size and all(isinstance(x, (bool, np.bool_, C.SB)) for x in data.a.flat):
        b = np.array([bool(x) for x in data.a.flat]).reshape(data.shape)
        return v.copy(data=b) if hasattr(v, "variable") else b
    return v


def pick(items, t, method):
    ts = _secs(t)
    if method is None:
        for k, x in enumerate(items):
            if _secs(x) == ts:
                return k
        raise KeyError(f"no such time: {t}")
    if method in ("ffill", "pad", "bfill", "backfill"):
        up = all(bool(_secs(a) < _secs(b)) for a, b in zip(items, items[1:]))
        if not up:
            raise EngineError("sel method " + str(method) + " on times out of order")
        if method in ("ffill", "pad"):
            for k in range(len(items) - 1, -1, -1):
                if _secs(items[k]) <= ts:
                    return k
        else:
            for k, x in enumerate(items):
                if _secs(x) >= ts:
                    return k
        raise KeyError(f"no such time: {t}")
    if method != "nearest":
        raise EngineError("sel method " + str(method))
    # nearest; pandas prefers the later one on a tie
    best, bd = 0, C.s_abs(C.lift(_secs(items[0]) - ts))
    for k, x in enumerate(items[1:], 1):
        d = C.s_abs(C.lift(_secs(x) - ts))
        if (d < bd) if not (_secs(x) > _secs(items[best])) else (d <= bd):
            best, bd = k, d
    return best


# ---- netCDF4.Dataset(path, mode="a"): variables that grow along their dimensions ---

class Encoded:
    """values of a variable as they would go into a file"""

    def __init__(self, values, dims, times, units, calendar):
        self.data, self.dims, self.times, self.units, self.calendar = self, dims, times, units, calendar
        self.values, self.shape = values, values.shape


class _NCVar:
    def __init__(self, nc, name):
        object.__setattr__(self, "_nc", nc)
        object.__setattr__(self, "_name", name)

    @property
    def _var(self):
        return self._nc._ds[self._name].variable

    def _times(self):
        d = self._var._data
        return np.asarray(getattr(d, "array", d), dtype=object)

    def _is_time(self):
        d = self._var.dtype
        return d == object and self._var.ndim == 1 and hasattr(self._times().ravel()[0], "calendar")

    def __getattr__(self, n):
        if n in ("units", "calendar") and self._is_time():
            enc = self._nc._enc.get(self._name, {})
            return enc.get("units", "unknown") if n == "units" else self._times()[0].calendar
        if n in self._var.attrs:
            return self._var.attrs[n]
        raise AttributeError(n)

    dimensions = property(lambda s: s._var.dims)
    shape = property(lambda s: s._var.shape)
    ndim = property(lambda s: s._var.ndim)

    def __len__(self):
        return self._var.shape[0]

    def __getitem__(self, k):
        return SymArray(obj(self._var._data), self._var.dtype)[k] if not self._is_time() else self._times()[k]

    def __setitem__(self, k, v):
        dims = self._var.dims
        k = k if isinstance(k, tuple) else (k,)
        if any(not isinstance(s, slice) for s in k):
            raise EngineError("netCDF assignment by index")
        k = k + (slice(None),) * (len(dims) - len(k))
        vals = obj(v.values if isinstance(v, Encoded) else v)
        if self._is_time():
            if not isinstance(v, Encoded) or not v.times:
                raise EngineError("plain numbers written into a time variable")
            if v.units != self.units or v.calendar != self.calendar:
                # written in its own unit, read back in the file's: the wrong instant
                vals = np.frompyfunc(lambda t: T.SymTime(-3155673600, self.calendar), 1, 1)(vals)
        old = obj(self._times() if self._is_time() else self._var._data)
        need = [max(n, s.stop if s.stop is not None else n) for n, s in zip(old.shape, k)]
        new = np.empty(need, dtype=object)
        new.fill(float("nan") if not self._is_time() else None)
        new[tuple(slice(0, n) for n in old.shape)] = old
        new[k] = vals
        self._nc._pending[self._name] = (dims, new)
        self._nc._flush()


class NCDataset:
    """stand-in for netCDF4.Dataset on a file that is there already"""

    def __init__(self, path, mode="r", **kw):
        if mode not in ("a", "r+", "r"):
            raise EngineError(f"netCDF4 mode {mode}")
        self._entry = None
        for e in CUR.files:
            if same_path(e[0], path):
                self._entry = e
        if self._entry is None:
            raise FileNotFoundError(f"[Errno 2] No such file or directory: {path!r}")
        self._vars = {n: v for n, v in self._entry[1].variables.items()}
        self._attrs = dict(self._entry[1].attrs)
        self._enc = CUR.encodings.get(id(self._entry), {})
        self._pending = {}

    @property
    def _ds(self):
        class D:
            def __getitem__(s, n):
                class W:
                    variable = self._vars[n]
                return W
        return D()

    def _flush(self):
        for n, (dims, a) in self._pending.items():
            data = a if any(hasattr(x, "calendar") for x in a.ravel()) else SymArray(a, np.dtype(float))
            self._vars[n] = xr.Variable(dims, data, self._vars[n].attrs)
        self._pending = {}

    def __getitem__(self, n):
        if n not in self._vars:
            raise IndexError(f"{n} not found in /")
        return _NCVar(self, n)

    @property
    def variables(self):
        return {n: _NCVar(self, n) for n in self._vars}

    def sync(self):
        pass

    def close(self):
        # a dimension that grew: the variables that were not written are filled up
        size = {}
        for v in self._vars.values():
            for d, n in zip(v.dims, v.shape):
                size[d] = max(size.get(d, 0), n)
        out = {}
        for n, v in self._vars.items():
            want = tuple(size[d] for d in v.dims)
            if v.shape != want:
                a = np.empty(want, dtype=object)
                a.fill(float("nan"))
                a[tuple(slice(0, m) for m in v.shape)] = obj(v._data)
                v = xr.Variable(v.dims, SymArray(a, np.dtype(float)), v.attrs)
            out[n] = v
        old = self._entry[1]
        self._entry[1] = xr.Dataset({n: v for n, v in out.items() if n not in old.coords},
                                    coords={n: v for n, v in out.items() if n in old.coords}, attrs=self._attrs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _NCMeta(type):
    def __call__(cls, *a, **k):
        if Ctx.cur is not None and CUR is not None:
            return NCDataset(*a, **k)
        return cls.real(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (cls.real, NCDataset))


def install_in(modules):
    try:
        import netCDF4
    except ImportError:
        return

    class DatasetP(metaclass=_NCMeta):
        real = netCDF4.Dataset

    proxy = T.ModProxy(netCDF4, Dataset=DatasetP)
    for m in modules:
        for n, v in list(vars(m).items()):
            if v is netCDF4:
                setattr(m, n, proxy)
            elif v is netCDF4.Dataset:
                setattr(m, n, DatasetP)


def _encode_variable(orig):
    def encode_cf_variable(var, *a, **k):
        if not (Ctx.cur is not None and CUR is not None):
            return orig(var, *a, **k)
        d = var.variable._data if hasattr(var, "variable") else var._data
        items = np.asarray(getattr(d, "array", d), dtype=object) if not isinstance(d, SymArray) else obj(d)
        times = items.size > 0 and hasattr(items.ravel()[0], "calendar")
        enc = var.encoding or {}
        return Encoded(items, var.dims, times, enc.get("units"), enc.get("calendar"))
    return encode_cf_variable


def install():
    import pathlib
    pathlib.Path.exists, pathlib.Path.is_file = _exists(pathlib.Path.exists), _exists(pathlib.Path.is_file)
    os.path.exists, os.path.isfile = _exists(os.path.exists), _exists(os.path.isfile)
    pathlib.Path.unlink = _remove(pathlib.Path.unlink)
    os.remove, os.unlink = _remove(os.remove), _remove(os.unlink)
    xr.conventions.encode_cf_variable = _encode_variable(xr.conventions.encode_cf_variable)
    xr.open_dataset = _open_dataset(xr.open_dataset)
    xr.open_mfdataset = _open_mfdataset(xr.open_mfdataset)
    xr.open_dataarray = _open_dataarray(xr.open_dataarray)
    xr.Dataset.to_netcdf = _to_netcdf(xr.Dataset.to_netcdf, False)
    xr.DataArray.to_netcdf = _to_netcdf(xr.DataArray.to_netcdf, True)
    from xarray.core.common import DataWithCoords
    DataWithCoords.where = _where(DataWithCoords.where)
    xr.Dataset.sel = _sel(xr.Dataset.sel)
    xr.DataArray.sel = _sel(xr.DataArray.sel)
