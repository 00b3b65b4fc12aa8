"""Environment for a symbolic run.

Constructors of numpy arrays called *by the code under test* give SymArrays;
xarray hands SymArrays through; files live in memory.  Everything is inert while
no symbolic context is active (so a replay runs on the plain libraries).
"""

from __future__ import annotations

import math
import sys

import numpy as np

from . import core as C
from .arr import SymArray, full_like, has_sym, obj
from .core import SB, SV, Ctx

_installed = False
UNDER_TEST = "wam2layers"


def _caller_is_repo(depth=2):
    f = sys._getframe(depth)
    return f.f_globals.get("__name__", "").startswith(UNDER_TEST)


def _active():
    return Ctx.cur is not None


_tls = {"depth": 0}


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _patch_numpy()
    _patch_numpy_functions()
    _patch_math()
    _patch_xarray()
    from . import timesym

    import_repo()
    timesym.install_in(repo_modules())
    from . import vfs

    vfs.install()
    vfs.install_in(repo_modules())
    from . import symindex

    symindex.install()
    install_numbers()
    from . import symstr

    symstr.install_in(repo_modules())


class _NumMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real)

    def __call__(cls, *a, **k):
        if a and Ctx.cur is not None:
            r = cls.convert(a[0])
            if r is not None:
                return r
        return cls.real(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


def _scalar_of(x):
    if hasattr(x, "variable"):
        x = x.variable._data
    if isinstance(x, SymArray) and x.size == 1:
        x = x.a.flat[0]
    return x


class FloatP(metaclass=_NumMeta):
    real = float
    dtype = np.dtype(float)

    @staticmethod
    def convert(x):
        if isinstance(x, str):
            return C.parse_number(x)
        x = _scalar_of(x)
        return x * 1.0 if isinstance(x, SV) else None


class IntP(metaclass=_NumMeta):
    real = int
    dtype = np.dtype(int)

    @staticmethod
    def convert(x):
        if isinstance(x, str):
            return C.parse_number(x)
        x = _scalar_of(x)
        return C.s_trunc(x) if isinstance(x, SV) else None


def install_numbers():
    for m in repo_modules():
        for n, p in (("float", FloatP), ("int", IntP)):
            if n not in vars(m):
                setattr(m, n, p)


def repo_modules():
    return [m for n, m in list(sys.modules.items())
            if (n == UNDER_TEST or n.startswith(UNDER_TEST + ".")) and m is not None]


def import_repo():
    """import every module of the package that can be imported here"""
    import importlib
    import pkgutil

    import wam2layers

    for m in pkgutil.walk_packages(wam2layers.__path__, "wam2layers."):
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass


def clear_caches():
    for m in repo_modules():
        for v in list(vars(m).values()):
            f = getattr(v, "cache_clear", None)
            if callable(f):
                f()


class Stubs:
    """Replace functions and classes of the repository wherever they are bound (by identity)."""

    def __init__(self, pairs):
        self.pairs = pairs  # [(original, replacement)]
        self.undo = []

    def __enter__(self):
        clear_caches()
        by = {id(a): b for a, b in self.pairs}
        for m in repo_modules():
            for n, v in list(vars(m).items()):
                if id(v) in by:
                    self.undo.append((m, n, v))
                    setattr(m, n, by[id(v)])
        return self

    def __exit__(self, *a):
        for m, n, v in reversed(self.undo):
            setattr(m, n, v)
        clear_caches()


def _patch_numpy():
    def ctor(name, fill):
        orig = getattr(np, name)

        def w(shape, *args, **kw):
            if _active() and _caller_is_repo():
                if name == "full":
                    fv = args[0] if args else kw.pop("fill_value")
                    dt = args[1] if len(args) > 1 else kw.get("dtype")
                else:
                    fv = fill
                    dt = args[0] if args else kw.get("dtype", float)
                sh = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
                return full_like(np.empty(sh), fv, dt)
            return orig(shape, *args, **kw)

        w.__name__ = name
        w.__wrapped__ = orig
        setattr(np, name, w)

    for n, v in (("zeros", 0.0), ("ones", 1.0), ("empty", 0.0), ("full", None)):
        ctor(n, v)

    def conv(name, copy):
        orig = getattr(np, name)

        def w(x=None, *args, **kw):
            if x is None and "object" in kw:
                x = kw.pop("object")
            if x is None and "a" in kw:
                x = kw.pop("a")
            if _active() and _caller_is_repo() and has_sym(x):
                o = obj(x)
                r = SymArray(o.copy() if copy and kw.get("copy", True) else o)
                if isinstance(x, SymArray):
                    r.dtype = x.dtype
                    if not copy:
                        return x
                dt = args[0] if args else kw.get("dtype")
                if dt is not None and np.dtype(dt) != r.dtype:
                    r = r.astype(dt)
                return r
            return orig(x, *args, **kw)

        w.__name__ = name
        w.__wrapped__ = orig
        setattr(np, name, w)

    conv("array", True)
    conv("asarray", False)
    conv("asanyarray", False)


def _patch_numpy_functions():
    """numpy functions that would coerce an xarray object with np.asarray"""
    from .arr import _STRUCTURAL, function_dispatch

    names = set()
    for f in _STRUCTURAL:
        if getattr(np, f.__name__, None) is f:
            names.add(f.__name__)
    names |= {"where", "gradient", "argsort", "sort", "take", "isclose", "allclose", "nan_to_num",
              "median", "interp", "average", "count_nonzero", "nansum", "nanmin", "nanmax",
              "nanmean", "dot", "array_equal", "full_like", "zeros_like", "ones_like",
              "empty_like"}

    def wrap(name):
        orig = getattr(np, name)

        def w(*args, **kw):
            if _active() and any(
                    hasattr(x, "variable") and hasattr(x, "dims") and has_sym(x)
                    for x in list(args) + list(kw.values())
                    + [i for x in args if isinstance(x, (list, tuple)) for i in x]):
                return function_dispatch(orig, args, kw)
            return orig(*args, **kw)

        w.__name__ = name
        w.__wrapped__ = orig
        setattr(np, name, w)

    for n in sorted(names):
        wrap(n)

    from numpy._core import fromnumeric

    wrapit = fromnumeric._wrapit

    def _wrapit(x, method, *args, **kw):
        if _active() and hasattr(x, "variable") and has_sym(x):
            r = function_dispatch(getattr(np, method), (SymArray(obj(x)), *args), kw)
            return x.__array_wrap__(r) if getattr(r, "ndim", None) == x.ndim else r
        if _active() and isinstance(x, (list, tuple)) and has_sym(x):
            f = getattr(np, method)
            return function_dispatch(getattr(f, "__wrapped__", f), (SymArray(obj(x)), *args), kw)
        return wrapit(x, method, *args, **kw)

    fromnumeric._wrapit = _wrapit


def _patch_math():
    def wrap(name, f):
        orig = getattr(math, name)

        def w(*a):
            if any(isinstance(x, (SV, SB, SymArray)) for x in a):
                a = [x.item() if isinstance(x, SymArray) else x for x in a]
                if any(isinstance(x, (SV, SB)) for x in a):
                    return f(*a)
            return orig(*a)

        w.__name__ = name
        setattr(math, name, w)

    for n in ("sqrt", "exp", "sin", "cos", "log"):
        wrap(n, (lambda n: lambda a: C.uf_apply(n, a))(n))
    wrap("radians", lambda a: C.s_mul(a, math.pi / 180))
    wrap("fabs", C.s_abs)
    wrap("floor", C.s_floor)
    wrap("ceil", C.s_ceil)
    wrap("isnan", C.s_isnan)
    wrap("isfinite", C.s_isfinite)
    wrap("isinf", C.s_isinf)


def _patch_xarray():
    import xarray as xr
    from xarray.core.variable import IndexVariable, Variable

    old_values = Variable.values

    def get_values(self):
        d = self._data
        if isinstance(d, SymArray):
            return d
        if (_active() and type(d) is np.ndarray and d.dtype.kind == "f"
                and not isinstance(self, IndexVariable)
                and sys._getframe(1).f_globals.get("__name__", "").startswith(("xarray.core.dataarray",))
                and _repo_frame(2)):
            # a float field the repository may write into: make it symbolic-capable
            self._data = SymArray(d.astype(object), d.dtype)
            return self._data
        r = old_values.fget(self)
        return r

    Variable.values = property(get_values, old_values.fset)

    old_inplace = Variable._inplace_binary_op

    def inplace(self, other, f):
        d = self._data
        o = getattr(other, "_data", other)
        if _active() and type(d) is np.ndarray and d.dtype.kind in "fiub" and has_sym(o):
            self._data = SymArray(d.astype(object), d.dtype)
        return old_inplace(self, other, f)

    Variable._inplace_binary_op = inplace

    old_to_numpy = Variable.to_numpy

    def to_numpy(self):
        if isinstance(self._data, SymArray):
            return self._data
        return old_to_numpy(self)

    Variable.to_numpy = to_numpy

    # ---- interpolation along one dimension, concrete coordinates (library contract)
    old_interp = xr.Dataset.interp

    def interp(self, coords=None, method="linear", assume_sorted=False, kwargs=None,
               method_non_numeric="nearest", **ck):
        if not (_active() and any(isinstance(v._data, SymArray) for v in self.variables.values())):
            return old_interp(self, coords, method, assume_sorted, kwargs, method_non_numeric, **ck)
        coords = {**(coords or {}), **ck}
        ds = self
        for dim, new in coords.items():
            ds = _interp1(ds, dim, new, method, kwargs)
        return ds

    xr.Dataset.interp = interp


def _repo_frame(start):
    """is the nearest frame outside xarray one of the repository's?"""
    f = sys._getframe(start + 1)
    while f is not None:
        n = f.f_globals.get("__name__", "")
        if n.startswith("xarray"):
            f = f.f_back
            continue
        return n.startswith(UNDER_TEST)
    return False


def _interp1(ds, dim, new, method, kwargs):
    import xarray as xr

    xs = np.asarray(ds[dim].values, dtype=float)
    new_da = new if isinstance(new, xr.DataArray) else None
    pts = np.asarray(new_da.values if new_da is not None else new, dtype=float)
    if pts.ndim > 1 or (new_da is not None and new_da.dims != (dim,)):
        raise C.EngineError("pointwise interpolation")
    fillv = (kwargs or {}).get("fill_value", np.nan)
    order = np.argsort(xs)
    xs = xs[order]
    flat = np.atleast_1d(pts)
    w = []
    for x in flat:
        if (x < xs[0] or x > xs[-1]) and fillv != "extrapolate":
            w.append(None)
            continue
        if method == "nearest":
            # scipy 'nearest' rounds half down
            k = int(np.argmin(np.abs(xs - x)))
            w.append([(int(order[k]), 1.0)])
            continue
        if method != "linear":
            raise C.EngineError(f"interp method {method}")
        k = int(np.clip(np.searchsorted(xs, x, side="right") - 1, 0, len(xs) - 2))
        t = (x - xs[k]) / (xs[k + 1] - xs[k])
        w.append([(int(order[k]), 1.0 - t), (int(order[k + 1]), t)])
    out = {}
    for name, v in ds.variables.items():
        if name == dim:
            continue
        if dim not in v.dims:
            out[name] = v
            continue
        ax = v.dims.index(dim)
        a = np.moveaxis(obj(v._data if isinstance(v._data, SymArray) else v.values), ax, 0)
        res = np.empty((len(flat),) + a.shape[1:], dtype=object)
        for i, ww in enumerate(w):
            if ww is None:
                res[i] = float(fillv)
                continue
            acc = None
            for k, c in ww:
                if c == 0:
                    continue
                term = SymArray(a[k]) * c if c != 1.0 else SymArray(a[k])
                acc = term if acc is None else acc + term
            res[i] = acc.a
        if pts.ndim == 0:
            out[name] = (tuple(d for d in v.dims if d != dim), SymArray(res[0]), v.attrs)
        else:
            out[name] = (v.dims, SymArray(np.moveaxis(res, 0, ax)), v.attrs)
    coord_names = [c for c in ds.coords if c != dim and c in out]
    r = xr.Dataset({k: v for k, v in out.items() if k not in coord_names},
                   coords={k: out[k] for k in coord_names}, attrs=ds.attrs)
    return r.assign_coords({dim: (pts if pts.ndim == 0 else (dim, pts))})
