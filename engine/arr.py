"""SymArray: a numpy duck array whose elements may be symbolic numbers.

numpy and xarray dispatch to it through __array_ufunc__ / __array_function__,
so the repository's numpy and xarray code runs on it unchanged.
"""

from __future__ import annotations

import math
import numbers

import numpy as np

from . import core as C
from .core import SB, SV, EngineError

_CONC = (float, int, bool, np.number, np.bool_)


def _isc(x):
    return isinstance(x, _CONC)


def _f2(symfn, npfn):
    def f(a, b):
        if _isc(a) and _isc(b):
            with np.errstate(all="ignore"):
                r = npfn(a, b)
            return r.item() if isinstance(r, np.generic) else r
        return symfn(a, b)

    return f


def _f1(symfn, npfn):
    def f(a):
        if _isc(a):
            with np.errstate(all="ignore"):
                r = npfn(a)
            return r.item() if isinstance(r, np.generic) else r
        return symfn(a)

    return f


def _num(x):
    return x.num() if isinstance(x, SB) else x


def _binnum(fn):
    return lambda a, b: fn(_num(a), _num(b))


def _tofl(x):
    return float(x) if isinstance(x, (bool, np.bool_)) else x


def _and(a, b):
    if isinstance(a, (SB, bool, np.bool_)) or isinstance(b, (SB, bool, np.bool_)):
        return C.s_and(a, b)
    if _isc(a) and _isc(b):
        return a & b
    raise EngineError("bitwise and of symbolic numbers")


def _or(a, b):
    if isinstance(a, (SB, bool, np.bool_)) or isinstance(b, (SB, bool, np.bool_)):
        return C.s_or(a, b)
    if _isc(a) and _isc(b):
        return a | b
    raise EngineError("bitwise or of symbolic numbers")


def _xor(a, b):
    if _isc(a) and _isc(b):
        return a ^ b
    a = a if isinstance(a, SB) else SB(C.zb(a))
    return a ^ b


def _deg(x):
    return C.s_mul(x, math.pi / 180)


def _gt(a, b):
    return C.s_lt(b, a)


def _ge(a, b):
    return C.s_le(b, a)


def _copysign(a, b):
    ab = C.s_abs(a)
    return C.s_ite(C.s_lt(b, 0), -ab if isinstance(ab, SV) else -ab, ab)


def _heaviside(a, b):
    return C.s_ite(C.s_lt(a, 0), 0, C.s_ite(C.s_eq(a, 0), b, 1))


def _hypot(a, b):
    return C.uf_apply("sqrt", C.s_add(C.s_mul(a, a), C.s_mul(b, b)))


BIN = {
    "add": (_binnum(C.s_add), "num"),
    "subtract": (_binnum(C.s_sub), "num"),
    "multiply": (_binnum(C.s_mul), "num"),
    "divide": (_binnum(C.s_div), "num"),
    "true_divide": (_binnum(C.s_div), "num"),
    "floor_divide": (_binnum(C.s_floordiv), "num"),
    "remainder": (_binnum(C.s_mod), "num"),
    "power": (_binnum(C.s_pow), "num"),
    "float_power": (_binnum(C.s_pow), "num"),
    "minimum": (lambda a, b: C.s_min(_num(a), _num(b)), "num"),
    "maximum": (lambda a, b: C.s_max(_num(a), _num(b)), "num"),
    "fmin": (lambda a, b: C.s_min(_num(a), _num(b), True), "num"),
    "fmax": (lambda a, b: C.s_max(_num(a), _num(b), True), "num"),
    "copysign": (_copysign, "num"),
    "heaviside": (_heaviside, "num"),
    "hypot": (_hypot, "num"),
    "less": (_binnum(C.s_lt), "bool"),
    "less_equal": (_binnum(C.s_le), "bool"),
    "greater": (_binnum(_gt), "bool"),
    "greater_equal": (_binnum(_ge), "bool"),
    "equal": (_binnum(C.s_eq), "bool"),
    "not_equal": (lambda a, b: C.s_not(C.s_eq(_num(a), _num(b))), "bool"),
    "logical_and": (lambda a, b: C.s_and(a, b), "bool"),
    "logical_or": (lambda a, b: C.s_or(a, b), "bool"),
    "logical_xor": (_xor, "bool"),
    "bitwise_and": (_and, "same"),
    "bitwise_or": (_or, "same"),
    "bitwise_xor": (_xor, "same"),
}
UN = {
    "negative": (lambda a: -_num(a), "num"),
    "positive": (lambda a: _num(a), "num"),
    "absolute": (lambda a: C.s_abs(_num(a)), "num"),
    "fabs": (lambda a: C.s_abs(_num(a)), "num"),
    "sign": (lambda a: C.s_sign(_num(a)), "num"),
    "square": (lambda a: C.s_mul(a, a), "num"),
    "reciprocal": (lambda a: C.s_div(1.0, a), "num"),
    "conjugate": (lambda a: a, "num"),
    "isnan": (C.s_isnan, "bool"),
    "isinf": (C.s_isinf, "bool"),
    "isfinite": (C.s_isfinite, "bool"),
    "signbit": (lambda a: C.s_lt(a, 0), "bool"),
    "floor": (C.s_floor, "num"),
    "ceil": (C.s_ceil, "num"),
    "trunc": (C.s_trunc, "num"),
    "rint": (C.s_rint, "num"),
    "logical_not": (C.s_not, "bool"),
    "invert": (C.s_not, "same"),
    "deg2rad": (_deg, "num"),
    "radians": (_deg, "num"),
    "rad2deg": (lambda x: C.s_mul(x, 180 / math.pi), "num"),
    "degrees": (lambda x: C.s_mul(x, 180 / math.pi), "num"),
}
for _n in ("sqrt", "exp", "sin", "cos", "tan", "log", "log10", "log2", "expm1",
           "log1p", "arcsin", "arccos", "arctan", "cbrt", "sinh", "cosh", "tanh"):
    UN[_n] = ((lambda n: lambda a: C.uf_apply(n, a))(_n), "num")

_np_binary = {n: getattr(np, n) for n in BIN}
_np_unary = {n: getattr(np, n) for n in UN}
_el2 = {n: np.frompyfunc(_f2(fn, _np_binary[n]), 2, 1) for n, (fn, _) in BIN.items()}
_el1 = {n: np.frompyfunc(_f1(fn, _np_unary[n]), 1, 1) for n, (fn, _) in UN.items()}

_F, _B, _I = np.dtype("float64"), np.dtype("bool"), np.dtype("int64")


def kind_of(o):
    """dtype label for an object array's contents"""
    k = "b"
    for x in o.flat:
        if isinstance(x, (SB, bool, np.bool_)):
            continue
        if isinstance(x, (int, np.integer)):
            if k == "b":
                k = "i"
            continue
        if isinstance(x, SV):
            import z3

            if z3.is_int(x.e) and C._plain(x):
                if k == "b":
                    k = "i"
                continue
        return _F
    return {"b": _B, "i": _I}[k] if o.size else _F


def obj(x):
    """anything array-like -> object ndarray"""
    if isinstance(x, SymArray):
        return x.a
    if hasattr(x, "variable") and hasattr(x, "dims"):
        return obj(x.variable._data if not callable(getattr(x.variable, "_data", None)) else x.data)
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (SV, SB)) or np.isscalar(x) or x is None:
        a = np.empty((), dtype=object)
        a[()] = x.item() if isinstance(x, np.generic) else x
        return a
    if isinstance(x, (list, tuple)):
        parts = [obj(i) for i in x]
        if not parts:
            return np.empty((0,), dtype=object)
        sh = np.broadcast_shapes(*[p.shape for p in parts])
        out = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p
        return out
    return np.asarray(x).astype(object)


def has_sym(x):
    if isinstance(x, (SymArray, SV, SB)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(i, (SV, SB)) for i in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    if hasattr(x, "dims") and hasattr(x, "variable"):
        return has_sym(x.variable._data)
    return False


def dt_of(x):
    if isinstance(x, SymArray):
        return x.dtype
    if isinstance(x, SB) or isinstance(x, (bool, np.bool_)):
        return _B
    if isinstance(x, SV):
        import z3

        return _I if z3.is_int(x.e) and C._plain(x) else _F
    if isinstance(x, np.ndarray):
        return kind_of(x) if x.dtype == object else x.dtype
    if isinstance(x, (int, np.integer)):
        return _I
    return _F


def _res_dtype(kind, inputs, uname):
    if kind == "bool":
        return _B
    if uname in ("divide", "true_divide"):
        return _F
    ds = [dt_of(i) for i in inputs]
    if kind == "same":
        return _B if all(d == _B for d in ds) else _I
    if any(d.kind == "f" for d in ds):
        return _F
    if uname in UN and uname not in ("negative", "positive", "absolute", "sign", "square"):
        return _F
    return _I


class SymArray:
    _is_symarray = True
    __array_priority__ = 1000

    def __init__(self, a, dtype=None):
        if isinstance(a, SymArray):
            a = a.a
        if not (isinstance(a, np.ndarray) and a.dtype == object):
            a = obj(a)
        self.a = a
        self.dtype = np.dtype(dtype) if dtype is not None else kind_of(a)
        if self.dtype == object:
            self.dtype = kind_of(a)

    # ---- shape-like
    shape = property(lambda s: s.a.shape, lambda s, v: setattr(s.a, "shape", v))
    ndim = property(lambda s: s.a.ndim)
    size = property(lambda s: s.a.size)
    nbytes = property(lambda s: s.a.size * 8)
    itemsize = 8
    T = property(lambda s: SymArray(s.a.T, s.dtype))
    flat = property(lambda s: s.a.flat)
    real = property(lambda s: s)
    imag = property(lambda s: SymArray(np.zeros(s.a.shape, dtype=object), s.dtype))
    base = property(lambda s: s.a.base)

    @property
    def flags(self):
        return self.a.flags

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    # ---- conversion
    def __array__(self, dtype=None, copy=None):
        if not has_sym(self.a):
            return self.a.astype(dtype if dtype is not None else self.dtype)
        return self.a.copy() if copy else self.a

    def concrete(self):
        return not has_sym(self.a)

    def item(self, *args):
        return self.a.item(*args)

    def tolist(self):
        return self.a.tolist()

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element"
                             " is ambiguous. Use a.any() or a.all()")
        return bool(self.a.item())

    def __float__(self):
        return float(self.a.item())

    def __int__(self):
        return int(self.a.item())

    def __index__(self):
        if self.ndim:
            raise TypeError("only 0-d arrays can be used as an index")
        return self.a.item().__index__()

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self.a.item(), spec)
        return "<SymArray>"

    def __repr__(self):
        return f"<SymArray {self.shape} {self.dtype}>"

    __str__ = lambda s: format(s, "")

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __hash__(self):
        raise TypeError("unhashable")

    # ---- indexing
    def __getitem__(self, key):
        r = self.a[_key(key, self)]
        if not isinstance(r, np.ndarray):
            b = np.empty((), dtype=object)
            b[()] = r
            r = b
        elif r.dtype != object:
            r = r.astype(object)
        return SymArray(r, self.dtype)

    def __setitem__(self, key, value):
        k0 = key
        if isinstance(k0, SymArray) and k0.dtype == _B and not k0.concrete():
            # masked assignment without forking (scalar or same-shape value)
            v = obj(value)
            if v.ndim == 0 or v.shape == self.shape:
                self.a[...] = where(k0, value, self).a
                return
        k = _key(key, self)
        v = obj(value)
        if self.dtype.kind == "b":
            pass
        if v.ndim == 0:
            v = v.item()
            sub = self.a[k]
            if isinstance(sub, np.ndarray):
                tmp = np.empty(sub.shape, dtype=object)
                tmp.fill(v)
                self.a[k] = tmp
            else:
                self.a[k] = v
        else:
            self.a[k] = v

    # ---- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    # ---- ndarray methods
    def copy(self, order="C"):
        return SymArray(self.a.copy(), self.dtype)

    def astype(self, dtype, copy=True, **kw):
        dtype = np.dtype(dtype)
        if dtype == object:
            return self.a.copy()
        a = self.a
        if dtype.kind == "b" and self.dtype.kind != "b":
            a = np.frompyfunc(lambda x: bool(x) if _isc(x) else C.mkb(C.zb(x)), 1, 1)(a)
        elif dtype.kind in "iu" and self.dtype.kind == "f":
            a = np.frompyfunc(_f1(C.s_trunc, np.trunc), 1, 1)(a)
        elif dtype.kind in "iuf" and self.dtype.kind == "b":
            a = np.frompyfunc(lambda x: _num(x) if isinstance(x, SB) else (int(x) if dtype.kind != "f" else float(x)), 1, 1)(a)
        elif dtype.kind == "f" and self.dtype.kind in "iu":
            a = np.frompyfunc(lambda x: float(x) if _isc(x) else x, 1, 1)(a)
        a = a if isinstance(a, np.ndarray) else obj(a)
        if a is self.a and copy:
            a = a.copy()
        return SymArray(a, dtype)

    def reshape(self, *s, **kw):
        return SymArray(self.a.reshape(*s), self.dtype)

    def transpose(self, *ax):
        return SymArray(self.a.transpose(*ax), self.dtype)

    def swapaxes(self, *ax):
        return SymArray(self.a.swapaxes(*ax), self.dtype)

    def squeeze(self, axis=None):
        return SymArray(self.a.squeeze(axis), self.dtype)

    def flatten(self, *a):
        return SymArray(self.a.flatten(), self.dtype)

    def ravel(self, *a):
        return SymArray(self.a.ravel(), self.dtype)

    def repeat(self, *a, **k):
        return SymArray(self.a.repeat(*a, **k), self.dtype)

    def fill(self, v):
        self[...] = v

    def view(self, *a):
        return self

    def diagonal(self, *a, **k):
        return SymArray(self.a.diagonal(*a, **k), self.dtype)

    def take(self, idx, axis=None, **kw):
        return take(self, idx, axis=axis)

    def round(self, decimals=0):
        return around(self, decimals)

    def clip(self, min=None, max=None, **kw):
        return clip(self, min, max)

    def argsort(self, axis=-1, **kw):
        return argsort(self, axis)

    def sort(self, axis=-1, **kw):
        self.a[...] = sort(self, axis).a

    def argmin(self, axis=None, **kw):
        return argminmax(self, axis, True)

    def argmax(self, axis=None, **kw):
        return argminmax(self, axis, False)

    def nonzero(self):
        return nonzero(self)

    def cumsum(self, axis=None, **k):
        return cumulate(np.add, self, axis)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_("add", self, axis, keepdims, **kw)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_("multiply", self, axis, keepdims, **kw)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_("minimum", self, axis, keepdims, **kw)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_("maximum", self, axis, keepdims, **kw)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_("logical_or", self, axis, keepdims, **kw)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_("logical_and", self, axis, keepdims, **kw)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return mean(self, axis, keepdims)

    def std(self, *a, **k):
        raise EngineError("std of symbolic array")

    def dot(self, o):
        return function_dispatch(np.dot, (self, o), {})


def _opm(name, uf, refl=False):
    def f(self, o):
        if hasattr(o, "dims") and hasattr(o, "variable") or hasattr(o, "data_vars") or (
                hasattr(o, "dims") and hasattr(o, "_data")):
            return NotImplemented
        if o is None or isinstance(o, str):
            return NotImplemented
        return ufunc_dispatch(uf, "__call__", (o, self) if refl else (self, o), {})

    f.__name__ = name
    return f


def _iopm(uf):
    def f(self, o):
        if hasattr(o, "variable") and hasattr(o, "dims"):
            o = o.variable._data
        r = ufunc_dispatch(uf, "__call__", (self, o), {})
        if r.shape != self.shape:
            raise ValueError(f"non-broadcastable output operand with shape {self.shape}"
                             f" doesn't match the broadcast shape {r.shape}")
        self.a[...] = r.a
        return self

    return f


for _n, _u in (("add", np.add), ("sub", np.subtract), ("mul", np.multiply),
               ("truediv", np.true_divide), ("floordiv", np.floor_divide),
               ("mod", np.remainder), ("pow", np.power), ("and", np.bitwise_and),
               ("or", np.bitwise_or), ("xor", np.bitwise_xor)):
    setattr(SymArray, f"__{_n}__", _opm(_n, _u))
    setattr(SymArray, f"__r{_n}__", _opm(_n, _u, True))
    setattr(SymArray, f"__i{_n}__", _iopm(_u))
for _n, _u in (("lt", np.less), ("le", np.less_equal), ("gt", np.greater),
               ("ge", np.greater_equal), ("eq", np.equal), ("ne", np.not_equal)):
    setattr(SymArray, f"__{_n}__", _opm(_n, _u))
SymArray.__neg__ = lambda s: ufunc_dispatch(np.negative, "__call__", (s,), {})
SymArray.__pos__ = lambda s: s
SymArray.__abs__ = lambda s: ufunc_dispatch(np.absolute, "__call__", (s,), {})
SymArray.__invert__ = lambda s: ufunc_dispatch(np.invert, "__call__", (s,), {})


def _key(key, arr):
    """translate symbolic index parts; boolean masks fork"""
    if isinstance(key, tuple):
        return tuple(_key1(k) for k in key)
    return _key1(key)


def _key1(k):
    if hasattr(k, "variable") and hasattr(k, "dims"):
        k = k.variable._data
    if isinstance(k, SymArray):
        if k.dtype == _B:
            return np.frompyfunc(lambda x: bool(x), 1, 1)(k.a).astype(bool) if k.ndim else bool(k)
        r = np.frompyfunc(lambda x: x.__index__(), 1, 1)(k.a)
        return r.astype(np.int64) if isinstance(r, np.ndarray) else r
    if isinstance(k, np.ndarray) and k.dtype == object:
        return _key1(SymArray(k))
    if isinstance(k, SB):
        return bool(k)
    if isinstance(k, SV):
        return k.__index__()
    if isinstance(k, slice):
        f = lambda v: v.__index__() if isinstance(v, (SV, SymArray)) else v
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, list):
        return _key1(SymArray(k)) if has_sym(k) else k
    return k


# --------------------------------------------------------------------------
# ufuncs


def ufunc_dispatch(ufunc, method, inputs, kw):
    for i in inputs:
        if not isinstance(i, (SymArray, SV, SB)) and (hasattr(i, "dims") or hasattr(i, "data_vars")):
            return NotImplemented
    name = ufunc.__name__
    out = kw.pop("out", None)
    where_ = kw.pop("where", True)
    for k in ("dtype", "casting", "order", "subok"):
        kw.pop(k, None)
    if method == "__call__":
        if kw:
            raise EngineError(f"ufunc argument {list(kw)}")
        if name in ("divmod",):
            return (ufunc_dispatch(np.floor_divide, "__call__", inputs, {}),
                    ufunc_dispatch(np.remainder, "__call__", inputs, {}))
        if name in BIN:
            r = _el2[name](*[obj(i) for i in inputs])
            kind = BIN[name][1]
        elif name in UN:
            r = _el1[name](obj(inputs[0]))
            kind = UN[name][1]
        elif name == "matmul":
            return function_dispatch(np.dot, inputs, {})
        else:
            raise EngineError(f"ufunc {name} on symbolic values")
        r = r if isinstance(r, np.ndarray) else obj(r)
        res = SymArray(r, _res_dtype(kind, inputs, name))
        if where_ is not True:
            if out is None:
                raise EngineError("ufunc where= without out=")
            base = out[0] if isinstance(out, tuple) else out
            res = where(where_, res, base)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SymArray):
                o.a[...] = res.a
                return o
            if isinstance(o, np.ndarray):
                if o.dtype == object:
                    o[...] = res.a
                    return o
                if res.concrete():
                    o[...] = res.a.astype(o.dtype)
                    return o
                raise EngineError("symbolic result stored into a concrete numpy array")
        if res.ndim == 0 and all(isinstance(i, (SV, SB)) or _isc(i) for i in inputs):
            return res.a.item()
        return res
    if method == "reduce":
        axis = kw.pop("axis", 0)
        if len(inputs) > 1:
            axis = inputs[1]
        return reduce_(name, inputs[0], axis, kw.pop("keepdims", False))
    if method == "accumulate":
        return cumulate(ufunc, inputs[0], kw.pop("axis", 0))
    if method == "outer":
        a, b = obj(inputs[0]), obj(inputs[1])
        r = _el2[name](a.reshape(a.shape + (1,) * b.ndim), b)
        return SymArray(r, _res_dtype(BIN[name][1], inputs, name))
    if method == "at":
        raise EngineError("ufunc.at")
    raise EngineError(f"ufunc method {method}")


_INIT = {"add": 0, "multiply": 1, "logical_or": False, "logical_and": True,
         "bitwise_or": False, "bitwise_and": True}


def reduce_(name, x, axis=None, keepdims=False, where=True, initial=None, **kw):
    dt = dt_of(x)
    a = obj(x)
    if keepdims is np._NoValue:
        keepdims = False
    if where is not True and where is not np._NoValue:
        raise EngineError("reduction with where=")
    if name == "add" and dt == _B:
        a = np.frompyfunc(lambda v: _num(v) if isinstance(v, SB) else (int(v) if _isc(v) else v), 1, 1)(a)
        a = a if isinstance(a, np.ndarray) else obj(a)
        dt = _I
    if name in ("logical_or", "logical_and", "bitwise_or", "bitwise_and"):
        f = C.s_or if name.endswith("or") else C.s_and
        dt = _B
    else:
        f = _f2(BIN[name][0], _np_binary[name])
    axes = tuple(range(a.ndim)) if axis is None else (
        tuple(ax % a.ndim for ax in axis) if isinstance(axis, (tuple, list)) else (int(axis) % max(a.ndim, 1),))
    if a.ndim == 0:
        axes = ()
    keep = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(keep + list(axes)).reshape([a.shape[i] for i in keep] + [-1])
    outa = np.empty(b.shape[:-1], dtype=object)
    for idx in np.ndindex(*outa.shape):
        vals = list(b[idx])
        if not vals:
            if name not in _INIT:
                raise ValueError("zero-size array to reduction operation which has no identity")
            acc = _INIT[name]
        else:
            acc = vals[0]
            if name in ("logical_or", "logical_and") and not isinstance(acc, (SB, bool)):
                acc = C.mkb(C.zb(acc))
            for v in vals[1:]:
                acc = f(acc, v)
        outa[idx] = acc
    if keepdims:
        outa = outa.reshape([1 if i in axes else n for i, n in enumerate(a.shape)])
    return SymArray(outa, dt)


def cumulate(uf, x, axis=None):
    a = obj(x)
    if axis is None:
        a, axis = a.ravel(), 0
    a = np.moveaxis(a, axis, 0).copy()
    f = _el2[uf.__name__]
    for i in range(1, a.shape[0]):
        a[i] = f(a[i - 1], a[i])
    return SymArray(np.moveaxis(a, 0, axis), dt_of(x))


# --------------------------------------------------------------------------
# functions


def where(c, x=None, y=None):
    if x is None:
        return nonzero(c)
    ca, xa, ya = np.broadcast_arrays(obj(c), obj(x), obj(y))
    out = np.empty(ca.shape, dtype=object)
    for i in np.ndindex(*ca.shape):
        out[i] = C.s_ite(ca[i], xa[i], ya[i])
    dx, dy = dt_of(x), dt_of(y)
    dt = _F if "f" in (dx.kind, dy.kind) else (dx if dx == dy else _I)
    return SymArray(out, dt)


def nonzero(c):
    a = obj(c)
    m = np.frompyfunc(bool, 1, 1)(a)
    return np.nonzero(np.asarray(m).astype(bool))


def mean(x, axis=None, keepdims=False):
    a = obj(x)
    s = reduce_("add", x, axis, keepdims)
    n = a.size // max(1, s.size)
    return ufunc_dispatch(np.true_divide, "__call__", (s, n), {})


def clip(x, lo=None, hi=None, out=None, **kw):
    lo = kw.get("min", kw.get("a_min", lo))
    hi = kw.get("max", kw.get("a_max", hi))
    r = x
    if lo is not None:
        r = np.maximum(SymArray(obj(r)), SymArray(obj(lo)))
    if hi is not None:
        r = np.minimum(SymArray(obj(r)), SymArray(obj(hi)))
    return r


def around(x, decimals=0, out=None):
    k = 10**decimals
    f = np.frompyfunc(lambda v: round(v, decimals) if _isc(v) else (
        C.s_rint(v) if decimals == 0 else C.s_rint(v * k) / k), 1, 1)
    r = f(obj(x))
    return SymArray(r if isinstance(r, np.ndarray) else obj(r), dt_of(x))


def _sort_list(vals):
    """stable order of a list of values (forks on symbolic comparisons)"""
    idx = list(range(len(vals)))
    # insertion sort, as stable merge would compare; NaN last is not modelled
    for i in range(1, len(idx)):
        j = i
        while j > 0 and bool(C.s_lt(vals[idx[j]], vals[idx[j - 1]])
                             if not (_isc(vals[idx[j]]) and _isc(vals[idx[j - 1]]))
                             else vals[idx[j]] < vals[idx[j - 1]]):
            idx[j], idx[j - 1] = idx[j - 1], idx[j]
            j -= 1
    return idx


def argsort(x, axis=-1, kind=None, order=None, stable=None):
    a = obj(x)
    if axis is None:
        a, axis = a.ravel(), 0
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, dtype=np.int64)
    for i in np.ndindex(*b.shape[:-1]):
        out[i] = _sort_list(list(b[i]))
    return np.moveaxis(out, -1, axis)


def sort(x, axis=-1, kind=None, order=None, stable=None):
    idx = argsort(x, axis)
    return SymArray(np.take_along_axis(obj(x), idx, axis), dt_of(x))


def argminmax(x, axis, is_min):
    a = obj(x)
    if axis is None:
        a, axis = a.ravel(), 0
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        v = list(b[i])
        best, bi = _num(v[0]), 0
        for k in range(1, len(v)):
            vk = _num(v[k])
            c = C.s_lt(vk, best) if is_min else C.s_lt(best, vk)
            best, bi = C.s_ite(c, vk, best), C.s_ite(c, k, bi)
        out[i] = bi
    r = SymArray(out, _I)
    if r.concrete():
        return np.asarray(out.astype(np.int64))
    return r


def take(x, idx, axis=None, **kw):
    return SymArray(np.take(obj(x), _key1(idx), axis=axis), dt_of(x))


def take_along_axis(x, idx, axis=-1):
    ix = np.asarray(_key1(idx))
    return SymArray(np.take_along_axis(obj(x), ix.astype(np.int64), axis), dt_of(x))


def gradient(f, *varargs, axis=None, edge_order=1):
    a = obj(f)
    if edge_order != 1:
        raise EngineError("edge_order")
    axes = tuple(range(a.ndim)) if axis is None else (
        tuple(axis) if isinstance(axis, (tuple, list)) else (axis,))
    if len(varargs) == 0:
        dx = [1.0] * len(axes)
    elif len(varargs) == 1 and np.ndim(varargs[0]) == 0:
        dx = [varargs[0]] * len(axes)
    else:
        raise EngineError("gradient with coordinate spacing")
    res = []
    x = SymArray(a)
    for ax, h in zip(axes, dx):
        b = SymArray(np.moveaxis(a, ax, 0))
        if b.shape[0] < 2:
            raise ValueError("Shape of array too small to calculate a numerical gradient")
        parts = [((b[1] - b[0]) / h).a[None]]
        if b.shape[0] > 2:
            parts.append(((b[2:] - b[:-2]) / (2.0 * h)).a)
        parts.append(((b[-1] - b[-2]) / h).a[None])
        res.append(SymArray(np.moveaxis(np.concatenate(parts, 0), 0, ax), _F))
    return res[0] if len(axes) == 1 else res


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = SymArray(obj(a)), SymArray(obj(b))
    return abs(a - b) <= atol + rtol * abs(b)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = np.finfo(float).max
    pi = big if posinf is None else posinf
    ni = -big if neginf is None else neginf

    def f(v):
        l = C.lift(v)
        if l.nan is False and l.pinf is False and l.ninf is False:
            return v
        r = SV(l.e)
        r = C.s_ite(C.mkb(C._zb(l.pinf)), pi, r)
        r = C.s_ite(C.mkb(C._zb(l.ninf)), ni, r)
        return C.s_ite(C.mkb(C._zb(l.nan)), nan, r)

    r = np.frompyfunc(f, 1, 1)(obj(x))
    r = SymArray(r if isinstance(r, np.ndarray) else obj(r), dt_of(x))
    if not copy and isinstance(x, SymArray):
        x.a[...] = r.a
        return x
    return r


def _nanred(name, fill):
    def f(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
        xs = SymArray(obj(x), dt_of(x))
        if name in ("minimum", "maximum"):
            return reduce_("fmin" if name == "minimum" else "fmax", xs, axis, keepdims)
        xs = where(np.isnan(xs), fill, xs)
        return reduce_(name, xs, axis, keepdims)

    return f


def nanmean(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
    xs = SymArray(obj(x), dt_of(x))
    n = np.isnan(xs)
    s = reduce_("add", where(n, 0.0, xs), axis, keepdims)
    c = reduce_("add", ~n, axis, keepdims)
    return s / c


def median(x, axis=None, **kw):
    a = obj(x)
    if axis is None:
        a, axis = a.ravel(), 0
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    n = b.shape[-1]
    for i in np.ndindex(*out.shape):
        v = [b[i][k] for k in _sort_list(list(b[i]))]
        out[i] = v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2
    return SymArray(out, _F)


def unwrap(p, discont=None, axis=-1, *, period=2 * np.pi):
    a = np.moveaxis(obj(p), axis, -1).copy()
    half = period / 2
    jump = half if discont is None else max(discont, half)
    for i in np.ndindex(*a.shape[:-1]):
        src, corr = list(a[i]), 0
        for k in range(1, len(src)):
            d = src[k] - src[k - 1]
            if not (C.s_abs(d) < jump):
                m = C.s_mod(d + half, period) - half
                if (m == -half) and (d > 0):
                    m = half
                corr = corr + (m - d)
            a[i][k] = src[k] + corr
    return SymArray(np.moveaxis(a, -1, axis), _F)


def interp(x, xp, fp, left=None, right=None, period=None):
    raise EngineError("np.interp on symbolic values")


def dot(a, b, **kw):
    A, B = obj(a), obj(b)
    if A.ndim == 1 and B.ndim == 1:
        return reduce_("add", SymArray(A) * SymArray(B))
    if A.ndim == 2 and B.ndim == 2:
        return reduce_("add", SymArray(A[:, :, None]) * SymArray(B[None, :, :]), 1)
    if A.ndim == 2 and B.ndim == 1:
        return reduce_("add", SymArray(A) * SymArray(B[None]), 1)
    if A.ndim == 1 and B.ndim == 2:
        return reduce_("add", SymArray(A[:, None]) * SymArray(B), 0)
    raise EngineError("dot of these shapes")


def result_type(*xs):
    ds = []
    for x in xs:
        if isinstance(x, np.dtype):
            ds.append(x)
        elif isinstance(x, type):
            ds.append(np.dtype(x))
        elif isinstance(x, (SymArray, SV, SB)):
            ds.append(dt_of(x))
        else:
            ds.append(x)
    return np.result_type(*ds)


def full_like(a, fill_value, dtype=None, shape=None, **kw):
    sh = shape if shape is not None else np.shape(a)
    sh = (sh,) if isinstance(sh, (int, np.integer)) else tuple(sh)
    out = np.empty(sh, dtype=object)
    dt = np.dtype(dtype) if dtype is not None else dt_of(a)
    if isinstance(fill_value, (SymArray, np.ndarray)) and np.ndim(fill_value):
        out[...] = obj(fill_value)
    else:
        v = fill_value
        if isinstance(v, (SymArray, np.ndarray, np.generic)):
            v = v.item()
        if dt.kind == "b" and _isc(v):
            v = bool(v)
        elif dt.kind == "f" and _isc(v):
            v = float(v)
        out.fill(v)
    return SymArray(out, dt)


def array_equal(a, b, equal_nan=False):
    A, B = obj(a), obj(b)
    if A.shape != B.shape:
        return False
    return bool(reduce_("logical_and", SymArray(A) == SymArray(B)))


def _count_nonzero(x, axis=None, **kw):
    xs = SymArray(obj(x), dt_of(x))
    return reduce_("add", xs if xs.dtype == _B else xs != 0, axis)


def _average(x, axis=None, weights=None, **kw):
    xs = SymArray(obj(x))
    if weights is None:
        return mean(xs, axis)
    w = SymArray(obj(weights))
    if axis is not None and w.ndim == 1 and xs.ndim > 1:
        sh = [1] * xs.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    w = SymArray(np.broadcast_to(w.a, xs.shape), w.dtype)
    return reduce_("add", xs * w, axis) / reduce_("add", w, axis)


def insert(arr, where_, values, axis=None):
    """np.insert: the result has the type of `arr`"""
    dt = dt_of(arr)
    v = obj(values)
    if dt.kind in "iu":
        v = np.frompyfunc(lambda t: C.s_trunc(t) if isinstance(t, SV) else int(t), 1, 1)(v)
    return SymArray(np.insert(obj(arr), where_, v, axis=axis), dt)


CUSTOM = {
    np.insert: insert,
    np.where: where,
    np.nonzero: nonzero,
    np.flatnonzero: lambda x: np.flatnonzero(np.asarray(_key1(SymArray(obj(x)).astype(bool)))),
    np.mean: lambda x, axis=None, dtype=None, out=None, keepdims=False, **k: mean(x, axis, keepdims is True),
    np.average: _average,
    np.clip: clip,
    np.around: around,
    np.round: around,
    np.argsort: argsort,
    np.sort: sort,
    np.argmin: lambda x, axis=None, **k: argminmax(x, axis, True),
    np.argmax: lambda x, axis=None, **k: argminmax(x, axis, False),
    np.take: take,
    np.take_along_axis: take_along_axis,
    np.gradient: gradient,
    np.isclose: isclose,
    np.allclose: lambda *a, **k: reduce_("logical_and", isclose(*a, **k)),
    np.nan_to_num: nan_to_num,
    np.sum: lambda x, axis=None, dtype=None, out=None, keepdims=False, **k: reduce_("add", x, axis, keepdims, **k),
    np.prod: lambda x, axis=None, dtype=None, out=None, keepdims=False, **k: reduce_("multiply", x, axis, keepdims),
    np.min: lambda x, axis=None, out=None, keepdims=False, **k: reduce_("minimum", x, axis, keepdims),
    np.max: lambda x, axis=None, out=None, keepdims=False, **k: reduce_("maximum", x, axis, keepdims),
    np.any: lambda x, axis=None, out=None, keepdims=False, **k: reduce_("logical_or", x, axis, keepdims),
    np.all: lambda x, axis=None, out=None, keepdims=False, **k: reduce_("logical_and", x, axis, keepdims),
    np.nansum: _nanred("add", 0.0),
    np.nanprod: _nanred("multiply", 1.0),
    np.nanmin: _nanred("minimum", None),
    np.nanmax: _nanred("maximum", None),
    np.nanmean: nanmean,
    np.median: median,
    np.unwrap: unwrap,
    np.nanmedian: median,
    np.count_nonzero: _count_nonzero,
    np.cumsum: lambda x, axis=None, **k: cumulate(np.add, x, axis),
    np.dot: dot,
    np.matmul: dot,
    np.interp: interp,
    np.result_type: result_type,
    np.full_like: full_like,
    np.zeros_like: lambda a, dtype=None, shape=None, **k: full_like(a, 0, dtype, shape),
    np.ones_like: lambda a, dtype=None, shape=None, **k: full_like(a, 1, dtype, shape),
    np.empty_like: lambda a, dtype=None, shape=None, **k: full_like(a, 0, dtype, shape),
    np.copy: lambda a, **k: SymArray(obj(a).copy(), dt_of(a)),
    np.copyto: lambda d, s, casting=None, where=True: d.__setitem__(
        Ellipsis, s if where is True else globals()["where"](where, s, d)),
    np.array_equal: array_equal,
    np.array_equiv: array_equal,
    np.shape: lambda a: obj(a).shape,
    np.ndim: lambda a: obj(a).ndim,
    np.size: lambda a, axis=None: obj(a).size if axis is None else obj(a).shape[axis],
    np.iscomplexobj: lambda a: False,
    np.isrealobj: lambda a: True,
    np.real: lambda a: a,
    np.may_share_memory: lambda a, b, **k: np.may_share_memory(obj(a), obj(b)),
    np.shares_memory: lambda a, b, **k: np.shares_memory(obj(a), obj(b)),
    np.cross: None,
    np.std: None,
    np.var: None,
    np.fix: lambda x, **k: np.trunc(x),
}


def _unwrap(x):
    if isinstance(x, (SymArray, SV, SB)):
        return obj(x)
    if isinstance(x, np.ndarray):
        return x
    if hasattr(x, "variable") and hasattr(x, "dims"):
        return _unwrap(x.variable._data)
    if isinstance(x, list):
        return [_unwrap(i) for i in x]
    if isinstance(x, tuple):
        return tuple(_unwrap(i) for i in x)
    if isinstance(x, dict):
        return {k: _unwrap(v) for k, v in x.items()}
    return x


def _wrap(r, dt):
    if isinstance(r, np.ndarray):
        return SymArray(r, _F if dt is not None and dt.kind == "f" else None) if r.dtype == object else r
    if isinstance(r, (SV, SB)):
        return SymArray(obj(r))
    if isinstance(r, tuple):
        return tuple(_wrap(i, dt) for i in r)
    if isinstance(r, list):
        return [_wrap(i, dt) for i in r]
    return r


_STRUCTURAL = set()
for _n in ("pad concatenate stack vstack hstack dstack column_stack block insert append delete "
           "take_along_axis put_along_axis roll flip flipud fliplr rot90 moveaxis rollaxis swapaxes "
           "transpose reshape ravel squeeze expand_dims broadcast_to broadcast_arrays atleast_1d "
           "atleast_2d atleast_3d repeat tile split array_split hsplit vsplit diff ediff1d "
           "tril triu diag diagonal meshgrid resize compress choose select "
           "apply_along_axis trapezoid trim_zeros ix_ unique outer kron einsum tensordot "
           "lib.stride_tricks.sliding_window_view").split():
    _o = np
    for _p in _n.split("."):
        _o = getattr(_o, _p, None)
    if _o is not None:
        _STRUCTURAL.add(_o)


def function_dispatch(func, args, kwargs):
    if func in CUSTOM:
        f = CUSTOM[func]
        if f is None:
            raise EngineError(f"numpy function {func.__name__}")
        return f(*args, **kwargs)
    if func not in _STRUCTURAL:
        raise EngineError(f"numpy function {getattr(func, '__name__', func)} on symbolic values")
    dts = []

    def collect(x):
        if isinstance(x, (SymArray, SV, SB)):
            dts.append(dt_of(x))
        elif isinstance(x, (list, tuple)):
            for i in x:
                collect(i)

    collect(args)
    args = [_unwrap(a) for a in args]
    kwargs = {k: _unwrap(v) for k, v in kwargs.items()}
    name = func.__name__
    if name in ("stack", "concatenate", "vstack", "hstack", "block"):
        pass
    if name == "diff" and dts and dts[0] == _B:
        raise EngineError("diff of booleans")
    if name == "select":
        conds, choices = args[0], args[1]
        default = args[2] if len(args) > 2 else kwargs.get("default", 0)
        r = default
        for c, x in reversed(list(zip(conds, choices))):
            r = where(c, x, r)
        return r
    r = func(*args, **kwargs)
    fl = [d for d in dts if d.kind == "f"]
    return _wrap(r, fl[0] if fl else (dts[0] if dts else None))
