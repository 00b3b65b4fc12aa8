"""Coordinates with symbolic values: an xarray index that compares by solver decisions."""
from __future__ import annotations

import numpy as np
import xarray as xr
from xarray.core.indexes import Index, PandasIndex
from xarray.core.indexing import IndexSelResult
from xarray.core.variable import Variable

from . import core as C
from .arr import SymArray, obj
from .core import SV, EngineError


class SymIndex(Index):
    def __init__(self, dim, items, attrs=None):
        self.dim = dim
        self.items = list(items)
        self.attrs = attrs

    @classmethod
    def from_variables(cls, variables, *, options=None):
        (name, v), = variables.items()
        return cls(v.dims[0], obj(v._data), v.attrs)

    def create_variables(self, variables=None):
        name, attrs, enc = self.dim, self.attrs, None
        if variables:
            for n, v in variables.items():
                name, attrs = n, v.attrs
        a = np.empty(len(self.items), dtype=object)
        a[:] = self.items
        return {name: Variable((self.dim,), SymArray(a, np.dtype(float)), attrs)}

    def isel(self, indexers):
        k = indexers[self.dim]
        if isinstance(k, Variable):
            if k.dims != (self.dim,):
                return None
            k = k._data
        if isinstance(k, (int, np.integer)):
            return None
        if isinstance(k, SymArray):
            k = [x.__index__() if isinstance(x, SV) else int(x) for x in k.a]
        if isinstance(k, slice):
            return SymIndex(self.dim, self.items[k], self.attrs)
        return SymIndex(self.dim, [self.items[int(i)] for i in np.asarray(k)], self.attrs)

    def monotone(self, up):
        for a, b in zip(self.items, self.items[1:]):
            if not ((a <= b) if up else (a >= b)):
                return False
        return True

    def sel(self, labels, method=None, tolerance=None):
        (name, lab), = labels.items()
        n = len(self.items)
        if isinstance(lab, slice):
            if lab.step not in (None, 1):
                raise EngineError("a label slice with a step")
            lo, hi = lab.start, lab.stop
            lo, hi = [_scalar(x) for x in (lo, hi)]
            if n > 1 and not self.monotone(True):
                if not self.monotone(False):
                    raise KeyError("Cannot get left slice bound for non-unique / non-monotonic label")
                lo, hi = hi, lo
            keep = [i for i, x in enumerate(self.items)
                    if (lo is None or x >= lo) and (hi is None or x <= hi)]
            if keep and keep != list(range(keep[0], keep[-1] + 1)):
                raise EngineError("a label slice that is not contiguous")
            return IndexSelResult({self.dim: slice(keep[0], keep[-1] + 1) if keep else slice(0, 0)})
        dims = lab.dims if isinstance(lab, (xr.DataArray, Variable)) else None
        data = lab.variable._data if isinstance(lab, xr.DataArray) else (lab._data if isinstance(lab, Variable) else lab)
        arr = obj(data)
        if arr.ndim == 0:
            return IndexSelResult({self.dim: self._find(arr.item(), method)})
        if arr.ndim != 1:
            raise EngineError("pointwise selection")
        vals = list(arr)
        if vals and all(isinstance(x, (bool, np.bool_, C.SB)) for x in vals):
            if len(vals) != n:
                raise IndexError("boolean index did not match")
            idx = [i for i, x in enumerate(vals) if x]
        else:
            idx = [self._find(x, method) for x in vals]
        ix = np.array(idx, dtype=int)
        if dims is not None:
            return IndexSelResult({self.dim: Variable(dims, ix)})
        return IndexSelResult({self.dim: ix})

    def _find(self, x, method):
        if method is None:
            for i, y in enumerate(self.items):
                if y == x:
                    return i
            raise KeyError(x)
        if method == "nearest":
            best = 0
            for i in range(1, len(self.items)):
                d0, d1 = C.s_abs(self.items[best] - x), C.s_abs(self.items[i] - x)
                # pandas prefers the larger label on a tie
                if (d1 < d0) if self.items[i] < self.items[best] else (d1 <= d0):
                    best = i
            return best
        raise EngineError("sel method " + str(method))

    def equals(self, other, **kw):
        if isinstance(other, PandasIndex):
            it = list(other.index)
        elif isinstance(other, SymIndex):
            it = other.items
        else:
            return False
        if len(it) != len(self.items):
            return False
        for a, b in zip(self.items, it):
            if a is b:
                continue
            if not (C.s_eq(a, b)):
                return False
        return True

    def join(self, other, how="inner"):
        if self.equals(other):
            return self
        raise EngineError("aligning different symbolic coordinates")

    def reindex_like(self, other, **kw):
        if self.equals(other):
            return {}
        raise EngineError("reindexing symbolic coordinates")

    def roll(self, shifts):
        k = int(shifts[self.dim]) % max(1, len(self.items))
        it = self.items[-k:] + self.items[:-k] if k else self.items
        return SymIndex(self.dim, it, self.attrs)

    def rename(self, name_dict, dims_dict):
        return SymIndex(dims_dict.get(self.dim, self.dim), self.items, self.attrs)

    def _copy(self, deep=True, memo=None):
        return SymIndex(self.dim, self.items, self.attrs)

    def __deepcopy__(self, memo=None):
        return self._copy()

    def copy(self, deep=True):
        return self._copy()

    @classmethod
    def concat(cls, indexes, dim, positions=None):
        return cls(dim, [x for i in indexes for x in (i.items if isinstance(i, SymIndex) else list(i.index))])

    def to_pandas_index(self):
        import pandas as pd
        return SymPandas(self)

    @property
    def index(self):
        return SymPandas(self)


class SymPandas:
    """the little that is asked of `.indexes[...]`"""

    def __init__(self, ix):
        self.ix = ix

    @property
    def is_monotonic_increasing(self):
        return self.ix.monotone(True)

    @property
    def is_monotonic_decreasing(self):
        return self.ix.monotone(False)

    @property
    def is_unique(self):
        it = self.ix.items
        for i in range(len(it)):
            for j in range(i):
                if it[i] == it[j]:
                    return False
        return True

    def __len__(self):
        return len(self.ix.items)


def _scalar(x):
    if x is None:
        return None
    if isinstance(x, xr.DataArray):
        x = x.variable._data
    if isinstance(x, (SymArray, np.ndarray)):
        x = x.item()
    return x


def is_sym(v):
    return isinstance(getattr(v, "_data", None), SymArray)


def install():
    old_ti = Variable.to_index_variable

    def to_index_variable(self):
        return self if is_sym(self) else old_ti(self)

    Variable.to_index_variable = to_index_variable

    old_fv = PandasIndex.from_variables.__func__

    def from_variables(cls, variables, *, options):
        (name, v), = variables.items() if len(variables) == 1 else ((None, None),)
        if v is not None and is_sym(v):
            return SymIndex.from_variables(variables)
        return old_fv(cls, variables, options=options)

    PandasIndex.from_variables = classmethod(from_variables)

    old_eq = PandasIndex.equals

    def equals(self, other, **kw):
        if isinstance(other, SymIndex):
            return other.equals(self)
        return old_eq(self, other, **kw)

    PandasIndex.equals = equals

    old_lex = np.lexsort

    def lexsort(keys, axis=-1):
        ks = list(keys)
        datas = [k.variable._data if isinstance(k, xr.DataArray) else k for k in ks]
        if any(isinstance(d, SymArray) for d in datas):
            if len(datas) != 1:
                raise EngineError("lexsort with several symbolic keys")
            return np.array([int(i) for i in concrete_order(list(obj(datas[0])))])
        return old_lex(keys, axis)

    np.lexsort = lexsort


def concrete_order(items):
    """a stable ascending order, decided comparison by comparison"""
    order = []
    for i, x in enumerate(items):
        k = len(order)
        while k > 0 and x < items[order[k - 1]]:
            k -= 1
        order.insert(k, i)
    return order
