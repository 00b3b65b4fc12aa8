"""C43: the input checker warns exactly when the data break a documented requirement."""
import warnings

import numpy as np
import xarray as xr

from engine import timesym as T
from engine.runner import Scenario

RANGE = {"evap": (0, 0.001), "precip": (0, 0.1), "s_upper": (0, 1000), "s_lower": (0, 1000),
         "fx_upper": (-1000, 1000), "fy_upper": (-1000, 1000), "fx_lower": (-1000, 1000), "fy_lower": (-1000, 1000)}
UNITS = {"evap": "kg m-2 s-1", "precip": "kg m-2 s-1", "s_upper": "kg m-2", "s_lower": "kg m-2",
         "fx_upper": "kg m-1 s-1", "fy_upper": "kg m-1 s-1", "fx_lower": "kg m-1 s-1", "fy_lower": "kg m-1 s-1"}
DIMS = ("time", "latitude", "longitude")
HOUR = 3600


def dataset(h, shape=(2, 3, 3), fields=None, units=None, lat=None, lon=None, secs=None):
    nt, ny, nx = shape
    lat = [50.0 - k for k in range(ny)] if lat is None else lat
    lon = [10.0 + k for k in range(nx)] if lon is None else lon
    secs = [HOUR * k for k in range(nt)] if secs is None else secs
    tt = np.empty(len(secs), dtype=object)
    tt[:] = [T.real_time(s) for s in secs]
    out = {}
    for n, (lo, hi) in RANGE.items():
        v = (fields or {}).get(n)
        if v is None:
            v = h.const_array(shape, hi / 4)
        u = UNITS[n] if units is None or n not in units else units[n]
        out[n] = (DIMS, v, {} if u is None else {"units": u})
    return xr.Dataset(out, coords={"time": tt, "latitude": ("latitude", lat), "longitude": ("longitude", lon)})


def warned(ds):
    from wam2layers.analysis.checks import check_input
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        check_input(ds)
    return [str(x.message) for x in w if issubclass(x.category, UserWarning)]


def values(names):
    def fn(h):
        n = h.choice("variable", names)
        shape = (2, 3, 3)
        v = h.const_array(shape, RANGE[n][1] / 4)
        bad = []
        lo, hi = RANGE[n]
        for c in ((0, 0, 0), (1, 1, 2), (0, 2, 1)):
            v[c] = h.real(f"value{c}", -5000, 5000)
            bad.append(h.lor(v[c] < lo, v[c] > hi))
        bad = h.lor(*bad)
        w = warned(dataset(h, shape, {n: v}))
        h.true(f"warning about the values of {n} exactly if out of range", bad if w else h.lnot(bad))
        h.true("names the variable", all(n in x for x in w))
        h.reach()
    return fn


def coords(dim):
    def fn(h):
        n = 3
        c = h.array(dim, (n,), -90 if dim == "latitude" else -180, 90 if dim == "latitude" else 180)
        d = [c[k + 1] - c[k] for k in range(n - 1)]
        up = dim == "longitude"
        for x in d:
            h.assume(h.lor(x == d[0], h.abs(x - d[0]) > 1e-3))
        ok = h.land(*[x == d[0] for x in d], *[(x >= 0) if up else (x <= 0) for x in d])
        w = warned(dataset(h, (2, n, 3) if dim == "latitude" else (2, 3, n), **{dim[:3]: c.copy()}))
        h.true(f"warning about {dim} exactly if not uniform or in the wrong order",
               h.lnot(ok) if w else ok)
        h.true("names the coordinate", all(dim in x for x in w))
        h.reach()
    return fn


def meta(h):
    """units and times"""
    names = list(RANGE)
    kind = h.choice("kind", ["fine", "no units", "other units", "time backwards", "time uneven"])
    n = h.choice("variable", names)
    k = h.integer("minutes", -300, 300)
    u = {"no units": {n: None}, "other units": {n: "m"}}.get(kind)
    secs = {"time backwards": [HOUR, 0, -HOUR], "time uneven": [0, HOUR, 3 * HOUR]}.get(kind, [0, HOUR, 2 * HOUR])
    w = warned(dataset(h, (3, 3, 3), units=u, secs=secs))
    h.true(f"{kind}: {n}", bool(w) == (kind != "fine") and k == k)
    if u:
        h.true("names the variable", all(n in x for x in w))
    h.reach()


SCENARIOS = [Scenario("values", values(list(RANGE)), "8 variables, any three values among valid ones"),
             Scenario("latitudes", coords("latitude"), "any three latitudes"),
             Scenario("longitudes", coords("longitude"), "any three longitudes"),
             Scenario("units-and-times", meta, "units missing or wrong for any variable, times backwards or uneven")]
ASSUMPTIONS = ["spacings that differ do so by more than 0.001 degrees (uniform spacing is compared exactly)"]
OUTSIDE = "missing variables, other numbers of dimensions"
