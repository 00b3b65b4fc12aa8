"""C31: incomplete or invalid input is refused before anything is written; complete input is accepted."""
import numpy as np
import xarray as xr

from engine import timesym as T
from engine.runner import Scenario

from .common import grid
from .files import scratch
from .raw import HOUR, arco, cmip, era5
from .runs import make_config

SURF = {"model_levels": ["ps", "precip", "evap"], "pressure_levels": ["ps", "precip", "evap", "qs", "us", "vs"]}
LEV = {"model_levels": ["q", "u", "v", "dp"], "pressure_levels": ["q", "u", "v"]}


def refused(f):
    try:
        f()
    except Exception as e:
        if type(e).__module__.startswith("engine") or type(e).__name__ in ("Assumption", "PathAbort", "Inconclusive"):
            raise
        return type(e).__name__
    return None


def build(h, level_type, hole, drop=None, reshape=None, dimless=None):
    lat, lon = grid(2, 2)
    d3, d2 = ("level", "latitude", "longitude"), ("latitude", "longitude")
    out = {}
    for n in SURF[level_type] + LEV[level_type] + ["tcw"]:
        if n == drop:
            continue
        lev = n in LEV[level_type]
        if n == reshape:
            lev = not lev
        a = h.array(n, (2, 2, 2) if lev else (2, 2), nice=(0, 9))
        if hole:
            for i in np.ndindex(*a.shape):
                a[i] = h.ite(h.boolean(f"nan {n}{i}"), float("nan"), a[i])
        out[n] = (d3 if lev else d2, a)
    ds = xr.Dataset(out, coords={"level": [1, 2], "latitude": lat, "longitude": lon})
    if dimless:
        ds = ds.isel({dimless: 0}, drop=True) if dimless != "rename" else ds.rename(latitude="lat")
    return ds


def attempt(h, level_type, source, ds):
    """did the repository refuse this input, and was anything written?"""
    from engine.patches import Stubs
    from wam2layers.preprocessing import arco, cmip, era5, shared
    loader = {"ERA5": era5, "CMIP": cmip, "ARCO": arco}[source].get_input_data
    ret = (lambda t, c: ds) if source == "CMIP" else (lambda t, c: (ds, {}))
    with scratch(h) as (tmp, vfs):
        (tmp / "pre").mkdir()
        cfg = make_config(h, "backward", tmp, level_type=level_type, levels=[1, 2], level_layer_boundary=1,
                          preprocessed_data_folder=tmp / "pre")
        with Stubs([(loader, ret)]):
            err = refused(lambda: shared.get_input_data(h.instant(0), cfg, source))
            written = False
            if err is not None:
                refused(lambda: shared.preprocess([h.instant(0)], source, cfg))
                written = bool(vfs.files) if h.symbolic else any((tmp / "pre").iterdir())
    return err, written


def holes(level_type, source):
    def fn(h):
        ds = build(h, level_type, True)
        any_nan = h.lor(*[h.boolean(f"nan {n}{i}") for n in SURF[level_type] + LEV[level_type] + ["tcw"]
                          for i in np.ndindex(*((2, 2, 2) if n in LEV[level_type] else (2, 2)))])
        err, written = attempt(h, level_type, source, ds)
        h.true("refused exactly when a value is missing", any_nan if err is not None else h.lnot(any_nan))
        h.true("nothing written", not written)
        h.reach()
    return fn


def shapes(level_type, source):
    names = SURF[level_type] + LEV[level_type]

    def fn(h):
        kind, n = h.choice("defect", [("drop", n) for n in names] + [("reshape", n) for n in names]
                           + [("dimless", d) for d in ("level", "latitude", "longitude", "rename")])
        err, written = attempt(h, level_type, source, build(h, level_type, False, **{kind: n}))
        h.true(f"refused: {kind} {n}", err is not None)
        h.true("nothing written", not written)
        h.reach()
    return fn


def fine(h):
    level_type = h.choice("levels", list(SURF))
    source = h.choice("source", ["ERA5", "CMIP", "ARCO"])
    err, _ = attempt(h, level_type, source, build(h, level_type, False, drop=h.choice("tcw", [None, "tcw"])))
    h.true("accepted", err is None)
    h.reach()


def outcome(h, source, t, cfg, tmp, vfs):
    """was the time refused by the whole of preprocessing, and was anything written?"""
    from wam2layers.preprocessing import shared
    old = len(vfs.files) if h.symbolic else 0
    err = refused(lambda: shared.get_input_data(t, cfg, source))
    if err is not None:
        refused(lambda: shared.preprocess([t], source, cfg))
    return err, (len(vfs.files) > old if h.symbolic else any((tmp / "pre").iterdir()))


def without(dim, value):
    def f(ds):
        d = next(d for d in ds.dims if d in dim)
        return ds.isel({d: [k for k, v in enumerate(ds[d].values) if v != value]})
    return f


TIME, LEVEL = ("time", "valid_time"), ("level", "pressure_level", "plev")


def era5_gap(level_type):
    names = ["q", "u", "v", "sp", "e", "tp", "tcw"] + (["d2m", "u10", "v10"] if level_type == "pressure_levels" else [])
    levels = (100, 120) if level_type == "model_levels" else (500, 850)

    def fn(h):
        kind, n = h.choice("gap", [("file", n) for n in names if n != "tcw"] + [("time", n) for n in names]
                           + [("level", n) for n in "quv"])
        secs = [22 * HOUR, 22 * HOUR + 1800, 23 * HOUR]
        t = h.choice("time", secs)

        def edit(name, ds):
            if name != n:
                return ds
            return None if kind == "file" else without(TIME, T.real_time(t))(ds) if kind == "time" else without(LEVEL, levels[0])(ds)
        with era5(h, level_type, secs, levels, 2, 2, edit=edit, want=list(levels), input_frequency="30min",
                  level_layer_boundary=110) as (raw, cfg, tmp, vfs):
            err, written = outcome(h, "ERA5", T.real_time(t), cfg, tmp, vfs)
            h.true(f"refused: no {kind} of {n}", err is not None)
            h.true(f"nothing written: no {kind} of {n}", not written)
        h.reach()
    return fn


def cmip_gap(h):
    names = ["hus", "ua", "va", "ps", "huss", "uas", "vas", "pr", "hfls"]
    kind, n = h.choice("gap", [("file", n) for n in names] + [("time", n) for n in names] + [("pair", n) for n in ("pr", "hfls")]
                       + [("last", n) for n in ("pr", "hfls")])
    secs = [6 * HOUR * k for k in range(1, 4)]
    t = secs[1]

    def edit(name, ds):
        if name != n:
            return ds
        if kind == "file":
            return None
        c = "noleap"
        if kind == "last":  # of the two values that make up this time's flux, the second is missing, and so are all later ones
            return ds.isel(time=slice(0, 3))
        gone = [t] if n not in ("pr", "hfls") else [t - 1.5 * HOUR] if kind == "time" else [t - 1.5 * HOUR, t + 1.5 * HOUR]
        for g in gone:
            ds = without(TIME, T.real_time(int(g), c))(ds)
        return ds
    with cmip(h, secs, (85000, 50000), edit=edit) as (raw, cfg, tmp, vfs):
        err, written = outcome(h, "CMIP", T.real_time(t, raw.calendar), cfg, tmp, vfs)
        h.true(f"refused: no {kind} of {n}", err is not None)
        h.true(f"nothing written: no {kind} of {n}", not written)
    h.reach()


def arco_gap(h):
    secs, levels = [22 * HOUR, 23 * HOUR, 24 * HOUR], (500, 850)
    kind, k = h.choice("gap", [("time", 1), ("time", 0), ("valid", 0), ("valid", 2), ("level", 0), ("level", 1)])
    valid = None if kind != "valid" else (secs[1], secs[2]) if k == 0 else (secs[0], secs[1])
    t = secs[k]
    edit = {"time": without(TIME, T.real_time(t, "proleptic_gregorian")), "level": without(LEVEL, levels[k % 2])}.get(kind)
    with arco(h, secs, levels, edit=edit, valid=valid, input_frequency="1h") as (raw, cfg, tmp, vfs):
        err, written = outcome(h, "ARCO", T.real_time(t, raw.calendar), cfg, tmp, vfs)
        h.true(f"refused: {kind} {k} missing", err is not None)
        h.true(f"nothing written: {kind} {k} missing", not written)
    h.reach()


GAPS = [Scenario(f"era5-gaps-{lt[:5]}", era5_gap(lt), "any one file, time or level of any one variable missing; 3 times, 2 levels, 2x2 cells, any fields")
        for lt in SURF] + [
    Scenario("cmip-gaps", cmip_gap, "any one file or time of any one variable missing; 3 times, 2 levels, 2x2 cells, any fields"),
    Scenario("arco-gaps", arco_gap, "a time, a level or the validity of a time missing; 3 times, 2 levels, 2x2 cells, any fields")]
SCENARIOS = GAPS + [Scenario("complete", fine, "2 level types, 3 sources, with and without column water, any values")] + [
    Scenario(f"missing-values-{lt[:5]}", holes(lt, s), "a missing value in any subset of the elements of every variable")
    for lt, s in (("model_levels", "ERA5"), ("pressure_levels", "CMIP"))] + [
    Scenario(f"wrong-shape-{lt[:5]}", shapes(lt, s), "every single variable or dimension missing, every variable with the wrong dimensions")
    for lt, s in (("model_levels", "ERA5"), ("pressure_levels", "ARCO"))]
ASSUMPTIONS = []
OUTSIDE = "more than 2x2x2 values; values that are present but unphysical"
