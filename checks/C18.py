"""C18: the cache of loaded slices is invisible: what a caller does to a slice never shows in later loads."""
import numpy as np

from engine.runner import Scenario

from .common import grid
from .files import DAY, FLUX, STATE, Preprocessed, scratch
from .runs import make_config

F = 6 * 3600


def mutations(h, ds, c):
    """what the tracking code (and any caller) does to a loaded slice"""
    for n in list(ds.data_vars):
        ds[n] *= c
    for n in list(ds.data_vars):
        v = ds[n].values
        v[0, 0] = v[0, 0] + c
    ds["extra"] = ds[n] * c
    ds["latitude"] = ds["latitude"] + 1.0
    ds.attrs["x"] = 1


def make(subset, loads):
    def fn(h):
        from wam2layers.config import BoundingBox
        from wam2layers.tracking.io import load_data
        lat, lon = grid(3, 3)
        c = h.real("c", 2, 3)
        t0 = h.choice("t0", [0, 1])
        base = 2 * DAY - F * t0 + (0 if loads != "between" else h.integer("off", 1, F - 1))
        names = STATE + FLUX
        with scratch(h) as (tmp, vfs):
            a = make_config(h, "backward", tmp, input_frequency="6h")
            b = make_config(h, "backward", tmp, input_frequency="6h",
                            preprocessed_data_folder=tmp / "other")
            sub = make_config(h, "backward", tmp, input_frequency="6h",
                              tracking_domain=BoundingBox(20, 8, 22, 10))
            pre = {}
            for tag, cfg in (("a", a), ("b", b)):
                pre[tag] = Preprocessed(h, cfg.preprocessed_data_folder, F, lat, lon, range(0, 4), tag=tag)
                if vfs is not None:
                    vfs.openers.append(pre[tag].open)

            def check(label, r, src, t, sset, jj=range(3), ii=range(3)):
                names = STATE if sset == "states" else FLUX
                h.true(f"{label} names", set(r.data_vars) == set(names))
                lo = h.floor(t, F)
                hi = h.ite(lo == t, lo, lo + F)
                w = (t - lo) / F
                h.true(f"{label} shape", r[names[0]].shape == (len(jj), len(ii)))
                h.true(f"{label} latitude", bool(np.array_equal(r["latitude"].values, lat[list(jj)])))
                for n in names:
                    v = r[n].variable._data
                    for y, j in enumerate(jj):
                        for x, i in enumerate(ii):
                            p, q = src.value(n, lo, j, i), src.value(n, hi, j, i)
                            h.eq(f"{label} {n}[{j},{i}]", v[y, x], p + w * (q - p), tol=1e-5)

            other = "fluxes" if subset == "states" else "states"
            t = h.instant(base)
            first = load_data(t, a, subset)
            check("first", first, pre["a"], base, subset)
            mutations(h, first, c)
            second = load_data(t, a, subset)
            check("again", second, pre["a"], base, subset)
            check("other data", load_data(t, a, other), pre["a"], base, other)
            check("other folder", load_data(t, b, subset), pre["b"], base, subset)
            check("other domain", load_data(t, sub, subset), pre["a"], base, subset, range(2), range(2))
            check("other time", load_data(h.instant(base + F), a, subset), pre["a"], base + F, subset)
            mutations(h, second, c)
            check("third", load_data(h.instant(base), a, subset), pre["a"], base, subset)
            h.reach()
    return fn


SCENARIOS = [Scenario(f"{s}-{k}", make(s, k), "sequences of 7 loads with in-place changes in between: same data, other "
                      "variables, folder, domain and instant; arbitrary field values")
             for s in ("states", "fluxes") for k in ("exact", "between")]
ASSUMPTIONS = ["the listed in-place changes stand for whatever callers do"]
OUTSIDE = "more than 7 loads in a row; eviction orders beyond them"
