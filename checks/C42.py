"""C42: the user is warned when the stability correction matters, and not again until it matters more."""
import re

import numpy as np

from engine.runner import Scenario

from .C41 import messages
from .common import Cfg, areas, ds, grid, vals
from .files import get, scratch


def criteria(h, tag, pct, f, warned, hist):
    """pct, f: share of the grid and strongest factor now; hist: (pct, f, warned) of the calls before"""
    e = 1e-6
    any_now = pct > 0
    stronger = h.land(any_now, *[1.1 * f < p[1] * (1 - e) for p in hist], 1.1 * f < 1 - e)
    larger = h.land(pct > 5, *[pct > 1.1 * p[0] for p in hist])
    first = h.land(pct > 5, *[p[0] <= 5 for p in hist])
    if not warned:
        h.true(f"warned when 10% stronger than ever before, call {tag}", h.lnot(stronger))
        h.true(f"warned when 10% more of the grid than ever before, call {tag}", h.lnot(larger))
        h.true(f"warned when more than 5% of the grid for the first time, call {tag}", h.lnot(first))
        return
    h.true(f"no warning without correction, call {tag}", any_now)
    last = [p for p in hist if p[2]]
    if last:
        p = last[-1]
        h.true(f"not warned again for less than 10% more, call {tag}",
               h.lor(pct > 1.1 * p[0], 1.1 * f < p[1] * (1 + e), h.land(p[0] <= 5, pct > 5)))
    else:
        h.true(f"not warned for 5% and a factor of 1/1.1, call {tag}", h.lor(pct > 5, 1.1 * f < 1 + e))


def warnings_of(got):
    return [t for lv, t in got if lv >= 30 and "stability correction" in t]


def make(calls, ncell, cells, shape=(4, 6)):
    """the tracker on arbitrary corrected and uncorrected fluxes"""
    def fn(h):
        import xarray as xr
        from wam2layers.utils.profiling import ProgressTracker
        ny, nx = shape
        lat, lon = grid(ny, nx)
        z = lambda: h.const_array(shape, 0.0)
        names = ["e_track", "tagged_precip", "losses", "gains", "s_track_upper_restart", "s_track_lower_restart"]
        tracker = ProgressTracker(ds(lat, lon, **{n: z() for n in names}))
        hist = []
        with scratch(h) as (tmp, vfs):
            cfg = Cfg(output_folder=tmp, timestep=600)
            for k in range(calls):
                ab, co = h.const_array(shape, 0.0), h.const_array(shape, 0.0)
                count, f = 0, 1.0
                for n, (j, i) in enumerate(np.ndindex(*shape)):
                    if n in cells:
                        g = h.real(f"factor{k}.{n}", 0, 1, nice=(0, 1))
                        h.assume(h.lor(g >= 0.001))
                        ab[j, i] = 2.0
                        co[j, i] = 2.0 * g
                        count = count + h.ite(g < 1, 1, 0)
                        f = h.min(f, g)
                    elif n < ncell:
                        ab[j, i] = co[j, i] = 2.0
                pct = 100 * count / (ny * nx)
                t = h.instant(3600 * k)
                with messages() as got:
                    d = ds(lat, lon, a=ab, c=co)
                    tracker.track_stability_correction(d["c"], d["a"], cfg, t)
                w = warnings_of(got)
                h.true(f"at most one warning, call {k}", len(w) <= 1)
                criteria(h, str(k), pct, f, bool(w), hist)
                hist.append((pct, f, bool(w)))
                if w:
                    m = re.search(r"(\S+\.nc)", w[0])
                    h.true(f"names the file, call {k}", m is not None)
                    v = vals(get(h, vfs, m.group(1))["correction_factor"])
                    for n, (j, i) in enumerate(np.ndindex(*shape)):
                        if n in cells or n == ncell - 1:
                            h.eq(f"correction factor in the file [{j},{i}], call {k}", v[j, i], co[j, i] / 2, tol=1e-5)
        h.reach()
    return fn


def step(calls, cells):
    """the tracker as the stability correction calls it"""
    def fn(h):
        from wam2layers.tracking.core import stabilize_fluxes
        from wam2layers.utils.profiling import ProgressTracker
        ny, nx = 3, 4
        lat, lon = grid(ny, nx)
        a = areas(lat, 2.0, 2.0)  # the limit: half the moisture of a cell per timestep
        z = lambda: h.const_array((ny, nx), 0.0)
        names = ["e_track", "tagged_precip", "losses", "gains", "s_track_upper_restart", "s_track_lower_restart"]
        tracker = ProgressTracker(ds(lat, lon, **{n: z() for n in names}))
        dt, hist = 600, []
        with scratch(h) as (tmp, vfs):
            cfg = Cfg(output_folder=tmp, timestep=dt)
            for k in range(calls):
                F = {f"{c}_{l}": z() for c in ("fx", "fy") for l in ("upper", "lower")}
                S = {f"s_{l}": z() for l in ("upper", "lower")}
                for v in S.values():
                    v[:] = 20.0
                seq = {}
                for l in ("upper", "lower"):
                    count, f = 0, 1.0
                    for n, (j, i) in enumerate(((1, 1), (2, 3))[:cells]) if l == "lower" else ():
                        lim = 20.0 * float(a[j]) / 2 / dt
                        m = h.real(f"multiple{k}.{n}", 0.01, 100, nice=(0.1, 10))
                        F[f"fy_{l}"][j, i] = (-1) ** n * m * lim
                        count = count + h.ite(m > 1.000001, 1, 0)
                        h.assume(h.lor(m < 0.999999, m > 1.000001))
                        f = h.min(f, h.ite(m > 1, 1 / m, 1.0))
                    seq[l] = (100 * count / (ny * nx), f)
                with messages() as got:
                    stabilize_fluxes(ds(lat, lon, **F), ds(lat, lon, **S), tracker, cfg, h.instant(3600 * k))
                w = warnings_of(got)
                h.true(f"at most one warning, step {k}", len(w) <= 1)
                criteria(h, f"{k}", *seq["lower"], bool(w), hist)
                hist.append((*seq["lower"], bool(w)))
        h.reach()
    return fn


SCENARIOS = [Scenario("history", make(2, 10, (0, 1, 2)), "2 calls, 4x6 grid, 3 cells with any correction"),
             Scenario("longer", make(3, 10, (0, 7)), "3 calls, 4x6 grid, 2 cells with any correction"),
             Scenario("in-steps", step(2, 1), "2 steps, 3x4 grid, meridional flux up to 100 times the limit in a cell"),
             Scenario("history-deep", make(3, 24, (0, 1, 2)), "3 calls, 3 cells with any correction", thorough_only=True),
             Scenario("in-steps-deep", step(3, 1), "3 steps, meridional flux up to 100 times the limit in a cell", thorough_only=True)]
ASSUMPTIONS = ["corrections of more than a factor 0.001"]
OUTSIDE = "longer histories; what the user does about it"
