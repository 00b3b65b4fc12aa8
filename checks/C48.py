"""C48: figures show the totals of the whole run."""
import contextlib
import warnings
from pathlib import Path

import numpy as np
import xarray as xr

from engine import timesym as T
from engine.arr import obj
from engine.runner import Scenario

from .common import grid
from .files import DAY, FLUX, put, scratch
from .runs import make_config

HOUR = 3600
NY, NX = 2, 3
DRAW = ("__call__", "pcolormesh", "imshow", "contourf", "contour", "surface")


@contextlib.contextmanager
def canvas(h, cfg):
    """yields the list of (kind, array) that are drawn"""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.figure
    from xarray.plot.accessor import DataArrayPlotAccessor as P

    from wam2layers.config import Config
    drawn, saved = [], {}

    def recorder(n):
        def draw(self, *a, **k):
            drawn.append((n, self._da))
        return draw

    def savefig(self, path, *a, **k):
        Path(path).touch()
    from_yaml = Config.__dict__["from_yaml"]
    figsave = matplotlib.figure.Figure.savefig
    for n in DRAW:
        saved[n] = P.__dict__[n]
        setattr(P, n, recorder(n))
    matplotlib.figure.Figure.savefig = savefig
    Config.from_yaml = classmethod(lambda cls, f: cfg)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield drawn
    finally:
        for n, f in saved.items():
            setattr(P, n, f)
        matplotlib.figure.Figure.savefig = figsave
        Config.from_yaml = from_yaml
        import matplotlib.pyplot as plt
        plt.close("all")


def times(secs, cal):
    a = np.empty(len(secs), dtype=object)
    a[:] = [T.real_time(s, cal) for s in secs]
    return a


def data(h, tmp, vfs, tag, secs, names, lat, lon, cal, path):
    out = {n: h.array(f"{n}{tag}", (len(secs), len(lat), len(lon)), lo=0, nice=(0, 9)) for n in names}
    ds = xr.Dataset({n: (("time", "latitude", "longitude"), v) for n, v in out.items()},
                    coords={"time": times(secs, cal), "latitude": lat, "longitude": lon})
    if h.symbolic:
        Path(path).parent.mkdir(parents=True, exist_ok=True)
        Path(path).touch()
    put(h, vfs, path, ds)
    return out


def regions(h, tmp, vfs, lat, lon, kind):
    """(configured region, domain, its values on the cells of the domain, their rows and columns)"""
    from wam2layers.config import BoundingBox
    rows, cols = list(range(len(lat))), list(range(len(lon)))
    domain = None
    if kind.endswith("domain"):
        domain = BoundingBox(lon[0] - 0.5, lat.min() - 0.5, lon[1] + 0.5, lat.max() + 0.5)
        cols = [0, 1]
    if kind.startswith("box"):
        box = BoundingBox(lon[0] - 0.5, lat[1] - 0.5, lon[1] + 0.5, lat[1] + 0.5)
        w = np.zeros((len(lat), len(lon)))
        w[1, :2] = 1
        return box, domain, w[np.ix_(rows, cols)], rows, cols
    w = h.array("region", (2, 2), lo=0.01, hi=1, nice=(0.25, 1))
    full = np.zeros((len(lat), len(lon)), dtype=object if h.symbolic else float)
    full[:, :2] = w.a if hasattr(w, "a") else w
    put(h, vfs, tmp / "region.nc", xr.Dataset({"tagging_region": (("latitude", "longitude"), h._arr(full))},
                                              coords={"latitude": lat, "longitude": lon}))
    return tmp / "region.nc", domain, full[np.ix_(rows, cols)], rows, cols


def output(direction, kind):
    fwd = direction == "forward"

    def fn(h):
        from wam2layers.analysis import visualization as V
        from wam2layers.tracking.io import input_path, output_path
        cal = h.choice("calendar", ["standard", "noleap"])
        fname, freq = h.choice("freq", [("1D", DAY), ("6h", 6 * HOUR), ("3h", 3 * HOUR)])
        n = h.choice("outputs", [2, 3, 4])
        start = h.choice("start", [0, 27 * DAY + 12 * HOUR])
        names = ["p_track_upper", "p_track_lower"] if fwd else ["e_track"]
        lat, lon = grid(NY, NX)
        with scratch(h) as (tmp, vfs):
            region, domain, _, rows, cols = regions(h, tmp, vfs, lat, lon, kind)
            end = start + n * freq
            cfg = make_config(h, direction, tmp, calendar=cal, output_frequency=fname, tagging_region=region,
                              tracking_domain=domain, tracking_start_date=T.real_time(start, cal),
                              tracking_end_date=T.real_time(end, cal))
            (tmp / "pre").mkdir(exist_ok=True)
            day = end // DAY * DAY
            data(h, tmp, vfs, "pre", [day + k * HOUR for k in range(24)], ["s_upper", "s_lower"], lat, lon, cal,
                 input_path(T.real_time(day, cal), cfg.preprocessed_data_folder))
            total, files = 0.0, []
            # forward: results at the end of each interval; backward: at its start; the other end is a restart file
            for k in range(n + 1):
                t = start + k * freq
                f = data(h, tmp, vfs, str(k), [t], names, lat[rows], lon[cols], cal,
                         output_path(T.real_time(t, cal), cfg))
                if k == (0 if fwd else n):
                    continue
                files.append(sum(f[x][0] for x in names))
                total = total + files[-1]
            with canvas(h, cfg) as drawn:
                V.visualize_output_data("config.yaml")
            maps = [d for m, d in drawn if m not in ("contour",)]
            h.true("one map", len(maps) == 1)
            got = maps[0].variable
            h.true("dimensions", got.dims == ("latitude", "longitude"))
            h.true("on the grid of the results", bool(np.array_equal(maps[0].latitude.values, lat[rows])
                                                       and np.array_equal(maps[0].longitude.values, lon[cols])))
            last = files[-1]
            a, b = obj(got._data), obj(total)
            h.eq("all files", a[0, 0], b[0, 0], tol=1e-5)
            for j in range(a.shape[0]):
                for i in range(a.shape[1]):
                    # all of them, or all but the last one (known finding)
                    d = [h.abs(a[j, i] - x) for x in (b[j, i], b[j, i] - obj(last)[j, i])]
                    h.eq(f"other files[{j},{i}]", h.min(*d), 0.0, tol=1e-5)
            h.reach()
    return fn


def tagged(direction, kind):
    fwd = direction == "forward"

    def fn(h):
        from wam2layers.analysis import visualization as V
        from wam2layers.tracking.io import input_path
        cal = h.choice("calendar", ["standard", "noleap"])
        iname, ifreq = h.choice("input", [("1h", HOUR), ("6h", 6 * HOUR)])
        oname = h.choice("freq", ["1D", "6h"])
        t0, t1 = h.choice("tagging", [(DAY, 3 * DAY), (DAY + 12 * HOUR, DAY + 18 * HOUR),
                                      (DAY + 18 * HOUR, 2 * DAY + 6 * HOUR), (0, 23 * HOUR)])
        lat, lon = grid(NY, NX)
        with scratch(h) as (tmp, vfs):
            region, domain, weight, rows, cols = regions(h, tmp, vfs, lat, lon, kind)
            cfg = make_config(h, direction, tmp, calendar=cal, output_frequency=oname, input_frequency=iname,
                              tagging_region=region, tracking_domain=domain,
                              tagging_start_date=T.real_time(t0, cal), tagging_end_date=T.real_time(t1, cal),
                              tracking_start_date=T.real_time(0, cal), tracking_end_date=T.real_time(3 * DAY, cal))
            total = 0.0
            for d in range(4):
                ts = list(range(d * DAY, (d + 1) * DAY, ifreq))
                f = data(h, tmp, vfs, str(d), ts, ("precip", "evap", "s_upper", "s_lower"), lat, lon, cal,
                         input_path(T.real_time(d * DAY, cal), cfg.preprocessed_data_folder))
                for k, t in enumerate(ts):
                    if t0 <= t <= t1:
                        total = total + obj(f["evap" if fwd else "precip"])[k][np.ix_(rows, cols)] * ifreq
            with canvas(h, cfg) as drawn:
                V.visualize_input_data("config.yaml")
            maps = [d for m, d in drawn if m not in ("contour",)]
            h.true("one map", len(maps) == 1)
            got = maps[0].variable
            h.true("dimensions", got.dims == ("latitude", "longitude"))
            h.true("on the grid of the results", bool(np.array_equal(maps[0].latitude.values, lat[rows])
                                                       and np.array_equal(maps[0].longitude.values, lon[cols])))
            h.eq("total", got._data, h._arr(obj(weight) * total), tol=1e-5)
            h.reach()
    return fn


KINDS = ("box", "box-domain", "file", "file-domain")
SCENARIOS = [Scenario(f"output-{d}-{k}", output(d, k), "2-4 output files every 1 day, 6 h, 3 h, two start times, two "
                      "calendars, any values on 2x3 cells") for d in ("backward", "forward") for k in ("box", "file-domain")]
SCENARIOS += [Scenario(f"input-{d}-{k}", tagged(d, k), "four tagging periods within four days, hourly or 6-hourly input, "
                       "two calendars, any values on 2x3 cells") for d in ("backward", "forward")
              for k in (KINDS if d == "backward" else ("box", "file-domain"))]
ASSUMPTIONS = ["files hold whole output intervals", "values are not negative", "drawing itself (matplotlib, xarray) is replaced by a recorder"]
OUTSIDE = "how the map looks; snapshot figures; regions that change in time; shapefiles (C22)"
