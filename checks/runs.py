"""A whole tracking run with the physics replaced by recorders: its schedule and bookkeeping."""
import contextlib
import inspect
import tempfile
from pathlib import Path

import numpy as np
import xarray as xr

from .common import grid

NY = NX = 3
ACC = {"backward": ["e_track", "tagged_precip", "losses", "gains"],
       "forward": ["p_track_upper", "p_track_lower", "tagged_evap", "losses", "gains"]}


def make_config(h, direction, tmp, **kw):
    from wam2layers.config import BoundingBox, Config
    d = dict(filename_template="x", preprocessed_data_folder=Path(tmp) / "pre", calendar="standard",
             tracking_direction=direction, tagging_region=BoundingBox(19, 5, 23, 11),
             tracking_domain=None, output_folder=Path(tmp), parallel_preprocess=False,
             input_frequency="1h", timestep=600, output_frequency="1D", level_type="model_levels",
             levels=[1], restart=False, periodic_boundary=False, kvf=3.0)
    c = kw.get("calendar", "standard")
    for n in ("tracking", "tagging", "preprocess"):
        d[f"{n}_start_date"], d[f"{n}_end_date"] = h.instant(0, c), h.instant(86400 * 31, c)
    d.update(kw)
    return Config.model_construct(**d)


def field(h, v):
    a = np.empty((NY, NX), dtype=object if h.symbolic else float)
    a.fill(v)
    return h._arr(a)


class Recorder:
    """what the run did, in order"""

    def __init__(self):
        self.steps, self.writes, self.loads, self.log = [], [], [], []


@contextlib.contextmanager
def recorded_run(h, direction, step=None, real=(), load=None, capture=False, limit=None, vertical=None, **kw):
    """yields run() -> Recorder; `step(rec, k, output)` may update the output fields, `load` gives the data,
    `limit` and `vertical` stand in for the limiter and the vertical flux"""
    from engine.patches import Stubs
    from wam2layers.config import Config
    from wam2layers.tracking import backtrack as B, core, forwardtrack as F, io
    from wam2layers.utils import profiling
    lat, lon = grid(NY, NX)
    rec = Recorder()
    mod = B if direction == "backward" else F

    def load_data(t, config, subset="fluxes"):
        rec.loads.append((subset, h.sec(t)))
        if load is not None:
            return load(subset, h.sec(t))
        names = ("s_upper", "s_lower") if subset == "states" else (
            "fx_upper", "fx_lower", "fy_upper", "fy_lower", "evap", "precip")
        mark = {"s_upper": h.sec(t), "s_lower": h.sec(t), "evap": h.sec(t), "precip": h.sec(t)}
        return xr.Dataset({n: (("latitude", "longitude"), field(h, mark.get(n, 0.0))) for n in names},
                          coords={"latitude": lat, "longitude": lon})

    orig_step = B.backtrack if direction == "backward" else F.forwardtrack
    sig = inspect.signature(orig_step)
    order = list(sig.parameters)  # F, S1, S0, mask, output, config

    def one_step(*a, **k):
        b = sig.bind(*a, **k).arguments
        v = [b[n] for n in order]
        fx, s1, s0, mask, out = v[:5]
        rec.steps.append({"F": cell(fx["evap"]), "S1": cell(s1["s_upper"]), "S0": cell(s0["s_lower"]),
                          "mask": mask, "n": len(rec.steps)})
        if capture:
            rec.steps[-1]["data"] = tuple({n: d[n].variable._data.copy() for n in d.data_vars} for d in v[:3])
        rec.log.append("step")
        if step is not None:
            step(rec, len(rec.steps) - 1, out)

    def write_output(output, t, config):
        rec.log.append("write")
        rec.writes.append({"t": h.sec(t), "after": len(rec.steps),
                           "fields": {n: cell(output[n]) for n in output.data_vars}})

    class Tracker:
        def __init__(self, *a, **k):
            pass

        def __getattr__(self, name):
            def f(*a, **k):
                rec.log.append(name)
            return f

    def stabilize(F, S, progress_tracker, config, t):
        if limit is not None:
            limit(F, S, config)

    def fz(F, S0, S1, dt, kvf):
        return F["evap"] * 0.0 if vertical is None else vertical(F, S0, S1, dt, kvf)

    pairs = {"load": (io.load_data, load_data), "step": (orig_step, one_step),
             "write": (io.write_output, write_output), "tracker": (profiling.ProgressTracker, Tracker),
             "stab": (core.stabilize_fluxes, stabilize), "fz": (core.calculate_fz, fz)}
    saved = Config.__dict__["from_yaml"]
    with tempfile.TemporaryDirectory() as tmp:
        cfg = make_config(h, direction, tmp, **kw)
        Config.from_yaml = classmethod(lambda cls, f: cfg)
        try:
            with Stubs([p for n, p in pairs.items() if n not in real]):
                def run():
                    mod.run_experiment("config.yaml")
                    return rec
                run.cfg, run.rec, run.tmp = cfg, rec, tmp
                yield run
        finally:
            Config.from_yaml = saved


def cell(da):
    d = da.variable._data
    x = d[tuple(0 for _ in range(d.ndim))]
    return x.item() if hasattr(x, "item") and not hasattr(x, "e") else x
