"""C26: a read that fails is tried again, a bounded number of times, and its outcome is never hidden."""
import contextlib
import time

import numpy as np
import xarray as xr

from engine.runner import Scenario

from .common import grid
from .files import DAY, FLUX, STATE, Preprocessed, scratch
from .runs import make_config

F = 6 * 3600
TRIES, PAUSE = 9, 0.5
OTHER = [FileNotFoundError, OSError, RuntimeError, KeyError, ValueError]


@contextlib.contextmanager
def faults(h, answers):
    """openings of files fail as `answers` says: None, or the exception of the k-th opening"""
    opened, pauses = [], []
    saved = xr.open_dataset, time.sleep, np.random.randint

    def open_dataset(path, *a, **k):
        e = answers(len(opened))
        opened.append(str(path))
        if e is not None:
            raise e(f"opening {len(opened)}")
        return saved[0](path, *a, **k)

    def randint(low, high=None, *a, **k):
        if high is None:
            low, high = 0, low
        return h.integer(f"random{len(pauses)}", low, high - 1)
    xr.open_dataset, time.sleep, np.random.randint = open_dataset, pauses.append, randint
    try:
        yield opened, pauses
    finally:
        xr.open_dataset, time.sleep, np.random.randint = saved


def make(subset, between):
    def fn(h):
        from wam2layers.tracking.io import load_data
        lat, lon = grid(2, 2)
        bad = h.integer("failures", 0, TRIES)
        then = h.choice("then", [None] + (OTHER if not between else OTHER[:1]))
        t = 2 * DAY + (h.integer("off", 1, F - 1) if between else 0)

        def answer(k):
            if k < bad:
                return IndexError
            return then if k == bad else None
        names = STATE if subset == "states" else FLUX
        with scratch(h) as (tmp, vfs):
            cfg = make_config(h, "backward", tmp, input_frequency="6h")
            pre = Preprocessed(h, cfg.preprocessed_data_folder, F, lat, lon, range(1, 4), names=STATE + FLUX)
            if vfs is not None:
                vfs.openers.append(pre.open)

            def right(label, r):
                lo = h.floor(t, F)
                w = (t - lo) / F
                for n in names:
                    v = r[n].variable._data
                    for j, i in np.ndindex(2, 2):
                        p = pre.value(n, lo, j, i)
                        q = pre.value(n, lo + F, j, i) if between else p
                        h.eq(f"{label}: {n}[{j},{i}]", v[j, i], p + w * (q - p), tol=1e-5)
            with faults(h, answer) as (opened, pauses):
                try:
                    r, err = load_data(h.instant(t), cfg, subset), None
                except tuple([IndexError] + OTHER) as e:
                    r, err = None, e
            n = len(opened)
            if r is not None:
                h.true("data only of a successful opening", h.land(bad < TRIES, then is None))
                h.true("opened again after each failure, and then once", n == bad + (2 if between else 1))
                right("data", r)
            elif isinstance(err, IndexError):
                h.true("given up only after nine failures in a row", bad >= TRIES)
                h.true("nine openings", n == TRIES)
                h.true("the error of the last opening", err.args == (f"opening {n}",))
            else:
                h.true("other errors are not retried", h.land(n == bad + 1, then is type(err)))
                h.true("the error itself", err.args == (f"opening {n}",))
            h.true("a pause after each failure that is retried", len(pauses) == n - (1 if r is None or not between else 2))
            for k, p in enumerate(pauses):
                h.ge(f"pause {k}", p, PAUSE * 2**k)
                h.le(f"pause {k} at most", p, 2 * PAUSE * 2**k)
            with faults(h, lambda k: None) as (opened, pauses):
                right("later", load_data(h.instant(t), cfg, subset))
                h.true("no pause without failure", pauses == [])
        h.reach()
    return fn


B = "0 to 9 failures in a row, then success or any of 5 other errors, any random part of the pauses; 2x2 cells, any data"
SCENARIOS = [Scenario("states-stored", make("states", False), B), Scenario("fluxes-stored", make("fluxes", False), B),
             Scenario("states-between", make("states", True), B + ", any instant between two input times")]
ASSUMPTIONS = []
OUTSIDE = "failures while values are read from an opened file; the netCDF library itself"
