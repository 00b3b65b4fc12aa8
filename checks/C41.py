"""C41: the progress report accounts for all tagged moisture since the start of the run."""
import contextlib
import logging
import re

import numpy as np

from engine.runner import Scenario

from .common import ds, grid
from .runs import ACC, NX, NY, field, recorded_run

STATE = ["s_track_upper_restart", "s_track_lower_restart"]
LABELS = {"tracked": "Tracked moisture", "atmosphere": "Tagged in atmosphere", "boundary": "Boundary transport",
          "lost": "Lost moisture", "gained": "Gained moisture", "closure": "Tagging closure"}


@contextlib.contextmanager
def messages():
    log, got = logging.getLogger("wam2layers"), []

    class H(logging.Handler):
        def emit(self, record):
            got.append((record.levelno, record.getMessage()))

    hd, level, prop = H(), log.level, log.propagate
    log.addHandler(hd)
    log.setLevel(logging.INFO)
    log.propagate = False
    try:
        yield got
    finally:
        log.removeHandler(hd)
        log.setLevel(level)
        log.propagate = prop


def number(h, text):
    if h.symbolic:
        from engine import core as C
        v = C.token_value(text)
        if v is not None:
            return v
    return float(text)


def report(h, text):
    r = {}
    for k, l in LABELS.items():
        m = re.search(re.escape(l) + r":\s*(\S+?)\s*%", text)
        if m:
            r[k] = number(h, m.group(1))
    return r


def reports(h, got):
    return [r for r in (report(h, t) for _, t in got) if r]


def total(w, a, cells=None):
    s = 0
    for j, i in (cells or np.ndindex(*a.shape)):
        s = s + float(w[j]) * a[j, i]
    return s


def rim(ny, nx, periodic):
    return [(j, i) for j, i in np.ndindex(ny, nx)
            if j in (0, ny - 1) or (not periodic and i in (0, nx - 1))]


def compare(h, tag, r, w, acc, state, direction, periodic):
    """acc: amounts of the whole run, per cell; state: tracked moisture now"""
    back = direction == "backward"
    tagged = total(w, acc["tagged_precip" if back else "tagged_evap"])
    tracked = total(w, acc["e_track"]) if back else total(w, acc["p_track_upper"]) + total(w, acc["p_track_lower"])
    air = total(w, state[STATE[0]]) + total(w, state[STATE[1]])
    edge = rim(*acc["losses"].shape, periodic)
    boundary = total(w, acc["losses"], edge)
    lost = total(w, acc["losses"], [c for c in np.ndindex(*acc["losses"].shape) if c not in edge])
    gained = total(w, acc["gains"])
    want = dict(tracked=tracked, atmosphere=air, boundary=boundary, lost=lost, gained=gained,
                closure=tracked + air + boundary + lost - gained)
    h.true(f"reported {tag}", set(r) == set(want))
    for k, v in want.items():
        if k in r:
            h.eq(f"{LABELS[k].lower()} {tag}", r[k], 100 * v / tagged, tol=1e-5, scale=1e3)


def make(direction, periodic, shape, rounds):
    def fn(h):
        from wam2layers.utils.profiling import ProgressTracker
        ny, nx = shape
        lat, lon = grid(ny, nx, lat0=61.0)
        w = np.cos(np.deg2rad(lat))
        names = ACC[direction]
        z = lambda: h.const_array(shape, 0.0)
        rnd = []
        for k in range(rounds):
            d = {n: h.array(f"{n}{k}", shape, lo=0, nice=(0, 5)) for n in names + STATE}
            rnd.append(d)
        t0 = rnd[0]["tagged_precip" if direction == "backward" else "tagged_evap"]
        h.assume(t0[1, 1] >= 0.01)
        mode = "backtrack" if direction == "backward" else "forwardtrack"
        first = ds(lat, lon, **{n: z() for n in names}, **{n: rnd[0][n].copy() for n in STATE})
        with messages() as got:
            tracker = ProgressTracker(first, mode=mode, periodic_x=periodic)
            for k, d in enumerate(rnd):
                out = ds(lat, lon, **{n: v.copy() for n, v in d.items()})
                tracker.print_progress(h.instant(3600 * k), out)
                tracker.store_intermediate_states(out)
        got = reports(h, got)
        h.true("one report per call", len(got) == rounds)
        acc = {n: z() for n in names}
        for k, (d, r) in enumerate(zip(rnd, got)):
            for n in names:
                acc[n] = acc[n] + d[n]
            compare(h, f"{k}", r, w, acc, d, direction, periodic)
        h.reach()
    return fn


def run(direction, periodic, K):
    """the reports of a whole run, with arbitrary amounts per step"""
    def fn(h):
        F = [("1D", 86400), ("1h", 3600)]
        freq, fs = h.choice("freq", F)
        dt = h.choice("timestep", [1800, 3600])
        lat, _ = grid(NY, NX)
        w = np.cos(np.deg2rad(lat))
        names = ACC[direction]
        spots = [(0, 0), (1, 0), (1, 1), (2, 2)]

        def some(n):
            a = h.const_array((NY, NX), 0.0)
            for j, i in spots:
                a[j, i] = h.real(f"{n}[{j},{i}]", 0, nice=(0, 5))
            return a
        amt = [{n: some(f"{n}{k}") for n in names + STATE} for k in range(K)]
        h.assume(amt[0]["tagged_precip" if direction == "backward" else "tagged_evap"][1, 1] >= 0.01)

        def step(rec, k, out):
            for n in names:
                out[n].values = out[n].values + amt[k][n]
            for n in STATE:
                out[n].values = amt[k][n].copy()

        start, end = 10 * 86400, 10 * 86400 + K * dt
        with messages() as got:
            with recorded_run(h, direction, step=step, real=("tracker",), timestep=dt, output_frequency=freq,
                              periodic_boundary=periodic, tracking_start_date=h.instant(start),
                              tracking_end_date=h.instant(end), tagging_start_date=h.instant(start),
                              tagging_end_date=h.instant(end)) as go:
                rec = go()
        h.true("all steps", len(rec.steps) == K)
        got = reports(h, got)
        due = [k for k in range(K) if k == K - 1 or (end - (k + 1) * dt if direction == "backward"
                                                      else start + (k + 1) * dt) % fs == 0]
        h.true("one report per output", len(got) == len(due))
        acc = {n: h.const_array((NY, NX), 0.0) for n in names}
        for k in range(K):
            for n in names:
                acc[n] = acc[n] + amt[k][n]
            if k in due and got:
                compare(h, f"after step {k}", got.pop(0), w, acc, amt[k], direction, periodic)
        h.reach()
    return fn


SCENARIOS = [Scenario(f"{d}-{'periodic' if p else 'closed'}", make(d, p, (3, 4), 2), "3x4 grid, 2 reports, any fields")
             for d in ("backward", "forward") for p in (False, True)] + \
            [Scenario(f"{d}-{'periodic' if p else 'closed'}-deep", make(d, p, (5, 6), 3), "5x6 grid, 3 reports, any fields",
                      thorough_only=True) for d in ("backward", "forward") for p in (False, True)] + \
            [Scenario(f"run-{d}-{'periodic' if p else 'closed'}", run(d, p, 3), "runs of 3 steps with any amounts in 4 cells")
             for d, p in (("backward", False), ("forward", True))] + \
            [Scenario(f"run-{d}-{'periodic' if p else 'closed'}-deep", run(d, p, 5), "runs of 5 steps with any amounts in 4 cells",
                      thorough_only=True) for d, p in (("backward", True), ("forward", False))]
ASSUMPTIONS = ["cells are weighted by the cosine of their latitude (on a regular grid: their area)",
               "some moisture is tagged", "the report rounds to 0.01 %"]
OUTSIDE = "run time and memory in the report; runs continued from a restart"
