"""C35: an accepted configuration has its periods in order and means exactly the dates it was given."""
from engine.runner import Scenario

from .files import scratch
from .pyd import Refused, assign, build

PERIODS = ("tracking", "tagging", "preprocess")
CAL = ["standard", "noleap", "360_day"]
DAY = 86400


def settings(tmp, **kw):
    d = dict(filename_template="x", preprocessed_data_folder=str(tmp), tracking_direction="backward",
             tagging_region=[0, 10, 20, 30], output_folder=str(tmp), input_frequency="1h", timestep=600,
             output_frequency="1D", level_type="model_levels", levels=[1, 2], restart=False,
             periodic_boundary=False, kvf=3)
    d.update(kw)
    return d


def dates(h, cal, fmt, only=None):
    out, sec = {}, {}
    for p in PERIODS:
        for e in ("start", "end"):
            n = f"{p}_{e}_date"
            if only is None or p in only:
                sec[n] = h.integer(n, 0, 800 * DAY)
            else:
                sec[n] = 0 if e == "start" else DAY
            if fmt == "%Y-%m-%dT%H:%M":
                h.assume(sec[n] % 60 == 0)
            out[n] = h.instant(sec[n], cal).strftime(fmt)
    return out, sec


def in_order(h, sec):
    return h.land(*[sec[f"{p}_start_date"] <= sec[f"{p}_end_date"] for p in PERIODS])


def check(h, cfg, sec, cal, tag=""):
    for n, s in sec.items():
        v = getattr(cfg, n)
        h.true(f"calendar of {n}{tag}", v.calendar == cal)
        h.eq(f"{n}{tag}", h.sec(v), s, tol=1e-9, scale=1e-3)


def make(fmt, only=None, default=False):
    def fn(h):
        from wam2layers.config import Config
        cal = "standard" if default else h.choice("calendar", CAL)
        d, sec = dates(h, cal, fmt, only)
        with scratch(h) as (tmp, vfs):
            kw = {} if default else {"calendar": cal}
            try:
                cfg = build(h, Config, settings(tmp, **kw, **d))
            except Refused:
                h.true("refused only if a period is out of order", h.lnot(in_order(h, sec)))
                h.reach("refused")
                return
        h.true("accepted only if all periods are in order", in_order(h, sec))
        check(h, cfg, sec, cal)
        h.reach()
    return fn


def again(h):
    """a change of one date is checked again"""
    from wam2layers.config import Config
    cal = h.choice("calendar", CAL)
    d, sec = dates(h, cal, "%Y-%m-%dT%H:%M:%S")
    h.assume(in_order(h, sec))
    name = h.choice("changed", [f"{p}_{e}_date" for p in PERIODS for e in ("start", "end")])
    with scratch(h) as (tmp, vfs):
        cfg = build(h, Config, settings(tmp, calendar=cal, **d))
        sec[name] = h.integer("new", 0, 800 * DAY)
        try:
            cfg = assign(h, cfg, name, h.instant(sec[name], cal))
        except Refused:
            h.true("change refused only if out of order", h.lnot(in_order(h, sec)))
            h.reach("refused")
            return
    h.true("change accepted only if in order", in_order(h, sec))
    check(h, cfg, sec, cal)
    h.reach()


SCENARIOS = [Scenario("seconds", make("%Y-%m-%dT%H:%M:%S"), "any six dates of 800 days, written with seconds; 3 calendars"),
             Scenario("minutes", make("%Y-%m-%dT%H:%M"), "any six dates of 800 days, written without seconds; 3 calendars"),
             Scenario("default-calendar", make("%Y-%m-%dT%H:%M", default=True), "any six dates, no calendar given"),
             Scenario("changed", again, "one of the six dates changed to any other; 3 calendars")]
ASSUMPTIONS = ["pydantic runs the validators the model declares, in its documented order (read from the class)",
               "the calendar turns texts into instants and back exactly (library)"]
OUTSIDE = "dates written in other ways"
