"""C38: a configuration written to a file and read again is the same configuration."""
from pathlib import Path

from engine.runner import Scenario

from .C35 import CAL, dates, in_order
from .C36 import PARTS, box, valid
from .files import scratch
from .pyd import Refused, assign, build, texts

PLAIN = ["filename_template", "calendar", "tracking_direction", "parallel_preprocess", "parallel_processes",
         "input_frequency", "output_frequency", "level_type", "levels", "restart", "periodic_boundary"]
NUMBERS = ["timestep", "kvf", "level_layer_boundary", "pressure_boundary_factor", "pressure_boundary_offset"]
FOLDERS = ["preprocessed_data_folder", "output_folder"]


def variants(h, tmp):
    """the other settings, in several combinations"""
    region = Path(tmp) / "region.nc"
    region.write_text("")
    a = dict(tracking_direction="backward", level_type="model_levels", levels=[20, 60, 137], restart=False,
             periodic_boundary=False, input_frequency="1h", output_frequency="1D", filename_template="a/{variable}.nc",
             preprocessed_data_folder=str(Path(tmp) / "pre"), output_folder=str(Path(tmp) / "out"))
    b = dict(a, tracking_direction="forward", level_type="pressure_levels", levels="All", restart=True,
             periodic_boundary=True, input_frequency="3H", output_frequency="10T", parallel_preprocess=True,
             parallel_processes=3, preprocessed_data_folder="https://example.org/data/")
    c = dict(a, parallel_preprocess=True, levels=[850, 500], level_type="pressure_levels", restart=True)
    d = dict(b, level_type="model_levels", levels="all", parallel_processes=None, periodic_boundary=False,
             parallel_preprocess=False)
    k = h.choice("settings", [0, 1, 2, 3])
    return [a, b, c, d][k], region


def same(h, tag, x, y, names):
    for n in names:
        h.true(f"{n}{tag}", str(getattr(x, n)) == str(getattr(y, n)) and type(getattr(x, n)) is type(getattr(y, n)))


def compare(h, tag, old, new, domain):
    same(h, tag, old, new, PLAIN + FOLDERS)
    for n in NUMBERS:
        h.eq(f"{n}{tag}", getattr(new, n), getattr(old, n), tol=1e-12)
    for n in [f"{p}_{e}_date" for p in ("tracking", "tagging", "preprocess") for e in ("start", "end")]:
        a, b = getattr(old, n), getattr(new, n)
        h.true(f"calendar of {n}{tag}", a.calendar == b.calendar)
        h.eq(f"{n}{tag}", h.sec(b), h.sec(a), tol=1e-9, scale=1e-3)
    for f in ("tagging_region", "tracking_domain"):
        a, b = getattr(old, f), getattr(new, f)
        if a is None or isinstance(a, Path):
            h.true(f"{f}{tag}", a == b)
            continue
        h.true(f"{f} is a box{tag}", all(hasattr(b, p) for p in PARTS))
        for p in PARTS:
            h.eq(f"{p} of {f}{tag}", getattr(b, p), getattr(a, p), tol=1e-12)


def make(fmt):
    def fn(h):
        from wam2layers.config import Config
        cal = h.choice("calendar", CAL)
        d, sec = dates(h, cal, fmt)
        h.assume(in_order(h, sec))
        with scratch(h) as (tmp, vfs):
            s, region = variants(h, tmp)
            s.update(d, calendar=cal)
            if h.choice("region", ["box", "file"]) == "box":
                s["tagging_region"] = box(h, "region")
                h.assume(valid(h, s["tagging_region"]))
            else:
                s["tagging_region"] = str(region)
            domain = h.choice("domain", [True, False])
            if domain:
                s["tracking_domain"] = box(h, "domain")
                h.assume(valid(h, s["tracking_domain"]))
            s["timestep"] = h.integer("timestep", 1, 86400)
            s["kvf"] = h.real("kvf", 0, 10)
            if h.choice("boundary given", [True, False]):
                s["level_layer_boundary"] = h.integer("boundary", 1, 137)
                s["pressure_boundary_factor"] = h.real("factor", 0, 1)
                s["pressure_boundary_offset"] = h.real("offset", 0, 20000)
            old = build(h, Config, s)
            with texts(h, Config) as read:
                path = Path(tmp) / "config.yaml"
                old.to_file(path)
                try:
                    new = read(path)
                except Refused as e:
                    h.true(f"readable ({str(e)[:60]})", False)
                    return
            compare(h, "", old, new, domain)
        h.reach()
    return fn


SCENARIOS = [Scenario("seconds", make("%Y-%m-%dT%H:%M:%S"), "any six dates in order, boxes and numbers; 3 calendars, "
                      "4 combinations of the other settings")]
ASSUMPTIONS = ["pydantic writes and reads single values unchanged", "dates from the year 1000 (four digits)"]
OUTSIDE = "comments and layout of the file"
