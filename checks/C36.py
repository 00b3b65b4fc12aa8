"""C36: a box is accepted exactly if it is one, and is kept as it was given."""
from engine.runner import Scenario

from .C35 import dates, settings
from .files import scratch
from .pyd import Refused, assign, build

PARTS = ("west", "south", "east", "north")


def box(h, tag):
    return [h.real(f"{tag}.{p}", -400, 400) for p in PARTS]


def valid(h, b):
    w, s, e, n = b
    return h.land(w >= -180, w <= 180, e >= -180, e <= 180, s >= -80, s <= 80, n >= -80, n <= 80, s < n)


def kept(h, label, got, b):
    for p, v in zip(PARTS, b):
        h.eq(f"{p} of the {label}", getattr(got, p), v, tol=1e-9)


def make(fields):
    def fn(h):
        from wam2layers.config import Config
        d, _ = dates(h, "standard", "%Y-%m-%dT%H:%M", only=())
        b = {f: box(h, f) for f in fields}
        ok = h.land(*[valid(h, v) for v in b.values()])
        with scratch(h) as (tmp, vfs):
            try:
                cfg = build(h, Config, settings(tmp, **{**d, **b}))
            except Refused:
                h.true("refused only if a box is invalid", h.lnot(ok))
                h.reach("refused")
                return
        h.true("accepted only if all boxes are valid", ok)
        for f, v in b.items():
            kept(h, f, getattr(cfg, f), v)
        if "tracking_domain" not in b:
            h.true("no domain unless given", cfg.tracking_domain is None)
        h.reach()
    return fn


def again(field):
    def fn(h):
        from wam2layers.config import BoundingBox, Config
        d, _ = dates(h, "standard", "%Y-%m-%dT%H:%M", only=())
        b = box(h, "new")
        as_box = h.choice("given as", [True, False])
        with scratch(h) as (tmp, vfs):
            cfg = build(h, Config, settings(tmp, **d))
            try:
                cfg = assign(h, cfg, field, BoundingBox(*b) if as_box else b)
            except Refused:
                h.true("change refused only if invalid", h.lnot(valid(h, b)))
                h.reach("refused")
                return
        h.true("change accepted only if valid", valid(h, b))
        kept(h, field, getattr(cfg, field), b)
        h.reach()
    return fn


SCENARIOS = [Scenario("tagging-region", make(["tagging_region"]), "any four numbers from -400 to 400"),
             Scenario("tracking-domain", make(["tracking_domain"]), "any four numbers from -400 to 400"),
             Scenario("both", make(["tagging_region", "tracking_domain"]), "any two boxes", thorough_only=True)] + \
            [Scenario(f"{f}-changed", again(f), "a box changed to any four numbers from -400 to 400")
             for f in ("tagging_region", "tracking_domain")]
ASSUMPTIONS = ["pydantic checks the constraints the model declares (read from the class)"]
OUTSIDE = "boxes given with other than four numbers; regions given as files"
