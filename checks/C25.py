"""C25: pressure levels: the column from the top of the atmosphere to the surface, split at the layer boundary."""
import numpy as np

from engine.runner import Scenario

from .common import grid
from .files import scratch
from .prep import G, dataset, fields, out, run_preprocess


def profile(h, P, ps, pb, col, surf):
    """the nodes of the column above the surface, from the top down: (pressure, value) with the boundary put in"""
    order = sorted(range(len(P)), key=lambda k: P[k])
    top = order[0]
    nodes = [(0.0, {"q": 0.0, "u": col["u"][top], "v": col["v"][top]})]
    for k in order:
        if P[k] < ps:
            nodes.append((P[k], {n: col[n][k] for n in "quv"}))
    nodes.append((ps, surf))
    res = []
    for a, b in zip(nodes, nodes[1:]):
        res.append(a)
        if a[0] < pb and pb < b[0]:
            res.append((pb, {n: a[1][n] + (b[1][n] - a[1][n]) * (pb - a[0]) / (b[0] - a[0]) for n in "quv"}))
    return res + [nodes[-1]]


def make(level_sets, ny, nx, tcw=False, factor=None, one=True, at=None, later=False):
    cells = at

    def fn(h):
        P = h.choice("levels", level_sets)
        A, B = h.choice("boundary", factor or [(0.72878581, 7438.803223)])
        n = len(P)
        at = h.choice("column", cells or [(j, i) for j in range(ny) for i in range(nx)])
        lat, lon = grid(ny, nx)
        f = fields(h, n, ny, nx, P)
        if one:  # the other columns have a fixed surface pressure
            p = f["ps"][at]
            f["ps"] = h.const_array((ny, nx), 101000.0)
            f["ps"][at] = p
        for k, lo in (("qs", 0), ("us", -500), ("vs", -500)):
            f[k] = h.array(k, (ny, nx), lo, 0.1 if lo == 0 else 500, nice=(0, 0.02) if k == "qs" else (-20, 20))
        if tcw:
            f["tcw"] = h.array("tcw", (ny, nx), 0, nice=(1, 60))
        with scratch(h) as (tmp, vfs):
            ds = run_preprocess(h, tmp, vfs, dataset(f, [float(p) for p in P], lat, lon), level_type="pressure_levels",
                                levels=[int(p / 100) for p in P], pressure_boundary_factor=A, pressure_boundary_offset=B,
                                later=later)
        for j in range(ny):
            for i in range(nx):
                ps = f["ps"][j, i]
                pb = A * ps + B
                col = {m: [f[m][k, j, i] for k in range(n)] for m in "quv"}
                nodes = profile(h, P, ps, pb, col, {m: f[m + "s"][j, i] for m in "quv"})
                tot = {m + l: 0.0 for m in ("s", "fx", "fy") for l in ("_upper", "_lower")}
                for (p0, a), (p1, b) in zip(nodes, nodes[1:]):
                    cw = (a["q"] + b["q"]) / 2 * (p1 - p0) / G
                    l = "_upper" if (p0 + p1) / 2 < pb else "_lower"
                    tot["s" + l] = tot["s" + l] + cw
                    tot["fx" + l] = tot["fx" + l] + cw * (a["u"] + b["u"]) / 2
                    tot["fy" + l] = tot["fy" + l] + cw * (a["v"] + b["v"]) / 2
                corr = 1
                if tcw:
                    h.assume(tot["s_upper"] + tot["s_lower"] > 0)
                    corr = f["tcw"][j, i] / (tot["s_upper"] + tot["s_lower"])
                for name, x in tot.items():
                    h.eq(f"{name}[{j},{i}]", out(ds, name)[j, i], corr * x, tol=1e-5)
                h.eq(f"precip[{j},{i}]", out(ds, "precip")[j, i], f["precip"][j, i], tol=1e-5)
                h.eq(f"evap[{j},{i}]", out(ds, "evap")[j, i], f["evap"][j, i], tol=1e-5)
        h.reach()
    return fn


def integer_levels(h):
    """a level coordinate of whole numbers must not change the surface pressure"""
    lat, lon = grid(2, 2)
    f = fields(h, 1, 2, 2, (50000,))
    for k in ("qs", "us", "vs"):
        f[k] = h.array(k, (2, 2), 0, 0.1 if k == "qs" else 100, nice=(0, 0.02) if k == "qs" else (0, 20))
    q, qs, ps = 0.0, 0.02, f["ps"][0, 0]
    f["q"], f["qs"] = h.const_array((1, 2, 2), q), h.const_array((2, 2), qs)
    f["ps"] = h.const_array((2, 2), 100000.0)
    f["ps"][0, 0] = ps
    h.assume(h.land(ps > 50100, ps < 50200))  # little water: a fraction of a Pa is seen
    with scratch(h) as (tmp, vfs):
        ds = run_preprocess(h, tmp, vfs, dataset(f, np.array([50000]), lat, lon), level_type="pressure_levels",
                            levels=[500], pressure_boundary_factor=0.72878581, pressure_boundary_offset=7438.803223)
    want = (q / 2 * 50000 + (q + qs) / 2 * (ps - 50000)) / G
    h.eq("total", out(ds, "s_upper")[0, 0] + out(ds, "s_lower")[0, 0], want, tol=1e-5)
    h.reach()


DEF = [(0.72878581, 7438.803223)]
SETS = [(85000, 50000), (100000, 70000, 30000), (20000, 60000, 90000)]
T = "any fields, any surface pressure from 500 to 1100 hPa in the arbitrary column, fixed in the others"
SCENARIOS = [Scenario("-".join(str(p // 100) for p in P), make([P], 2, 2, factor=f, at=a),
                      f"levels at {', '.join(str(p // 100) for p in P)} hPa, 2x2 cells, {T}")
             for P, f, a in ((SETS[0], DEF + [(0.5, 20000.0)], [(0, 0), (1, 1)]), (SETS[1], DEF, [(0, 1)]),
                             (SETS[2], DEF, [(1, 0)]), ((92500,), DEF + [(0.9, 1000.0)], [(0, 0), (0, 1), (1, 0), (1, 1)]))] + [
    Scenario("later-instant", make([SETS[0]], 2, 2, at=[(0, 1)], later=True), f"levels at 850, 500 hPa, the second of three instants of a day, {T}"),
    Scenario("integer-levels", integer_levels, "one level of an integer coordinate, any surface pressure from 501 to 502 hPa"),
    Scenario("two-columns", make([(85000, 50000)], 1, 2, one=False), "levels at 850, 500 hPa, two arbitrary columns",
             thorough_only=True, deadline=3000),
    Scenario("seven-levels", make([(100000, 92500, 85000, 70000, 50000, 30000, 20000)], 2, 2, at=[(0, 1)]),
             f"the seven documented levels, {T}", thorough_only=True, deadline=3000)]
ASSUMPTIONS = ["surface pressure between 500 and 1100 hPa, winds below 500 m/s, humidity below 0.1",
               "levels in Pa as floats (integer levels: see known_findings.json)",
               "storing as 32-bit float is read as exact; rounding of constants below 1e-6 is ignored"]
OUTSIDE = "more columns and levels than the bounds; time and cost of the NetCDF library"
