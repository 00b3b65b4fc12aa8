"""Shared pieces of the scenarios: grids, fields, a minimal configuration."""
import numpy as np
import xarray as xr


class Cfg:
    """the settings one tracking step reads"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Quiet:
    """stands in for the progress reporter (which only logs)"""

    def __getattr__(self, name):
        return lambda *a, **k: None


def grid(ny, nx, dlat=2.0, dlon=2.0, lat0=10.0, lon0=20.0):
    lat = lat0 - dlat * np.arange(ny)
    lon = lon0 + dlon * np.arange(nx)
    return lat, lon


def ds(lat, lon, **fields):
    return xr.Dataset({k: (("latitude", "longitude"), v) for k, v in fields.items()},
                      coords={"latitude": ("latitude", lat), "longitude": ("longitude", lon)})


def vals(x):
    """array behind a DataArray, whatever it holds"""
    d = x.variable._data if hasattr(x, "variable") else x
    return d


class Step:
    """One tracking step on arbitrary fields: inputs, and outputs of the real code."""

    def __init__(self, h, direction, ny=3, nx=3, periodic=False, f_vert="free", kvf=None,
                 tag=True, track=True, dlat=2.0, dlon=2.0, lat0=10.0, tagmask=None, dt=None,
                 fluxes=True, sources=True, acc0=False):
        self.h, self.direction, self.ny, self.nx, self.periodic = h, direction, ny, nx, periodic
        lat, lon = grid(ny, nx, dlat, dlon, lat0)
        self.lat, self.lon = lat, lon
        sh = (ny, nx)
        z = lambda: h.const_array(sh, 0.0)
        A = h.array
        self.F = {}
        for l in ("upper", "lower"):
            self.F["fx_" + l] = A("fx_" + l, sh, nice=(-1e6, 1e6)) if fluxes else z()
            self.F["fy_" + l] = A("fy_" + l, sh, nice=(-1e6, 1e6)) if fluxes else z()
        self.F["evap"] = A("evap", sh, lo=0, nice=(0, 0.01)) if sources else z()
        self.F["precip"] = A("precip", sh, lo=0, nice=(0, 0.01)) if sources else z()
        self.F["f_vert"] = A("f_vert", sh, nice=(-0.01, 0.01)) if fluxes else z()
        self.S0 = {"s_" + l: A("S0_" + l, sh, lo=0, strict=True, nice=(1, 30)) for l in ("upper", "lower")}
        self.S1 = {"s_" + l: A("S1_" + l, sh, lo=0, strict=True, nice=(1, 30)) for l in ("upper", "lower")}
        self.track0 = {l: (A("track_" + l, sh, lo=0, nice=(0, 40)) if track else z())
                       for l in ("upper", "lower")}
        self.kvf = h.real("kvf", 0, nice=(0, 5)) if kvf is None else kvf
        self.dt = h.integer("dt", 1, 3600) if dt is None else dt
        if tagmask is not None:
            self.mask = tagmask
        else:
            self.mask = A("mask", sh, lo=0, hi=1) if tag else 0
        self.cfg = Cfg(timestep=self.dt, periodic_boundary=periodic, kvf=self.kvf)
        names = (["e_track", "tagged_precip"] if direction == "backward" else
                 ["p_track_upper", "p_track_lower", "tagged_evap"]) + ["losses", "gains"]
        self.acc0 = {n: (A("acc_" + n, sh, lo=0, nice=(0, 5)) if acc0 else z()) for n in names}
        self.names = names

    def datasets(self):
        return (ds(self.lat, self.lon, **{k: v.copy() for k, v in self.F.items()}),
                ds(self.lat, self.lon, **{k: v.copy() for k, v in self.S0.items()}),
                ds(self.lat, self.lon, **{k: v.copy() for k, v in self.S1.items()}))

    def output(self):
        return ds(self.lat, self.lon,
                  s_track_upper_restart=self.track0["upper"].copy(),
                  s_track_lower_restart=self.track0["lower"].copy(),
                  **{k: v.copy() for k, v in self.acc0.items()})

    def run(self):
        F, S0, S1 = self.datasets()
        out = self.output()
        if self.direction == "backward":
            from wam2layers.tracking.backtrack import backtrack as step
        else:
            from wam2layers.tracking.forwardtrack import forwardtrack as step
        step(F, S1, S0, self.mask, out, self.cfg)
        self.out = {k: vals(out[k]) for k in out.data_vars}
        return self.out

    # the state the tracers are advected with / limited by
    @property
    def total_from(self):
        return self.S1 if self.direction == "backward" else self.S0

    @property
    def total_to(self):
        return self.S0 if self.direction == "backward" else self.S1

    def m(self, j, i):
        return self.mask if np.ndim(self.mask) == 0 else self.mask[j, i]

    def boundary(self, j, i):
        if j in (0, self.ny - 1):
            return True
        return (not self.periodic) and i in (0, self.nx - 1)

    def cells(self, interior=None):
        for j in range(self.ny):
            for i in range(self.nx):
                if interior is None or interior == (not self.boundary(j, i)):
                    yield j, i


def weather(h, st, seed, strength):
    """replace fluxes and moisture of a step by fixed ones: moderate winds of all directions ("calm": no limit
    can be hit when no more is tracked than there is; "storm": limits are hit)"""
    r = np.random.default_rng(seed)
    sh = (st.ny, st.nx)
    a = areas(st.lat, abs(st.lat[0] - st.lat[1]), abs(st.lon[1] - st.lon[0]))[:, None]

    def arr(x):
        x = np.round(x, 4)
        b = np.empty(sh, dtype=object if h.symbolic else float)
        b[...] = x
        return h._arr(b)
    s = {l: np.round(10 + 10 * r.random(sh), 2) for l in ("upper", "lower")}
    k = {"calm": 0.1, "storm": 1.5}[strength]
    for l in s:
        for c in ("fx", "fy"):
            st.F[f"{c}_{l}"] = arr(np.round(k * (r.random(sh) - 0.5) * s[l] * a / st.dt))
    for n in ("evap", "precip"):
        st.F[n] = arr(np.round(0.05 * k * 10 * r.random(sh) / st.dt, 4))
    st.F["f_vert"] = arr(np.round(k * (r.random(sh) - 0.5) / st.dt, 4))
    nxt = {l: s[l] * (1.6 if strength == "calm" else 0.6 + 0.8 * r.random(sh)) for l in s}
    one, two = ({"s_" + l: arr(x[l]) for l in s} for x in (s, nxt))
    st.S1, st.S0 = (one, two) if st.direction == "backward" else (two, one)
    return st


# ---- independent reference formulas ---------------------------------------

DG = 111089.56
ERAD = 6.371e6


def areas(lat, dlat, dlon):
    out = []
    for p in lat:
        n, s = min(90.0, p + dlat / 2), max(-90.0, p - dlat / 2)
        out.append(np.pi / 180 * ERAD**2 * dlon * abs(np.sin(np.pi * n / 180) - np.sin(np.pi * s / 180)))
    return np.array(out)


def face_fluxes(fx, fy, periodic):
    """fluxes through the west face of each cell and the south face of each cell"""
    ny, nx = fx.shape
    west, south = {}, {}
    for j in range(1, ny - 1):
        for i in range(nx):
            if i > 0:
                west[j, i] = (fx[j, i - 1] + fx[j, i]) / 2
            elif periodic:
                west[j, i] = (fx[j, nx - 1] + fx[j, 0]) / 2
    cols = range(nx) if periodic else range(1, nx - 1)
    for j in range(ny - 1):
        for i in cols:
            south[j, i] = (fy[j, i] + fy[j + 1, i]) / 2
    return west, south


def donor_cell(h, s, west, south, ny, nx, sign=1):
    """net gain of every cell: what crosses each face, scaled with the donor's s"""
    g = [[0 for _ in range(nx)] for _ in range(ny)]
    for (j, i), f in west.items():
        f = sign * f
        w = (i - 1) % nx
        flow = h.ite(f > 0, f * s[j][w], f * s[j][i])  # eastward through the west face of i
        g[j][w] = g[j][w] - flow
        g[j][i] = g[j][i] + flow
    for (j, i), f in south.items():
        f = sign * f
        flow = h.ite(f > 0, f * s[j + 1][i], f * s[j][i])  # northward through the south face of j
        g[j + 1][i] = g[j + 1][i] - flow
        g[j][i] = g[j][i] + flow
    return g


def relative(h, st):
    """share of the water that is tracked, at most one"""
    rel = {}
    for l in ("upper", "lower"):
        tot = st.total_from["s_" + l]
        rel[l] = [[h.min(st.track0[l][j, i] / tot[j, i], 1.0) for i in range(st.nx)]
                  for j in range(st.ny)]
    return rel


def raw_update(h, st):
    """the published one-step equations, before any limiting; st.track0 + dt * rates"""
    a = areas(st.lat, abs(st.lat[0] - st.lat[1]), abs(st.lon[1] - st.lon[0]))
    rel = relative(h, st)
    sign = -1 if st.direction == "backward" else 1
    new = {}
    adv = {}
    for l in ("upper", "lower"):
        w, s = face_fluxes(st.F["fx_" + l], st.F["fy_" + l], st.periodic)
        adv[l] = donor_cell(h, rel[l], w, s, st.ny, st.nx, sign)
        new[l] = [[None] * st.nx for _ in range(st.ny)]
    for j, i in st.cells():
        tot = {l: st.total_from["s_" + l][j, i] for l in ("upper", "lower")}
        col = tot["upper"] + tot["lower"]
        fv = sign * st.F["f_vert"][j, i]  # positive downward
        ru, rl = rel["upper"][j][i], rel["lower"][j][i]
        down = h.ite(fv >= 0, fv * ru, fv * rl) + st.kvf * h.abs(fv) * (ru - rl)
        P, E, m = st.F["precip"][j, i], st.F["evap"][j, i], st.m(j, i)
        src = {}
        for l, r in (("upper", ru), ("lower", rl)):
            share = tot[l] / col
            if st.direction == "backward":
                src[l] = m * P * share - (E * r if l == "lower" else 0)
            else:
                src[l] = (m * E if l == "lower" else 0) - P * share * r
        for l, s in (("upper", -1), ("lower", 1)):
            new[l][j][i] = st.track0[l][j, i] + st.dt * (adv[l][j][i] / a[j] + s * down + src[l])
    return new
