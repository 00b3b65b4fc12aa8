"""C12: water that does not fit one layer goes to the other first; only the rest is booked."""
from engine.runner import Scenario

from .common import Step, raw_update


def make(direction, shape, periodic):
    def fn(h):
        st = Step(h, direction, *shape, periodic=periodic)
        out = st.run()
        new = raw_update(h, st)
        for j, i in st.cells():
            ru, rl = new["upper"][j][i], new["lower"][j][i]
            if st.boundary(j, i):
                h.eq(f"rim loss[{j},{i}]", out["losses"][j, i], ru + rl, tol=1e-6, scale=10)
                continue
            tu, tl = (st.total_to["s_" + l][j, i] for l in ("upper", "lower"))
            loss, gain = out["losses"][j, i], out["gains"][j, i]
            nn = h.land(ru >= 0, rl >= 0)
            fits = h.land(nn, ru + rl <= tu + tl)
            h.eq(f"fits: no loss[{j},{i}]", h.ite(fits, loss, 0), 0, tol=1e-6)
            h.eq(f"no gain[{j},{i}]", h.ite(nn, gain, 0), 0, tol=1e-6)
            over = h.land(nn, ru + rl > tu + tl)
            h.eq(f"excess[{j},{i}]", h.ite(over, loss, 0), h.ite(over, ru + rl - tu - tl, 0), tol=1e-6)
            nu, nl = (out[f"s_track_{l}_restart"][j, i] for l in ("upper", "lower"))
            h.eq(f"full.upper[{j},{i}]", h.ite(over, nu, 0), h.ite(over, tu, 0), tol=1e-6)
            h.eq(f"full.lower[{j},{i}]", h.ite(over, nl, 0), h.ite(over, tl, 0), tol=1e-6)
            # a deficit is first covered by what does not fit the other layer
            for l, d, o, cap in (("lower", rl, ru, tu), ("upper", ru, rl, tl)):
                neg = h.land(d < 0, o >= 0)
                need = h.max(0.0, -(d + h.max(0.0, o - cap)))
                h.eq(f"deficit.{l}[{j},{i}]", h.ite(neg, gain, 0), h.ite(neg, need, 0), tol=1e-6)
            both = h.land(ru < 0, rl < 0)
            h.eq(f"deficit.both[{j},{i}]", h.ite(both, gain, 0), h.ite(both, -ru - rl, 0), tol=1e-6)
        h.reach()
    return fn


SCENARIOS = []
for d in ("backward", "forward"):
    SCENARIOS += [
        Scenario(f"{d}-closed-3x3", make(d, (3, 3), False), "3x3 grid, one step"),
        Scenario(f"{d}-periodic-3x3", make(d, (3, 3), True), "3x3 grid, periodic, one step"),
        Scenario(f"{d}-closed-4x4", make(d, (4, 4), False), "4x4 grid", thorough_only=True),
    ]
ASSUMPTIONS = ["machine floats are read as real numbers", "total moisture of every cell is positive",
               "the vertical flux is an input of the step here (C09 decides it)"]
