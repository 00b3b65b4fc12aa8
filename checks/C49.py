"""C49: tracking the parts of a tagging region separately adds up to tracking the whole."""
from engine.runner import Scenario

from .common import Step, weather


def make(direction, shape, periodic):
    def fn(h):
        st = Step(h, direction, *shape, periodic=periodic, acc0=True, dt=600, kvf=3.0)
        weather(h, st, h.choice("weather", [1, 2, 3]), "calm")
        part = h.array("mask2", shape, lo=0, hi=1)
        other = {l: h.array("track2_" + l, shape, lo=0, nice=(0, 9)) for l in ("upper", "lower")}
        done = {n: h.array("acc2_" + n, shape, lo=0, nice=(0, 5)) for n in st.names}
        for j, i in st.cells():
            h.assume(st.mask[j, i] + part[j, i] <= 1)
            for l in ("upper", "lower"):
                h.assume(st.track0[l][j, i] + other[l][j, i] <= st.total_from["s_" + l][j, i])
        m1, t1, d1 = st.mask, st.track0, st.acc0
        outs = []
        for m, t, d in ((m1, t1, d1), (part, other, done), (m1 + part, {l: t1[l] + other[l] for l in t1},
                                                            {n: d1[n] + done[n] for n in d1})):
            st.mask, st.track0, st.acc0 = m, t, d
            outs.append({k: v.copy() for k, v in st.run().items()})
        a, b, c = outs
        for n in a:
            for j, i in st.cells():
                h.eq(f"{n}[{j},{i}]", c[n][j, i], a[n][j, i] + b[n][j, i], tol=1e-6)
        h.reach()
    return fn


SCENARIOS = []
for d in ("backward", "forward"):
    for shape, per, t in (((4, 5), False, False), ((4, 4), True, False), ((7, 8), False, True), ((6, 7), True, True)):
        SCENARIOS.append(Scenario(f"{d}-{'periodic' if per else 'closed'}-{shape[0]}x{shape[1]}", make(d, shape, per),
                                  f"{shape[0]}x{shape[1]} grid, one step, any two parts and tracked moisture, three fixed weather situations",
                                  thorough_only=t))
ASSUMPTIONS = ["machine floats are read as real numbers", "no more is tracked than there is",
               "three fixed fields of winds, evaporation, precipitation and moisture that hit no limit"]
OUTSIDE = "other weather; steps in which a limit is hit, which is not additive"
