"""C37: old spellings of frequencies are understood, everything else is left alone."""
import z3

from engine import symstr as S
from engine.core import SB
from engine.runner import Scenario

NEW = {"cbh": "cbh", "bh": "bh", "h": "h", "t": "min", "s": "s", "l": "ms", "u": "us", "n": "ns", "d": "D"}


def is_(h, s, k, f, g):
    """truth of f (on the code) or g (on the character) for character k"""
    return SB(f(S.code(str.__getitem__(s, k)))) if h.symbolic else bool(g(s[k]))


def digit(h, s, k):
    return is_(h, s, k, S.is_digit, lambda c: "0" <= c <= "9")


def same(h, a, b):
    return SB(S.eq_str(a, b)) if h.symbolic else a == b


def spelled(h, s, word):
    """s is the word in any case"""
    if len(s) != len(word):
        return False
    return h.land(*[is_(h, s, k, lambda e: S.lower_code(e) == ord(w), lambda c: c.lower() == w) for k, w in enumerate(word)])


def make(lengths):
    def fn(h):
        from wam2layers.utils.calendar import fix_deprecated_frequency
        n = h.choice("length", lengths)
        s = S.fresh(h, "freq", n)
        got = fix_deprecated_frequency(s)
        known = []
        for d in range(n):
            number = h.land(True, *[digit(h, s, k) for k in range(d)])
            unit, rest = str.__getitem__(s, slice(d, None)), str.__getitem__(s, slice(0, d))
            for old, new in NEW.items():
                if len(unit) != len(old):
                    continue
                c = h.land(number, spelled(h, unit, old))
                known.append(c)
                h.true(f"{d} digits and {old}", h.implies(c, same(h, got, str(str.__str__(rest)) + new)))
        h.true("anything else unchanged", h.implies(h.lnot(h.lor(False, *known)), same(h, got, s)))
        h.reach()
    return fn


SCENARIOS = [Scenario("short", make([0, 1, 2, 3]), "any text of up to 3 printable ASCII characters"),
             Scenario("longer", make([4, 5]), "any text of 4 or 5 printable ASCII characters"),
             Scenario("long", make([6, 7, 8]), "6 to 8 characters", thorough_only=True)]
ASSUMPTIONS = ["printable ASCII characters"]
OUTSIDE = "longer texts; other characters"
