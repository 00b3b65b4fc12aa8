"""C39: a DOI is taken apart into prefix, suffix and dataset id, with or without a resolver before it."""
import z3

from engine import symstr as S
from engine.core import SB
from engine.runner import Scenario

from .C37 import is_, same

RESOLVERS = ["", "doi.org/", "https://doi.org/", "http://dx.doi.org/"]
EXTRA = "-._;()/:"


def z_allowed(e):
    return z3.Or(S.is_alpha(e), S.is_digit(e), *[e == ord(c) for c in EXTRA])


def allowed(h, s, k):
    return is_(h, s, k, z_allowed, lambda c: c.isascii() and c.isalnum() or c in EXTRA)


def text(h, name, n, ok):
    s = S.fresh(h, name, n)
    for k in range(n):
        h.assume(ok(h, s, k))
    return s


def digits(h, name, n):
    return S.fresh(h, name, n, 48, 57)


def parse(lengths, ids):
    def fn(h):
        from wam2layers.download import parse_doi
        pre = "10." + digits(h, "registrant", h.choice("digits", ids))
        suf = text(h, "suffix", h.choice("length", lengths), allowed)
        r = parse_doi(h.choice("resolver", RESOLVERS) + pre + "/" + suf)
        h.true("two parts", len(r) == 2)
        h.true("prefix", same(h, r[0], pre))
        h.true("suffix", same(h, r[1], suf))
        h.reach()
    return fn


def ident(lengths):
    def fn(h):
        from wam2layers.download import get_4tu_id
        word = lambda h, s, k: h.land(allowed(h, s, k), h.lnot(is_(h, s, k, lambda e: e == ord("."), lambda c: c == ".")))
        uid = text(h, "id", h.choice("length", lengths), word)
        version = h.choice("version", [0, 1, 2])
        doi = h.choice("resolver", RESOLVERS) + "10.4121/" + uid + (".v" + digits(h, "version", version) if version else "")
        h.true("id", same(h, get_4tu_id(doi), uid))
        h.reach()
    return fn


def refused(lengths):
    def fn(h):
        from wam2layers.download import parse_doi
        s = S.fresh(h, "text", h.choice("length", lengths))
        slash = lambda k: is_(h, s, k, lambda e: e == ord("/"), lambda c: c == "/")
        n = len(s)
        # no slash at all, or nothing like a registrant before it
        plain = h.land(True, *[h.lnot(slash(k)) for k in range(n)])
        bare = h.land(True, *[h.implies(slash(k), h.land(k > 0, h.lnot(is_(
            h, s, k - 1, S.is_digit, lambda c: "0" <= c <= "9"))) if k else True) for k in range(n)])
        h.assume(h.lor(plain, bare))
        try:
            parse_doi(s)
            ok = False
        except ValueError:
            ok = True
        h.true("refused", ok)
        h.reach()
    return fn


def foreign(lengths):
    """the suffix has a character no suffix has"""
    def fn(h):
        from wam2layers.download import parse_doi
        suf = S.fresh(h, "suffix", h.choice("length", lengths))
        h.assume(h.lor(*[h.lnot(allowed(h, suf, k)) for k in range(len(suf))]))
        try:
            parse_doi(h.choice("resolver", RESOLVERS[:2]) + "10." + digits(h, "registrant", 4) + "/" + suf)
            ok = False
        except ValueError:
            ok = True
        h.true("refused", ok)
        h.reach()
    return fn


SCENARIOS = [Scenario("parts", parse([1, 2, 4], [4, 6, 9]), "any registrant of 4, 6 or 9 digits, any suffix of up to 4 characters, 4 resolvers"),
             Scenario("id", ident([1, 3, 6]), "any dataset id of up to 6 characters, with or without a version"),
             Scenario("refused", refused([0, 3, 7]), "any text of up to 7 characters without the form of a DOI"),
             Scenario("foreign", foreign([1, 2]), "any suffix of up to 2 characters with one that is not allowed"),
             Scenario("parts-long", parse([7, 10], [4, 5, 7, 8]), "longer suffixes", thorough_only=True),
             Scenario("id-long", ident([8, 12]), "longer ids", thorough_only=True),
             Scenario("refused-long", refused([8]), "longer texts", thorough_only=True)]
ASSUMPTIONS = ["printable ASCII characters"]
OUTSIDE = "longer texts; other resolvers"
