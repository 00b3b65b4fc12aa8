"""Simplifying an obligation on one path before the solver sees it.

`Pruner` asks the solver which case distinctions the path has already decided.
`identical` settles x == y by bringing both sides to one rational function (every
denominator is shown non-zero by the solver first).
"""

from __future__ import annotations

import time
from fractions import Fraction

import z3

from .solve import apart, nonlinear

LIMIT = 20000
MODE = True


class TooBig(Exception):
    pass


class Pruner:
    def __init__(self, constraints, stats, tmo_ms=600, deadline=float("inf")):
        self.s = z3.Solver()
        self.tmo, self.deadline, self.late, self.constraints = tmo_ms / 1000, deadline, False, list(constraints)
        self.s.set("timeout", tmo_ms)
        self.s.add(*constraints)
        self.stats = stats
        self.known: dict = {}
        self.memo: dict = {}
        self.keep: list = []

    def _ask(self, f):
        if time.time() > self.deadline:
            return z3.unknown
        self.stats.queries += 1
        t = time.time()
        if self.late or MODE and nonlinear(f):  # the solver has stopped minding its time limit: watch it from outside
            r, _ = apart(self.constraints + [f], 2 * self.tmo)
        else:
            self.s.push()
            self.s.add(f)
            r = self.s.check()
            self.s.pop()
        self.stats.solver_s += time.time() - t
        self.late = self.late or time.time() - t > 2 * self.tmo + 0.5
        return r

    def decided(self, cond):
        """True / False when the path implies it, else None"""
        k = cond.get_id()
        if k not in self.known:
            self.keep.append(cond)
            r = None
            if self._ask(cond) == z3.unsat:
                r = False
            elif self._ask(z3.Not(cond)) == z3.unsat:
                r = True
            self.known[k] = r
        return self.known[k]

    def nonzero(self, e):
        return self._ask(e == 0) == z3.unsat

    def prune(self, e):
        """the same term with decided case distinctions resolved"""
        memo = self.memo
        stack = [e]
        while stack:
            t = stack[-1]
            k = t.get_id()
            if k in memo:
                stack.pop()
                continue
            if not z3.is_app(t) or t.num_args() == 0:
                memo[k] = t
                self.keep.append(t)
                stack.pop()
                continue
            ch = t.children()
            if t.decl().kind() == z3.Z3_OP_ITE:
                c = ch[0]
                if c.get_id() not in memo:
                    stack.append(c)
                    continue
                d = z3.simplify(memo[c.get_id()])
                dec = True if z3.is_true(d) else False if z3.is_false(d) else self.decided(d)
                if dec is not None:
                    b = ch[1] if dec else ch[2]
                    if b.get_id() not in memo:
                        stack.append(b)
                        continue
                    memo[k] = memo[b.get_id()]
                    self.keep.append(t)
                    stack.pop()
                    continue
            miss = [c for c in ch if c.get_id() not in memo]
            if miss:
                stack.extend(miss)
                continue
            new = [memo[c.get_id()] for c in ch]
            if all(a.get_id() == b.get_id() for a, b in zip(new, ch)):
                r = t
            else:
                r = t.decl()(*new) if t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (
                    z3.And(*new) if t.decl().kind() == z3.Z3_OP_AND else z3.Or(*new))
            if z3.is_bool(r) and not z3.is_const(r):
                r = z3.simplify(r)
            memo[k] = r
            self.keep += [t, r]
            stack.pop()
        return memo[e.get_id()]


# ---- polynomials: {monomial: coefficient}, a monomial is a sorted tuple of (atom, power)

ONE = ()


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, p in n:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > LIMIT:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def key(p):
    """(normalised polynomial as a hashable key, leading coefficient)"""
    items = sorted(p.items())
    c = items[-1][1]
    return tuple((m, x / c) for m, x in items), c


class Rational:
    """num / product of den factors"""

    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d


def _scale(r, den, polys):
    """numerator of r over the common denominator den"""
    n = r.n
    for f, p in den.items():
        for _ in range(p - r.d.get(f, 0)):
            n = pmul(n, dict(f))
    return n


def radd(a, b, s=1):
    if a.d == b.d:
        return Rational(padd(a.n, b.n, s), a.d)
    den = dict(a.d)
    for f, p in b.d.items():
        den[f] = max(den.get(f, 0), p)
    return Rational(padd(_scale(a, den, None), _scale(b, den, None), s), den)


def rmul(a, b):
    d = dict(a.d)
    for f, p in b.d.items():
        d[f] = d.get(f, 0) + p
    return Rational(pmul(a.n, b.n), d)


def rinv(a):
    """1/a, or None when a is the zero polynomial"""
    if not a.n:
        raise TooBig()
    num = {ONE: Fraction(1)}
    for f, p in a.d.items():
        for _ in range(p):
            num = pmul(num, dict(f))
    if len(a.n) == 1 and ONE in a.n:
        return Rational({m: c / a.n[ONE] for m, c in num.items()}, {})
    k, c = key(a.n)
    return Rational({m: x / c for m, x in num.items()}, {k: 1})


def to_rational(e, memo, dens):
    stack = [e]
    while stack:
        t = stack[-1]
        k = t.get_id()
        if k in memo:
            stack.pop()
            continue
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else Fraction(t.as_long())
            memo[k] = Rational({ONE: v} if v else {}, {})
            stack.pop()
            continue
        kind = t.decl().kind()
        if kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL):
            ch = t.children()
            miss = [c for c in ch if c.get_id() not in memo]
            if miss:
                stack.extend(miss)
                continue
            rs = [memo[c.get_id()] for c in ch]
            r = rs[0]
            if kind == z3.Z3_OP_UMINUS:
                r = Rational({m: -c for m, c in r.n.items()}, r.d)
            elif kind == z3.Z3_OP_DIV:
                dens.append(ch[1])
                r = rmul(r, rinv(rs[1]))
            else:
                for x in rs[1:]:
                    r = radd(r, x) if kind == z3.Z3_OP_ADD else radd(r, x, -1) if kind == z3.Z3_OP_SUB else rmul(r, x)
            memo[k] = r
            stack.pop()
            continue
        memo[k] = Rational({((k, 1),): Fraction(1)}, {})
        stack.pop()
    return memo[e.get_id()]


def identical(x, y, pruner, box, tol):
    """is x == y an identity of rational functions (denominators non-zero on the path)?

    True, False, or "rounding" when the difference is a polynomial that stays below
    tol for every value of its inputs within their declared bounds `box`.
    """
    dens: list = []
    try:
        memo: dict = {}
        r = radd(to_rational(x, memo, dens), to_rational(y, memo, dens), -1)
    except TooBig:
        return False
    if r.n:
        if r.d:
            return False
        names = {t.get_id(): str(t) for t in atoms(x, y)}
        tot = Fraction(0)
        for m, c in r.n.items():
            t = abs(c)
            for a, p in m:
                b = box.get(names.get(a))
                if b is None:
                    return False
                t *= b ** p
            tot += t
        if tot > tol:
            return False
    res = "rounding" if r.n else True
    seen = set()
    for d in dens:
        if d.get_id() in seen or z3.is_rational_value(d):
            continue
        seen.add(d.get_id())
        if not pruner.nonzero(d):
            return False
    return res


def atoms(*es):
    """the free constants of some terms"""
    seen, out, stack = set(), [], list(es)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        stack.extend(t.children())
    return out
