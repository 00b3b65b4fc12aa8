"""Harness: one description of a scenario, run symbolically or concretely.

Symbolic: inputs are solver variables, `eq`/`le`/`true` become proof obligations.
Concrete (replay): inputs come from a stored assignment, the same calls run on
the plain code and the obligations are evaluated in floating point.
"""

from __future__ import annotations

import math
import random
import re
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core as C
from .arr import SymArray, obj
from .core import SB, SV, Ctx, EngineError, Inconclusive, PathAbort


class Assumption(Exception):
    """concrete replay left the assumed input space"""


class Obl:
    __slots__ = ("label", "neg", "margin", "val", "tol", "kind", "trivial")

    def __init__(self, label, neg, margin, val=None, kind="true"):
        self.label, self.neg, self.margin, self.val, self.kind = label, neg, margin, val, kind


def _rat(x):
    return Fraction(x) if not isinstance(x, Fraction) else x


class HBase:
    tier = "quick"

    @property
    def thorough(self):
        return self.tier == "thorough"

    def array(self, name, shape, lo=None, hi=None, strict=False, nice=None):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self.real(f"{name}[{','.join(map(str, i))}]", lo, hi, strict, nice)
        return self._arr(a)

    def const_array(self, shape, v):
        a = np.empty(shape, dtype=object)
        a.fill(v)
        return self._arr(a)

    # instants: whole seconds after 2000-01-01 in a calendar
    def time(self, name, lo, hi, calendar="standard"):
        return self.instant(self.integer(name, lo, hi), calendar)

    def instant(self, sec, calendar="standard"):
        from . import timesym as T
        if self.symbolic:
            return T.SymTime(sec, calendar)
        return T.real_time(sec, calendar)

    def sec(self, t):
        """seconds after 2000-01-01 of any instant"""
        from . import timesym as T
        if isinstance(t, T.SymTime):
            return t.sec
        if isinstance(t, str):
            p = T.parse_token(t)
            if p is not None:
                return p.sec
        d = t - T.base(t.calendar)
        s = d.total_seconds()
        return int(s) if s == int(s) else s

    def floor(self, x, step):
        """largest multiple of step not above x"""
        if self.symbolic:
            return C.s_floordiv(x, step) * step
        return math.floor(x / step) * step

    # arithmetic for oracles, the same in both modes
    def ite(self, c, a, b):
        if self.symbolic:
            return C.s_ite(c, a, b)
        return a if c else b

    def min(self, a, b):
        return self.ite(a <= b, a, b)

    def max(self, a, b):
        return self.ite(a >= b, a, b)

    def abs(self, a):
        return self.ite(a >= 0, a, -a)

    def land(self, *cs):
        r = True
        for c in cs:
            r = self._sc(c) if r is True else (r & self._sc(c))
        return r

    def lor(self, *cs):
        r = False
        for c in cs:
            r = self._sc(c) if r is False else (r | self._sc(c))
        return r

    def lnot(self, c):
        c = self._sc(c)
        return C.s_not(c)

    def implies(self, a, b):
        return self.lor(self.lnot(a), b)

    @staticmethod
    def _sc(c):
        if isinstance(c, (SymArray, np.ndarray)):
            c = c.item()
        return bool(c) if isinstance(c, (bool, np.bool_)) else c

    def eq(self, label, a, b, tol=1e-7, scale=1.0):
        A, B = _broadcast(a, b)
        for i in np.ndindex(*A.shape):
            self._eq(_lab(label, i), A[i], B[i], tol, scale)

    def le(self, label, a, b, tol=1e-7, scale=1.0):
        A, B = _broadcast(a, b)
        for i in np.ndindex(*A.shape):
            self._le(_lab(label, i), A[i], B[i], tol, scale)

    def ge(self, label, a, b, tol=1e-7, scale=1.0):
        self.le(label, b, a, tol, scale)

    def true(self, label, c):
        A = obj(c)
        for i in np.ndindex(*A.shape):
            self._true(_lab(label, i), A[i])

    def finite(self, label, a):
        A = obj(a)
        for i in np.ndindex(*A.shape):
            self._finite(_lab(label, i), A[i])


def _lab(label, i):
    return f"{label}[{','.join(map(str, i))}]" if i else label


def _broadcast(a, b):
    A, B = obj(a), obj(b)
    A, B = np.broadcast_arrays(A, B)
    return A, B


# --------------------------------------------------------------------------


class SymH(HBase):
    mode = "sym"
    symbolic = True

    def __init__(self, tier="quick", seed=1):
        self.tier = tier
        self.seed = seed
        self.obls: list[Obl] = []
        self.inputs: dict[str, object] = {}
        self.nice: dict[str, tuple] = {}
        self.box: dict[str, Fraction] = {}  # bound on the absolute value of an input
        self.reached: set[str] = set()
        self.path_reached: list[str] = []
        self.notes: dict = {}
        self.ufapps: list = []

    def begin(self):
        self.obls = []
        self.path_reached = []
        self.ufapps = []

    def _arr(self, a):
        return SymArray(a, np.dtype(float))

    def real(self, name, lo=None, hi=None, strict=False, nice=None):
        v = z3.Real(name)
        self.inputs[name] = v
        c = C.ctx()
        if lo is not None:
            c.add((v > C.rv(lo)) if strict else (v >= C.rv(lo)))
        if hi is not None:
            c.add((v < C.rv(hi)) if strict else (v <= C.rv(hi)))
        self.nice[name] = nice if nice is not None else (
            -10 if lo is None else lo, 10 if hi is None else hi)
        if lo is not None and hi is not None:
            self.box[name] = max(abs(_rat(lo)), abs(_rat(hi)))
        return SV(v)

    def integer(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs[name] = v
        c = C.ctx()
        if lo is not None:
            c.add(v >= lo)
        if hi is not None:
            c.add(v <= hi)
        self.nice[name] = (-10 if lo is None else lo, 10 if hi is None else hi)
        return SV(v)

    def boolean(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return SB(v)

    def choice(self, name, options):
        """one of several concrete options: every one is explored"""
        k = self.integer(name, 0, len(options) - 1)
        return options[k.__index__()]

    def fresh_uf(self, name, nargs=1):
        return z3.Function(name, *([z3.RealSort()] * (nargs + 1)))

    def uf(self, fname, *args):
        """an arbitrary function of real arguments (an unknown field of time, say)"""
        f = self.fresh_uf(fname, len(args))
        es = [C.to_real(C.lift(a).e) for a in args]
        e = f(*es)
        self.ufapps.append((fname, es, e))
        return SV(e)

    def assume(self, c):
        if isinstance(c, SymArray):
            for x in c.a.flat:
                self.assume(x)
            return
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathAbort()
            return
        if isinstance(c, SV):
            c = c.truth()
        k = C.ctx()
        k.add(c.e)
        if k.feasible(z3.BoolVal(True)) is False:
            raise PathAbort()

    def reach(self, label="end"):
        self.path_reached.append(label)

    # ---- obligations
    def _fin(self, v):
        """raw bool: v is finite"""
        return C.b_not(C.b_or(v.nan, v.pinf, v.ninf))

    def _eq(self, label, a, b, tol, scale):
        la, lb = _lift(a, label), _lift(b, label)
        x, y = C._pair(la.e, lb.e)
        fin = C.b_and(self._fin(la), self._fin(lb))
        if fin is True:
            neg = x != y
        else:
            bothnan = C.b_and(la.nan, lb.nan)
            neg = z3.Not(C._zb(C.b_or(C.b_and(fin, x == y), bothnan)))
        nf = C.b_and(C.b_not(fin), C._zb(C.b_not(C.b_and(la.nan, lb.nan))))

        def margin(eps):
            xr, yr = C.to_real(x), C.to_real(y)
            e = z3.RealVal(Fraction(str(eps)))
            sc = z3.RealVal(Fraction(str(scale)))
            ax, ay = z3.If(xr >= 0, xr, -xr), z3.If(yr >= 0, yr, -yr)
            big = z3.Or(xr - yr > e * (sc + ax + ay), yr - xr > e * (sc + ax + ay))
            return C._zb(C.b_or(nf, big))

        self.obls.append(Obl(label, neg, margin, (la, lb), "eq"))

    def _le(self, label, a, b, tol, scale):
        la, lb = _lift(a, label), _lift(b, label)
        x, y = C._pair(la.e, lb.e)
        fin = C.b_and(self._fin(la), self._fin(lb))
        r = C.s_le(la, lb)
        neg = z3.Not(C.zb(r))
        nan = C._zb(C.b_or(la.nan, lb.nan))

        def margin(eps):
            xr, yr = C.to_real(x), C.to_real(y)
            e = z3.RealVal(Fraction(str(eps)))
            sc = z3.RealVal(Fraction(str(scale)))
            ax, ay = z3.If(xr >= 0, xr, -xr), z3.If(yr >= 0, yr, -yr)
            if fin is True:
                return xr - yr > e * (sc + ax + ay)
            return z3.Or(nan, z3.And(neg, z3.Not(C._zb(fin))),
                         z3.And(C._zb(fin), xr - yr > e * (sc + ax + ay)))

        self.obls.append(Obl(label, neg, margin, (la, lb), "le"))

    def _true(self, label, c):
        n = z3.Not(C.zb(c))
        self.obls.append(Obl(label, n, lambda eps: n, (c,), "true"))

    def _finite(self, label, v):
        l = _lift(v, label)
        n = C._zb(C.b_or(l.nan, l.pinf, l.ninf))
        self.obls.append(Obl(label, n, lambda eps: n, (l,), "finite"))


def _lift(x, label):
    if isinstance(x, SymArray):
        x = x.item()
    l = C.lift(x)
    if l is None:
        raise EngineError(f"obligation {label}: not a number: {type(x)}")
    return l


# --------------------------------------------------------------------------


class ConcH(HBase):
    mode = "conc"
    symbolic = False

    def __init__(self, assignment, tier="quick", ufs=None):
        self.asg = assignment
        self.tier = tier
        self.ufs = ufs or {}
        self.failed: list = []
        self.checked: dict = {}
        self.reached = []

    def _arr(self, a):
        return a.astype(float)

    def _get(self, name, default=0):
        return self.asg.get(name, default)

    def real(self, name, lo=None, hi=None, strict=False, nice=None):
        d = 1.0 if lo is None else float(lo) + (1.0 if hi is None else 0.5 * (float(hi) - float(lo)))
        return float(self._get(name, d))

    def integer(self, name, lo=None, hi=None):
        return int(self._get(name, lo or 0))

    def boolean(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        return options[int(self._get(name, 0))]

    def uf(self, fname, *args):
        tab = self.ufs.get(fname, [])
        best = None
        for row in tab:
            d = sum(abs(float(a) - float(b)) for a, b in zip(row[0], args))
            if best is None or d < best[0]:
                best = (d, row[1])
        if best is not None and best[0] <= 1e-3:
            return float(best[1])
        # a point the symbolic run never asked for: any value will do
        return 0.5 + (hash((fname,) + tuple(round(float(a), 3) for a in args)) % 1000) / 1000

    def assume(self, c):
        if not np.all(c):
            raise Assumption()

    def reach(self, label="end"):
        self.reached.append(label)

    def _note(self, label, v):
        n = self.checked.setdefault(label, [])
        n.append(v)

    def _eq(self, label, a, b, tol, scale):
        a, b = _flt(a), _flt(b)
        self._note(label, a)
        if math.isnan(a) and math.isnan(b):
            return
        if not (abs(a - b) <= tol * (scale + abs(a) + abs(b))):
            if not (a == b):
                self.failed.append((label, f"{a!r} != {b!r}"))

    def _le(self, label, a, b, tol, scale):
        a, b = _flt(a), _flt(b)
        self._note(label, a)
        if not (a - b <= tol * (scale + abs(a) + abs(b))):
            self.failed.append((label, f"not {a!r} <= {b!r}"))

    def _true(self, label, c):
        self._note(label, bool(c))
        if not bool(c):
            self.failed.append((label, "false"))

    def _finite(self, label, v):
        v = _flt(v)
        self._note(label, v)
        if not math.isfinite(v):
            self.failed.append((label, f"{v!r} is not finite"))


def _flt(x):
    if isinstance(x, np.ndarray):
        x = x.item()
    return float(x)
