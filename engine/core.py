"""Symbolic scalars, path exploration and solver access.

A symbolic execution of real Python code: the interpreter runs the repository's
own functions, while numbers are replaced by the objects below.  A number is a
z3 term plus (only where the code can produce them) NaN / +-inf flags.  A branch
on a symbolic truth value asks the solver which outcomes are possible and
explores every possible one.
"""

from __future__ import annotations

import math
import re
import numbers
import time
from fractions import Fraction

import numpy as np
import z3

z3.set_param("model.completion", True)


class EngineError(Exception):
    """The engine could not encode something (never a verdict)."""


class Inconclusive(EngineError):
    """The solver gave no answer."""


class PathAbort(BaseException):
    """Stop the present path (infeasible or cut by an assumption)."""


# --------------------------------------------------------------------------
# context: one per scenario


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0


class Ctx:
    cur: "Ctx | None" = None

    def __init__(self, branch_timeout_ms=4000, max_paths=4000):
        self.stats = Stats()
        self.prefix: list[bool] = []
        self.decisions: list[tuple[bool, bool]] = []  # (choice, alternative open)
        self.path: list = []  # path condition
        self.axioms: list = []  # instances of axioms about uninterpreted functions
        self._ax_seen: set = set()
        self.max_paths = max_paths
        self.branch_timeout_ms = branch_timeout_ms
        self.fresh = 0
        self.denom_cache: dict = {}
        self.inc = None
        self.tokens: dict = {}
        self.inputs: dict = {}
        self.keep: list = []

    # -- path bookkeeping
    def start_path(self):
        self.decisions = []
        self.path = []
        self.axioms = []
        self._ax_seen = set()
        self.fresh = 0
        self.denom_cache = {}
        self.keep = []
        self.inc = z3.Solver()
        self.inc.set("timeout", self.branch_timeout_ms)
        self.tokens = {}
        self.stats.paths += 1
        if self.stats.paths > self.max_paths:
            raise Inconclusive(f"more than {self.max_paths} paths")

    def next_prefix(self):
        d = self.decisions
        while d and not d[-1][1]:
            d = d[:-1]
        if not d:
            return None
        return [c for c, _ in d[:-1]] + [not d[-1][0]]

    def add(self, cond):
        self.path.append(cond)
        self.inc.add(cond)

    def axiom(self, cond):
        k = cond.get_id()
        if k in self._ax_seen:
            return
        self._ax_seen.add(k)
        self.keep.append(cond)
        self.axioms.append(cond)
        self.inc.add(cond)

    def feasible(self, cond):
        """True / False / None (unknown)."""
        self.stats.queries += 1
        t = time.time()
        r = self.inc.check(cond)
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            return True
        if r == z3.unsat:
            return False
        # one more try, from scratch
        s = z3.Solver()
        s.set("timeout", self.branch_timeout_ms)
        s.add(*self.path, *self.axioms, cond)
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            return True
        if r == z3.unsat:
            return False
        self.stats.unknown += 1
        return None

    deadline = None

    def decide(self, cond) -> bool:
        i = len(self.decisions)
        if i < len(self.prefix):
            choice = self.prefix[i]
            # alternatives of prefix decisions: the last one was flipped (closed),
            # the earlier ones keep the state they had
            alt = self._prefix_alt[i]
            self.decisions.append((choice, alt))
            self.add(cond if choice else z3.Not(cond))
            self.stats.branches += 1
            return choice
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("out of time while exploring paths")
        ft = self.feasible(cond)
        if ft is False:
            self.decisions.append((False, False))
            self.add(z3.Not(cond))
            return False
        ff = self.feasible(z3.Not(cond))
        if ff is False:
            self.decisions.append((True, False))
            self.add(cond)
            return True
        self.stats.branches += 1
        # unknown is treated as possible: exploring an infeasible path is sound
        self.decisions.append((True, True))
        self.add(cond)
        return True

    def explore(self, fn):
        """Run fn once per feasible path."""
        Ctx.cur = self
        self.prefix, self._prefix_alt, self.vals = [], [], {}
        try:
            while True:
                self.start_path()
                try:
                    fn()
                except PathAbort:
                    pass
                d = list(self.decisions)
                while d and not d[-1][1]:
                    d.pop()
                if not d:
                    return
                self.prefix = [c for c, _ in d[:-1]] + [not d[-1][0]]
                self._prefix_alt = [a for _, a in d[:-1]] + [False]
        finally:
            Ctx.cur = None


def ctx() -> Ctx:
    if Ctx.cur is None:
        raise EngineError("symbolic value used outside a symbolic run")
    return Ctx.cur


# --------------------------------------------------------------------------
# helpers on raw terms

_frac_cache: dict = {}


def frac(x):
    """The real number a numeric literal stands for (decimal reading)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, np.float32):
        return Fraction(str(x))
    x = float(x)
    f = _frac_cache.get(x)
    if f is None:
        f = _frac_cache[x] = Fraction(repr(x))
    return f


def is_conc(x):
    return isinstance(x, (int, float, Fraction, np.generic, bool)) and not isinstance(
        x, (SV, SB)
    )


def rv(x):
    """Concrete number -> z3 numeral."""
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    return z3.RealVal(frac(x))


def zb(x):
    """Any boolean -> z3 Bool."""
    if isinstance(x, SB):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SV):
        return x.truth().e if isinstance(x.truth(), SB) else z3.BoolVal(x.truth())
    if z3.is_expr(x):
        return x
    if isinstance(x, (int, float)):
        return z3.BoolVal(bool(x))
    raise EngineError(f"not a boolean: {type(x)}")


def _isF(b):
    return b is False


def b_or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    if len(xs) == 1:
        return xs[0]
    return z3.Or(*xs)


def b_and(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    if len(xs) == 1:
        return xs[0]
    return z3.And(*xs)


def b_not(x):
    if x is True or x is False:
        return not x
    return z3.Not(x)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return z3.Not(c)
    if a is True:
        return z3.Or(c, _zb(b))
    if a is False:
        return b_and(z3.Not(c), b)
    if b is True:
        return z3.Or(z3.Not(c), a)
    if b is False:
        return b_and(c, a)
    return z3.If(c, a, b)


def _zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def mkb(x):
    """raw bool term or python bool -> SB / bool, folding constants."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return SB(x)


def mkv(e, nan=False, pinf=False, ninf=False):
    if nan is False and pinf is False and ninf is False:
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(), e.denominator_as_long())) if not z3.is_int_value(e) else e.as_long()
        if z3.is_int_value(e):
            return e.as_long()
    return SV(e, nan, pinf, ninf)


# --------------------------------------------------------------------------


def _defer(o):
    """Types whose own reflected operator must handle the operation."""
    return hasattr(o, "dims") or hasattr(o, "_is_symarray") or hasattr(o, "data_vars")


class SB:
    """Symbolic truth value."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __hash__(self):
        return 77

    def __and__(self, o):
        if _defer(o) or isinstance(o, np.ndarray):
            return _nd2(np.bitwise_and, self, o)
        r = _tb(o)
        if r is None:
            return NotImplemented
        return mkb(b_and(self.e, r))

    __rand__ = __and__

    def __or__(self, o):
        if _defer(o) or isinstance(o, np.ndarray):
            return _nd2(np.bitwise_or, self, o)
        r = _tb(o)
        if r is None:
            return NotImplemented
        return mkb(b_or(self.e, r))

    __ror__ = __or__

    def __xor__(self, o):
        r = _tb(o)
        if r is None:
            return NotImplemented
        return mkb(z3.Xor(self.e, _zb(r)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkb(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        if isinstance(o, SB):
            return mkb(self.e == o.e)
        if isinstance(o, (int, float, SV, np.number)):
            return self.num() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    def num(self):
        return mkv(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def item(self):
        return self

    def any(self):
        return self

    def all(self):
        return self

    def __format__(self, spec):
        return token(self, spec)

    __str__ = __repr__ = lambda self: token(self, "")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr

        return arr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr

        return arr.function_dispatch(func, args, kwargs)


for _n, _s in (("add", "__add__"), ("sub", "__sub__"), ("mul", "__mul__"),
               ("truediv", "__truediv__")):
    def _mk(s):
        def f(self, o):
            return getattr(self.num(), s)(o)
        return f
    setattr(SB, f"__{_n}__", _mk(f"__{_n}__"))
    setattr(SB, f"__r{_n}__", _mk(f"__r{_n}__"))
for _n in ("lt", "le", "gt", "ge"):
    def _mk2(s):
        def f(self, o):
            v = self.num()
            return getattr(v, s)(o) if isinstance(v, SV) else getattr(SV(rv(v)), s)(o)
        return f
    setattr(SB, f"__{_n}__", _mk2(f"__{_n}__"))


def _tb(o):
    """coerce to raw bool (True/False/z3)"""
    if isinstance(o, SB):
        return o.e
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, SV):
        t = o.truth()
        return t.e if isinstance(t, SB) else t
    if isinstance(o, (int, float)):
        return bool(o)
    return None


def _nd2(uf, a, b):
    if hasattr(b, "dims") or hasattr(b, "data_vars"):
        return NotImplemented
    from . import arr

    return arr.ufunc_dispatch(uf, "__call__", (a, b), {})


def s_not(x):
    if isinstance(x, SB):
        return ~x
    if isinstance(x, SV):
        return s_not(x.truth())
    return not x


def token(v, spec):
    c = ctx()
    key = ("_id", v.e.get_id() if hasattr(v, "nan") and _plain(v) else id(v), spec)
    t = c.tokens.get(key)
    if t is None:
        t = f"\u27e6{len(c.tokens)}:{spec}\u27e7"
        c.tokens[key] = t
        c.tokens[t] = (v, spec)
    return t


_TOKEN = re.compile("\u27e6\\d+:[^\u27e7]*\u27e7")


def token_value(text):
    """the symbolic number behind a text, before any rounding (None: not such a text)"""
    t = text.strip()
    neg = t[:1] == "-"
    p = ctx().tokens.get(t[1:] if neg else t)
    if p is None:
        return None
    return s_sub(0, p[0]) if neg else p[0]


def parse_number(text):
    """the number a text made from a symbolic number stands for (None: not such a text)"""
    neg, t = False, text.strip()
    if t[:1] in "+-":
        neg, t = t[0] == "-", t[1:]
    if not _TOKEN.fullmatch(t):
        if "\u27e6" in text:
            raise ValueError(f"could not convert string to float: {text!r}")
        return None
    v, spec = ctx().tokens[t]
    m = re.fullmatch(r"[+ ]?0?\d*(?:\.(\d+))?f", spec)
    if spec not in ("", "d"):
        if not m:
            raise EngineError(f"reading back a number written as {spec!r}")
        k = 10 ** int(m.group(1) or 6)
        v = s_div(s_rint(s_mul(v, k)), k)
    return s_sub(0, v) if neg else v


def lift(x):
    """number-like -> SV (or None)"""
    if isinstance(x, SV):
        return x
    if isinstance(x, SB):
        return SV(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, (bool, np.bool_)):
        return SV(z3.IntVal(int(x)))
    if isinstance(x, (int, np.integer)):
        return SV(z3.IntVal(int(x)))
    if isinstance(x, Fraction):
        return SV(z3.RealVal(x))
    if isinstance(x, (float, np.floating)):
        if math.isnan(x):
            return SV(z3.RealVal(0), True)
        if math.isinf(x):
            return SV(z3.RealVal(0), False, x > 0, x < 0)
        return SV(rv(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if hasattr(x, "_is_symarray") and x.ndim == 0:
        return lift(x.item())
    return None


def _plain(v: "SV"):
    return v.nan is False and v.pinf is False and v.ninf is False


def _conc(v: "SV"):
    """Fraction if the finite value is a numeral, else None"""
    e = v.e
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def to_real(e):
    if z3.is_int(e):
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    return e


def _pair(a, b):
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return to_real(a), to_real(b)


class SV:
    """Symbolic number: z3 term e (Real or Int) with NaN/inf flags."""

    __slots__ = ("e", "nan", "pinf", "ninf")
    _is_sv = True

    def __init__(self, e, nan=False, pinf=False, ninf=False):
        self.e = e
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf

    # --- arithmetic
    def __add__(self, o):
        return s_add(self, o)

    def __radd__(self, o):
        return s_add(o, self)

    def __sub__(self, o):
        return s_sub(self, o)

    def __rsub__(self, o):
        return s_sub(o, self)

    def __mul__(self, o):
        return s_mul(self, o)

    def __rmul__(self, o):
        return s_mul(o, self)

    def __truediv__(self, o):
        return s_div(self, o)

    def __rtruediv__(self, o):
        return s_div(o, self)

    def __floordiv__(self, o):
        return s_floordiv(self, o)

    def __rfloordiv__(self, o):
        return s_floordiv(o, self)

    def __mod__(self, o):
        return s_mod(self, o)

    def __rmod__(self, o):
        return s_mod(o, self)

    def __divmod__(self, o):
        return s_floordiv(self, o), s_mod(self, o)

    def __rdivmod__(self, o):
        return s_floordiv(o, self), s_mod(o, self)

    def __pow__(self, o, mod=None):
        return s_pow(self, o)

    def __rpow__(self, o):
        return s_pow(o, self)

    def __neg__(self):
        return mkv(-self.e, self.nan, self.ninf, self.pinf)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    # --- comparison
    def __lt__(self, o):
        return s_lt(self, o)

    def __le__(self, o):
        return s_le(self, o)

    def __gt__(self, o):
        return s_lt(o, self, swapped=True)

    def __ge__(self, o):
        return s_le(o, self, swapped=True)

    def __eq__(self, o):
        return s_eq(self, o)

    def __ne__(self, o):
        r = s_eq(self, o)
        return r if r is NotImplemented else s_not(r)

    def __hash__(self):
        return 991

    # --- protocol
    def truth(self):
        if not _plain(self):
            return mkb(b_or(self.nan, self.pinf, self.ninf, self.e != 0))
        return mkb(self.e != 0)

    def __bool__(self):
        return bool(self.truth())

    def __float__(self):
        c = _conc(self)
        if c is not None and _plain(self):
            return float(c)
        raise EngineError("a symbolic number was forced to a machine float")

    def __int__(self):
        if z3.is_int(self.e):
            return self.__index__()
        t = s_trunc(self)
        return t if isinstance(t, int) else t.__index__()

    def __index__(self):
        """Fork over the possible values of a symbolic integer."""
        c = ctx()
        if not z3.is_int(self.e):
            raise TypeError("symbolic real used as an index")
        for _ in range(64):
            i = len(c.decisions)
            if i < len(c.prefix):  # re-running a path: the values tried before, in the same order
                v = c.vals[i]
                if c.decide(self.e == v):
                    return v
                continue
            s = c.inc
            r = s.check()
            c.stats.queries += 1
            if r != z3.sat:
                raise Inconclusive("no model while enumerating an index")
            v = s.model().eval(self.e, model_completion=True).as_long()
            c.vals[i] = v
            if c.decide(self.e == v):
                return v
        raise Inconclusive("symbolic index has more than 64 values")

    def __round__(self, n=None):
        if n is None:
            return s_rint(self)
        k = 10**n
        return s_rint(self * k) / k

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def __trunc__(self):
        return s_trunc(self)

    def is_integer(self):
        return mkb(z3.IsInt(to_real(self.e)))

    def item(self, *a):
        return self

    def any(self):
        return self.truth()

    all = any

    def copy(self, *a, **k):
        return self

    def astype(self, *a, **k):
        return self

    @property
    def real(self):
        return self

    def __format__(self, spec):
        return token(self, spec)

    def __str__(self):
        return token(self, "")

    __repr__ = __str__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr

        return arr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr

        return arr.function_dispatch(func, args, kwargs)


numbers.Number.register(SV)


def _two(a, b, uf):
    """Coerce operands; returns (a, b) as SV, or a ready result in third slot."""
    for x in (a, b):
        if _defer(x):
            if hasattr(x, "_is_symarray"):
                from . import arr

                return None, None, arr.ufunc_dispatch(uf, "__call__", (a, b), {})
            return None, None, NotImplemented
        if isinstance(x, np.ndarray) and x.ndim > 0:
            from . import arr

            return None, None, arr.ufunc_dispatch(uf, "__call__", (a, b), {})
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return None, None, NotImplemented
    return la, lb, None


def s_add(a, b):
    a, b, r = _two(a, b, np.add)
    if a is None:
        return r
    ca, cb = _conc(a), _conc(b)
    if _plain(a) and _plain(b):
        if ca is not None and ca == 0:
            return b
        if cb is not None and cb == 0:
            return a
        if ca is not None and cb is not None:
            return _num(ca + cb)
        x, y = _pair(a.e, b.e)
        return SV(x + y)
    x, y = _pair(a.e, b.e)
    nan = b_or(a.nan, b.nan, b_and(a.pinf, b.ninf), b_and(a.ninf, b.pinf))
    return mkv(x + y, nan, b_and(b_not(nan), b_or(a.pinf, b.pinf)),
               b_and(b_not(nan), b_or(a.ninf, b.ninf)))


def _num(f: Fraction):
    return int(f) if f.denominator == 1 and abs(f) < 2**53 else float(f)


def s_neg(a):
    return -a


def s_sub(a, b):
    a2, b2, r = _two(a, b, np.subtract)
    if a2 is None:
        return r
    if _plain(a2) and _plain(b2):
        ca, cb = _conc(a2), _conc(b2)
        if cb is not None and cb == 0:
            return a2
        if ca is not None and cb is not None:
            return _num(ca - cb)
        if ca is not None and ca == 0:
            return SV(-b2.e)
        x, y = _pair(a2.e, b2.e)
        if x.eq(y):
            return 0
        return SV(x - y)
    return s_add(a2, mkv(-b2.e, b2.nan, b2.ninf, b2.pinf))


def s_mul(a, b):
    a, b, r = _two(a, b, np.multiply)
    if a is None:
        return r
    if _plain(a) and _plain(b):
        ca, cb = _conc(a), _conc(b)
        if ca is not None and cb is not None:
            return _num(ca * cb)
        if ca is not None:
            if ca == 0:
                return 0
            if ca == 1:
                return b
        if cb is not None:
            if cb == 0:
                return 0
            if cb == 1:
                return a
        # push a constant into an if-then-else of constants (keeps terms linear)
        x, y = _pair(a.e, b.e)
        return SV(x * y)
    x, y = _pair(to_real(a.e), to_real(b.e))
    ainf, binf = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
    if ainf is False and binf is False:
        return mkv(x * y, b_or(a.nan, b.nan))
    afin_zero = b_and(b_not(ainf), mkz(x == 0))
    bfin_zero = b_and(b_not(binf), mkz(y == 0))
    nan = b_or(a.nan, b.nan, b_and(ainf, bfin_zero), b_and(binf, afin_zero))
    apos = b_or(a.pinf, b_and(b_not(ainf), mkz(x > 0)))
    bpos = b_or(b.pinf, b_and(b_not(binf), mkz(y > 0)))
    inf = b_and(b_not(nan), b_or(ainf, binf))
    same = b_or(b_and(apos, bpos), b_and(b_not(apos), b_not(bpos)))
    return mkv(x * y, nan, b_and(inf, same), b_and(inf, b_not(same)))


def mkz(e):
    """fold a z3 bool"""
    e2 = z3.simplify(e) if (z3.is_app(e) and e.num_args() == 2 and (
        z3.is_rational_value(e.arg(0)) or z3.is_int_value(e.arg(0)))
        and (z3.is_rational_value(e.arg(1)) or z3.is_int_value(e.arg(1)))) else e
    if z3.is_true(e2):
        return True
    if z3.is_false(e2):
        return False
    return e2


def can_be_zero(e):
    """Can the (finite) denominator be zero on the present path?"""
    if z3.is_rational_value(e) or z3.is_int_value(e):
        c = Fraction(e.numerator_as_long(), e.denominator_as_long()) if z3.is_rational_value(e) and not z3.is_int_value(e) else Fraction(e.as_long())
        return c == 0
    c = ctx()
    k = e.get_id()
    v = c.denom_cache.get(k)
    if v is None:
        f = c.feasible(e == 0)
        v = f is not False
        c.denom_cache[k] = v
        c.keep.append(e)
    return v


def prune(flag):
    """drop (or settle) a NaN/inf flag the path condition decides"""
    if flag is True or flag is False:
        return flag
    f = ctx().feasible(flag)
    return False if f is False else flag


def s_div(a, b):
    a, b, r = _two(a, b, np.true_divide)
    if a is None:
        return r
    x, y = to_real(a.e), to_real(b.e)
    ca, cb = _conc(a), _conc(b)
    if _plain(a) and _plain(b):
        if cb is not None and cb != 0:
            if ca is not None:
                return _num(ca / cb)
            if cb == 1:
                return a
            return SV(x * z3.RealVal(1 / cb))
        if not can_be_zero(y):
            if ca is not None and ca == 0:
                return 0
            return SV(x / y)
    # general case
    ainf, binf = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
    bz = False if (cb is not None and cb != 0) else (
        True if (cb is not None and cb == 0) else
        (mkz(y == 0) if can_be_zero(y) else False))
    bz = b_and(bz, b_not(binf), b_not(b.nan))
    az = b_and(mkz(x == 0), b_not(ainf), b_not(a.nan))
    nan = b_or(a.nan, b.nan, b_and(ainf, binf), b_and(bz, az))
    apos = b_or(a.pinf, b_and(b_not(ainf), mkz(x > 0)))
    bneg = b_or(b.ninf, b_and(b_not(binf), mkz(y < 0)))
    inf = b_and(b_not(nan), b_or(ainf, bz))
    pos = b_ite(bneg, b_not(apos), apos)
    nan, inf = prune(nan), prune(inf)
    if inf is False:
        pos = False
    q = z3.RealVal(0) if bz is True else (
        x / y if bz is False else z3.If(_zb(bz), z3.RealVal(0), x / y))
    if binf is not False:
        q = z3.If(_zb(binf), z3.RealVal(0), q)
    return mkv(q, nan, b_and(inf, pos), b_and(inf, b_not(pos)))


def s_floor(a):
    l = lift(a)
    if l is None:
        return NotImplemented
    c = _conc(l)
    if c is not None and _plain(l):
        return math.floor(c)
    if z3.is_int(l.e):
        return l
    return mkv(z3.ToInt(l.e), l.nan, l.pinf, l.ninf)


def s_ceil(a):
    return -1 * s_floor(-1 * lift(a) if not is_conc(a) else -a)


def s_trunc(a):
    l = lift(a)
    return s_ite(s_lt(l, 0), s_ceil(l), s_floor(l))


def s_rint(a):
    """round half to even"""
    l = lift(a)
    if z3.is_int(l.e):
        return l
    f = s_floor(l)
    d = s_sub(l, f)
    odd = s_eq(s_mod(f, 2), 1)
    up = s_or(s_lt(0.5, d), s_and(s_eq(d, 0.5), odd))
    return s_add(f, s_ite(up, 1, 0))


def s_floordiv(a, b):
    a, b, r = _two(a, b, np.floor_divide)
    if a is None:
        return r
    if z3.is_int(a.e) and z3.is_int(b.e) and _plain(a) and _plain(b):
        cb = _conc(b)
        if cb is not None and cb > 0:
            ca = _conc(a)
            if ca is not None:
                return int(ca // cb)
            return SV(a.e / b.e)
    q = s_div(a, b)
    return s_floor(q) if isinstance(q, SV) else math.floor(q)


def s_mod(a, b):
    a, b, r = _two(a, b, np.remainder)
    if a is None:
        return r
    if z3.is_int(a.e) and z3.is_int(b.e) and _plain(a) and _plain(b):
        cb = _conc(b)
        if cb is not None and cb > 0:
            ca = _conc(a)
            if ca is not None:
                return int(ca % cb)
            return SV(a.e % b.e)
    ca, cb = _conc(a), _conc(b)
    if ca is not None and cb is not None and cb != 0 and _plain(a) and _plain(b):
        return _num(ca % cb)
    return s_sub(a, s_mul(b, s_floordiv(a, b)))


def s_pow(a, b):
    a, b, r = _two(a, b, np.power)
    if a is None:
        return r
    cb = _conc(b)
    if cb is None:
        raise EngineError("symbolic exponent")
    if cb == 0:
        return 1
    if cb.denominator == 1 and abs(cb) <= 8:
        n = int(abs(cb))
        out = a
        for _ in range(n - 1):
            out = s_mul(out, a)
        return out if cb > 0 else s_div(1, out)
    if cb == Fraction(1, 2):
        return uf_apply("sqrt", a)
    raise EngineError(f"power {cb}")


def s_abs(a):
    l = lift(a)
    if l is None:
        return NotImplemented
    c = _conc(l)
    if c is not None and _plain(l):
        return _num(abs(c))
    return mkv(z3.If(l.e >= 0, l.e, -l.e), l.nan, b_or(l.pinf, l.ninf), False)


def _cmp_general(a, b, strict):
    # a < b (or <=) with flags
    x, y = _pair(a.e, b.e)
    nan = b_or(a.nan, b.nan)
    fin = b_not(b_or(a.pinf, a.ninf, b.pinf, b.ninf))
    core = b_and(fin, mkz(x < y) if strict else mkz(x <= y))
    if strict:
        infs = b_or(b_and(a.ninf, b_not(b.ninf)), b_and(b.pinf, b_not(a.pinf)))
    else:
        infs = b_or(a.ninf, b.pinf)
    return mkb(_zb(b_and(b_not(nan), b_or(core, infs))))


def s_lt(a, b, swapped=False):
    uf = np.greater if swapped else np.less
    if swapped:
        b2, a2, r = _two(b, a, uf)
    else:
        a2, b2, r = _two(a, b, uf)
    if a2 is None:
        return r
    if _plain(a2) and _plain(b2):
        x, y = _pair(a2.e, b2.e)
        if x.eq(y):
            return False
        return mkb(mkz(x < y))
    return _cmp_general(a2, b2, True)


def s_le(a, b, swapped=False):
    uf = np.greater_equal if swapped else np.less_equal
    if swapped:
        b2, a2, r = _two(b, a, uf)
    else:
        a2, b2, r = _two(a, b, uf)
    if a2 is None:
        return r
    if _plain(a2) and _plain(b2):
        x, y = _pair(a2.e, b2.e)
        if x.eq(y):
            return True
        return mkb(mkz(x <= y))
    return _cmp_general(a2, b2, False)


def s_eq(a, b):
    a2, b2, r = _two(a, b, np.equal)
    if a2 is None:
        return r
    x, y = _pair(a2.e, b2.e)
    if _plain(a2) and _plain(b2):
        if x.eq(y):
            return True
        return mkb(mkz(x == y))
    nan = b_or(a2.nan, b2.nan)
    fin = b_not(b_or(a2.pinf, a2.ninf, b2.pinf, b2.ninf))
    return mkb(_zb(b_and(b_not(nan), b_or(b_and(fin, mkz(x == y)),
                                      b_and(a2.pinf, b2.pinf), b_and(a2.ninf, b2.ninf)))))


def s_and(a, b):
    x, y = _tb(a), _tb(b)
    return mkb(b_and(x, y))


def s_or(a, b):
    x, y = _tb(a), _tb(b)
    return mkb(b_or(x, y))


def s_ite(c, a, b):
    """if-then-else on values (numbers or booleans)."""
    if hasattr(c, "_is_symarray"):
        c = c.item()
    if hasattr(a, "_is_symarray"):
        a = a.item()
    if hasattr(b, "_is_symarray"):
        b = b.item()
    if isinstance(c, SV):
        c = c.truth()
    if isinstance(c, (bool, np.bool_, int)):
        return a if c else b
    if isinstance(c, (float, np.number)):
        return a if c else b
    ce = c.e
    ab = isinstance(a, (SB, bool, np.bool_))
    bb = isinstance(b, (SB, bool, np.bool_))
    if ab and bb:
        return mkb(_zb(b_ite(ce, _tb(a), _tb(b))))
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        if a is b:
            return a
        # arbitrary python objects: fork
        return a if bool(c) else b
    x, y = _pair(la.e, lb.e)
    if x.eq(y):
        e = x
    elif la.nan is True:
        e = y
    elif lb.nan is True:
        e = x
    else:
        e = z3.If(ce, x, y)
    return mkv(e, b_ite(ce, la.nan, lb.nan), b_ite(ce, la.pinf, lb.pinf),
               b_ite(ce, la.ninf, lb.ninf))


def s_isnan(a):
    l = lift(a)
    if l is None:
        return False
    return mkb(_zb(l.nan))


def s_isinf(a):
    l = lift(a)
    return mkb(_zb(b_or(l.pinf, l.ninf)))


def s_isfinite(a):
    l = lift(a)
    return mkb(_zb(b_not(b_or(l.nan, l.pinf, l.ninf))))


def s_min(a, b, ignore_nan=False):
    return _minmax(a, b, True, ignore_nan)


def s_max(a, b, ignore_nan=False):
    return _minmax(a, b, False, ignore_nan)


def _minmax(a, b, is_min, ignore_nan):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        raise EngineError("min/max of non-numbers")
    ca, cb = _conc(la), _conc(lb)
    if _plain(la) and _plain(lb):
        if ca is not None and cb is not None:
            return _num(min(ca, cb) if is_min else max(ca, cb))
        x, y = _pair(la.e, lb.e)
        if x.eq(y):
            return la
        return mkv(z3.If((x <= y) if is_min else (x >= y), x, y))
    c = s_le(la, lb) if is_min else s_le(lb, la)
    r = s_ite(c, la, lb)
    na, nb = s_isnan(la), s_isnan(lb)
    if ignore_nan:
        return s_ite(na, lb, s_ite(nb, la, r))
    return s_ite(s_or(na, nb), float("nan"), r)


def s_sign(a):
    l = lift(a)
    c = _conc(l)
    if c is not None and _plain(l):
        return (c > 0) - (c < 0)
    if _plain(l):
        return SV(z3.If(l.e > 0, z3.IntVal(1), z3.If(l.e < 0, z3.IntVal(-1), z3.IntVal(0))))
    return s_ite(s_isnan(l), float("nan"),
                 s_ite(s_lt(0, l), 1, s_ite(s_lt(l, 0), -1, 0)))


# ---- transcendental functions: uninterpreted, with true axioms ------------

_UFS: dict = {}


def _ufn(name):
    if name not in _UFS:
        _UFS[name] = z3.Function("uf_" + name, z3.RealSort(), z3.RealSort())
    return _UFS[name]


def _degrees(x):
    """an angle that is linear in the inputs, in degrees with its coefficients rounded to short
    fractions: pi / 180 comes out of machine arithmetic in several roundings"""
    def short(q):
        d = q * 180 / Fraction("3.14159265358979323846264338327950288")
        r = d.limit_denominator(10000)
        return r if abs(d - r) <= abs(d) * Fraction(1, 10**13) else None

    terms = x.children() if z3.is_add(x) else [x]
    out = []
    for t in terms:
        if z3.is_rational_value(t):
            k, v = Fraction(t.numerator_as_long(), t.denominator_as_long()), None
        elif z3.is_mul(t) and z3.is_rational_value(t.arg(0)):
            a = t.arg(0)
            k = Fraction(a.numerator_as_long(), a.denominator_as_long())
            rest = t.children()[1:]
            v = rest[0] if len(rest) == 1 else z3.Product(rest)
        else:
            return x
        r = short(k)
        if r is None:
            return x
        out.append(z3.RealVal(r) if v is None else z3.RealVal(r) * v)
    return z3.simplify(z3.Sum(out) if len(out) > 1 else out[0], som=True)


def uf_apply(name, a):
    l = lift(a)
    if l is None:
        raise EngineError(f"{name} of a non-number")
    c = _conc(l)
    if c is not None and _plain(l):
        return {"sqrt": math.sqrt, "exp": math.exp, "sin": math.sin, "cos": math.cos,
                "log": math.log, "tan": math.tan, "log10": math.log10,
                "log2": math.log2, "expm1": math.expm1, "log1p": math.log1p,
                "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan,
                "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
                "cbrt": lambda v: math.copysign(abs(v) ** (1 / 3), v)}[name](float(c))
    x = to_real(l.e)
    k = ctx()
    if name == "sqrt":
        f = _ufn("sqrt")
        y = f(x)
        k.axiom(z3.Implies(x >= 0, z3.And(y >= 0, y * y == x)))
        return mkv(y, b_or(l.nan, l.ninf, b_and(b_not(l.pinf), x < 0)), l.pinf, False)
    if name == "exp":
        # normalise the argument, so that equal arguments give equal terms
        xs = z3.simplify(x, som=True)
        y = _ufn("exp")(xs)
        k.axiom(y > 0)
        k.axiom(y >= 1 + xs)
        others = k.tokens.setdefault("_exp", [])
        for ox, oy in others:
            k.axiom(z3.And(z3.Implies(ox < xs, oy < y), z3.Implies(xs < ox, y < oy),
                           z3.Implies(ox == xs, oy == y)))
        others.append((xs, y))
        return mkv(y, l.nan, l.pinf, False)
    if name in ("sin", "cos"):
        xs = _degrees(z3.simplify(x, som=True))
        s, c0 = _ufn("sin")(xs), _ufn("cos")(xs)
        k.axiom(s * s + c0 * c0 == 1)
        k.axiom(z3.And(s <= 1, s >= -1, c0 <= 1, c0 >= -1))
        others = k.tokens.setdefault("_trig", [])
        if not any(o.eq(xs) for o in others):
            neg = z3.simplify(-xs, som=True)
            k.axiom(z3.And(_ufn("sin")(neg) == -s, _ufn("cos")(neg) == c0))
            others.append(xs)
        return SV(s if name == "sin" else c0)
    if name == "log":
        xs = z3.simplify(x, som=True)
        y = _ufn("log")(xs)
        others = k.tokens.setdefault("_log", [])
        for ox, oy in others:
            k.axiom(z3.And(z3.Implies(ox < xs, oy < y), z3.Implies(xs < ox, y < oy)))
        others.append((xs, y))
        return mkv(y, b_or(l.nan, xs < 0), l.pinf, xs == 0)
    raise EngineError(f"function {name} of a symbolic number")
