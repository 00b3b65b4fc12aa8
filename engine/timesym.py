"""Symbolic instants and durations, and the library calls that handle them.

An instant is a number of seconds after 2000-01-01T00:00 in its calendar; the
texts made from it are tokens that the parsers below recognise.  Calendar
arithmetic (which day is day 59) is not modelled: only whole days count.
"""

from __future__ import annotations

import datetime as _dt
import re
import sys
import types

import cftime
import numpy as np
import pandas as pd
import xarray as xr
import z3

from . import core as C
from .arr import SymArray
from .core import SB, SV, EngineError

DAY = 86400
BASE = cftime.DatetimeGregorian(2000, 1, 1)
TOK: dict[int, tuple] = {}
_TOKID: dict[tuple, int] = {}
_ALIVE: list = []
TOKRE = re.compile(r"⟪(\d+)\|([^⟫]*)⟫")
_RES = {"S": 1, "M": 60, "H": 3600, "d": DAY, "j": DAY}
_cls = {"standard": cftime.DatetimeGregorian, "gregorian": cftime.DatetimeGregorian,
        "proleptic_gregorian": cftime.DatetimeProlepticGregorian, "noleap": cftime.DatetimeNoLeap,
        "365_day": cftime.DatetimeNoLeap, "360_day": cftime.Datetime360Day,
        "julian": cftime.DatetimeJulian, "all_leap": cftime.DatetimeAllLeap,
        "366_day": cftime.DatetimeAllLeap}


def base(calendar="standard"):
    return _cls[calendar](2000, 1, 1)


def real_time(sec, calendar="standard"):
    return base(calendar) + _dt.timedelta(seconds=float(sec))


def _secs(x):
    if isinstance(x, SymDelta):
        return x.sec
    if isinstance(x, (pd.Timedelta, _dt.timedelta)):
        return x.total_seconds()
    if isinstance(x, np.timedelta64):
        return pd.Timedelta(x).total_seconds()
    return None


def freq_seconds(freq):
    if isinstance(freq, (pd.Timedelta, _dt.timedelta)):
        return _int(freq.total_seconds())
    from xarray.coding.cftime_offsets import to_offset
    to_offset(freq)  # raises for what xarray does not know
    return _int(pd.Timedelta(freq if freq[:1].isdigit() else "1" + freq).total_seconds())


def _int(x):
    return int(x) if x == int(x) else x


class SymDelta:
    def __init__(self, sec):
        self.sec = sec

    def total_seconds(self):
        return self.sec

    @property
    def days(self):
        return C.s_floor(self.sec / DAY)

    @property
    def seconds(self):  # datetime.timedelta: whole seconds within the day
        return C.s_floor(C.s_mod(self.sec, DAY))

    @property
    def microseconds(self):
        return C.s_floor(C.s_mod(self.sec, 1) * 1000000)

    def __add__(self, o):
        if isinstance(o, SymTime):
            return o + self
        s = _secs(o)
        return NotImplemented if s is None else SymDelta(self.sec + s)

    __radd__ = __add__

    def __sub__(self, o):
        s = _secs(o)
        return NotImplemented if s is None else SymDelta(self.sec - s)

    def __rsub__(self, o):
        s = _secs(o)
        return NotImplemented if s is None else SymDelta(s - self.sec)

    def __neg__(self):
        return SymDelta(-self.sec)

    def __abs__(self):
        return SymDelta(C.s_abs(self.sec))

    def __mul__(self, o):
        return SymDelta(self.sec * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        s = _secs(o)
        return self.sec / s if s is not None else SymDelta(self.sec / o)

    def __rtruediv__(self, o):
        return _secs(o) / self.sec

    def __floordiv__(self, o):
        s = _secs(o)
        return C.s_floor(self.sec / s) if s is not None else SymDelta(C.s_floor(self.sec / o))

    def __mod__(self, o):
        s = _secs(o)
        return SymDelta(C.s_mod(self.sec, s))

    def _c(self, o, f):
        s = _secs(o)
        return NotImplemented if s is None else f(self.sec, s)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b)

    __hash__ = None

    def __bool__(self):
        return bool(self.sec != 0)


class SymOrdinal:
    def __init__(self, sec):
        self.sec = sec


class Field(SV):
    """a part of a date: a number, and a text that stays recognisable"""

    __slots__ = ("of", "directive")

    def __format__(self, spec):
        width = "04d" if self.directive == "Y" else "02d"
        if spec in (width, width[:-1]):
            return self.of.strftime("%" + self.directive)
        if spec in ("", "d"):
            return self.of.strftime("%Y" if self.directive == "Y" else "%-" + self.directive)
        return SV.__format__(self, spec)

    def __str__(self):
        return format(self, "")

    __repr__ = __str__


class IntField(int):
    """the same for an instant that is known"""

    def __format__(self, spec):
        width = "04d" if self.directive == "Y" else "02d"
        if spec in (width, width[:-1], "", "d"):
            return Field.__format__(self, spec)
        return int.__format__(self, spec)

    def __str__(self):
        return format(self, "")

    __repr__ = __str__


def field(v, t, directive):
    if not isinstance(v, SV):
        r = IntField(v)
        r.of, r.directive = t, directive
        return r
    r = Field(v.e, v.nan, v.pinf, v.ninf)
    r.of, r.directive = t, directive
    return r


_LENGTHS = {365: (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31), 366: (31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)}


def civil(t):
    """year, month, day"""
    d, fd, mod = C.s_floordiv(t.sec, DAY), C.s_floordiv, C.s_mod
    k = _cls[t.calendar]
    if k is cftime.Datetime360Day:
        return 2000 + fd(d, 360), fd(mod(d, 360), 30) + 1, mod(d, 30) + 1
    if k in (cftime.DatetimeNoLeap, cftime.DatetimeAllLeap):
        n = 365 if k is cftime.DatetimeNoLeap else 366
        doy, first, month, start = mod(d, n), 0, 1, 0
        for m, l in enumerate(_LENGTHS[n][:-1], 2):
            first += l
            c = doy >= first
            month, start = C.s_ite(c, m, month), C.s_ite(c, first, start)
        return 2000 + fd(d, n), month, doy - start + 1
    if k is cftime.DatetimeJulian:
        raise EngineError("parts of dates in the Julian calendar")
    z = d + 730425  # days after 0000-03-01
    era, doe = fd(z, 146097), mod(z, 146097)
    yoe = fd(doe - fd(doe, 1460) + fd(doe, 36524) - fd(doe, 146096), 365)
    doy = doe - (365 * yoe + fd(yoe, 4) - fd(yoe, 100))
    mp = fd(5 * doy + 2, 153)
    month = C.s_ite(mp < 10, mp + 3, mp - 9)
    return C.s_ite(month <= 2, yoe + era * 400 + 1, yoe + era * 400), month, doy - fd(153 * mp + 2, 5) + 1


_TWO = re.compile(r"⟪(\d+)\|[^⟫]*⟫([^⟪⟫%]*)⟪(\d+)\|[^⟫]*⟫")


def norm(text):
    """texts made of parts of one instant become one text of that instant"""
    pos = 0
    while True:
        m = _TWO.search(text, pos)
        if m is None:
            return text
        (s0, f0, c0), (s1, f1, c1) = TOK[int(m.group(1))], TOK[int(m.group(3))]
        e0, e1 = (s.e if isinstance(s, SV) else s for s in (s0, s1))
        if c0 == c1 and (e0.eq(e1) if hasattr(e0, "eq") and hasattr(e1, "eq") else e0 is e1 or not hasattr(e0, "eq") and e0 == e1):
            text = text[:m.start()] + SymTime(s0, c0).strftime(f0 + m.group(2) + f1) + text[m.end():]
        else:
            pos = text.index("⟫", m.start()) + 1


class SymTime:
    has_year_zero = False
    datetime_compatible = False
    tzinfo = None

    def __init__(self, sec, calendar="standard"):
        self.sec = sec
        self.calendar = calendar

    def _of(self, o):
        if isinstance(o, SymTime):
            return o.sec
        if isinstance(o, cftime.datetime):
            return (o - base(o.calendar)).total_seconds()
        return None

    def __add__(self, o):
        s = _secs(o)
        return NotImplemented if s is None else SymTime(self.sec + s, self.calendar)

    __radd__ = __add__

    def __sub__(self, o):
        s = _secs(o)
        if s is not None:
            return SymTime(self.sec - s, self.calendar)
        t = self._of(o)
        return NotImplemented if t is None else SymDelta(self.sec - t)

    def __rsub__(self, o):
        t = self._of(o)
        return NotImplemented if t is None else SymDelta(t - self.sec)

    def _c(self, o, f):
        t = self._of(o)
        if t is None:
            return NotImplemented
        return f(self.sec, t)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b)

    def __hash__(self):
        return 4242  # equality decides

    def strftime(self, fmt="%Y-%m-%d %H:%M:%S"):
        fmt = fmt.replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S").replace("%R", "%H:%M")
        e = self.sec.e if isinstance(self.sec, SV) else self.sec
        key = (e.get_id() if hasattr(e, "get_id") else ("c", e), fmt, self.calendar)
        n = _TOKID.get(key)
        if n is None:
            _ALIVE.append(e)  # ids of expressions that are gone are used again
            n = _TOKID[key] = len(TOK)
            TOK[n] = (self.sec, fmt, self.calendar)
        return f"⟪{n}|{fmt}⟫"

    def isoformat(self, sep="T", timespec="auto"):
        if timespec == "minutes":
            return self.strftime(f"%Y-%m-%d{sep}%H:%M")
        return self.strftime(f"%Y-%m-%d{sep}%H:%M:%S")

    def __str__(self):
        return self.isoformat(" ")

    __repr__ = __str__

    def __format__(self, spec):
        return self.strftime(spec) if spec else str(self)

    def toordinal(self, fractional=False):
        return SymOrdinal(self.sec if fractional else floor_to(self.sec, DAY))

    def _field(self, unit, n, d):
        return field(C.s_mod(C.s_floordiv(self.sec, unit), n), self, d)

    @property
    def hour(self):
        return self._field(3600, 24, "H")

    @property
    def minute(self):
        return self._field(60, 60, "M")

    @property
    def second(self):
        return self._field(1, 60, "S")

    @property
    def year(self):
        return field(civil(self)[0], self, "Y")

    @property
    def month(self):
        return field(civil(self)[1], self, "m")

    @property
    def day(self):
        return field(civil(self)[2], self, "d")

    @property
    def microsecond(self):
        f = self.sec - C.s_floor(self.sec)
        return f * 1000000

    def replace(self, **kw):
        """only the time of day can change"""
        s = self.sec
        units = {"hour": (self.hour, 3600), "minute": (self.minute, 60), "second": (self.second, 1),
                 "microsecond": (self.microsecond, 1e-6)}
        for k, v in kw.items():
            if k not in units:
                raise EngineError("replace " + k)
            s = s + (v - units[k][0]) * units[k][1]
        return SymTime(s, self.calendar)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def dated(t):
    """the same instant as an instance of the calendar's own class (for type checks)"""
    k = _cls[t.calendar]
    if k not in _dated:
        def init(self, sec, calendar):
            self.sec = sec

        class D(SymTime, k):
            __init__ = init

            def __new__(cls, sec, calendar):
                return k.__new__(cls, 2000, 1, 1)
            calendar = t.calendar
        _dated[k] = D
    return _dated[k](t.sec, t.calendar)


_dated: dict = {}


def floor_to(sec, step):
    return C.s_floordiv(sec, step) * step


def has_sym_time(x):
    if isinstance(x, (SymTime, SymDelta, SV)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym_time(i) for i in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(has_sym_time(i) for i in x.flat)
    return False


def parse_token(text):
    """the instant a text made by strftime stands for, at the resolution of the text"""
    m = TOKRE.search(norm(text))
    if m is None:
        return None
    sec, fmt, cal = TOK[int(m.group(1))]
    # read by position: year, month, day, hour, minute, second
    m = re.fullmatch(r"%Y-%m-%d[T ]%([HIMS])(?::%([HIMS])(?::%([HIMS]))?)?", fmt)
    if m is not None and "".join(filter(None, m.groups())) not in ("H", "HM", "HMS"):
        have = parts(sec, fmt, cal)
        t = have["day"] * DAY
        for d, unit in zip(m.groups(), (3600, 60, 1)):
            t = t + have[d] * unit if d else t
        return SymTime(t, cal)
    return SymTime(_truncate(sec, fmt), cal)


def _truncate(sec, fmt):
    ds = re.findall(r"%-?([a-zA-Z])", fmt)
    if "f" in ds:
        return sec
    need = {"Y", "m", "d"} - set(ds)
    if need and "j" not in ds:
        raise EngineError("a date text without " + str(need))
    res, last = DAY, True
    for d, r in (("H", 3600), ("M", 60), ("S", 1)):
        if d in ds and not last:
            raise EngineError("a date text with gaps: " + fmt)
        last = d in ds
        if last:
            res = r
    return floor_to(sec, res)


def parts(sec, fmt, calendar):
    """numbers that agree exactly when the texts of two instants in this form do"""
    ds = set(re.findall(r"%-?([a-zA-Z])", fmt)) - {"%"}
    t, out = SymTime(sec, calendar), {}
    if {"Y", "m", "d"} <= ds or {"Y", "j"} <= ds:
        out["day"] = C.s_floordiv(sec, DAY)
        ds -= set("YymdjaAbBwuU")
    mod, div = C.s_mod, C.s_floordiv
    for d in sorted(ds):
        if d in "Ymd":
            out[d] = civil(t)["Ymd".index(d)]
        elif d == "y":
            out[d] = mod(civil(t)[0], 100)
        elif d in "bB":
            out["m"] = civil(t)[1]
        elif d == "H":
            out[d] = mod(div(sec, 3600), 24)
        elif d == "I":
            out[d] = mod(div(sec, 3600), 12)
        elif d == "p":
            out[d] = mod(div(sec, 43200), 2)
        elif d == "M":
            out[d] = mod(div(sec, 60), 60)
        elif d == "S":
            out[d] = mod(div(sec, 1), 60)
        elif d == "f":
            out[d] = div(mod(sec, 1) * 1000000, 1)
        else:
            raise EngineError("a date text with %" + d)
    return out


def same_text(a, b):
    """do two date tokens (numbers in TOK) show the same text? (may fork)"""
    (sa, fa, ca), (sb, fb, cb) = TOK[a], TOK[b]
    if a == b:
        return True
    if ca != cb or fa != fb:  # another form of date is another text
        return False
    pa, pb = parts(sa, fa, ca), parts(sb, fb, cb)
    return all(bool(pa[k] == pb[k]) for k in pa)


def _strptime(text, fmt):
    m = TOKRE.fullmatch(norm(text))
    if m is None:
        raise EngineError("strptime of a mixed text")
    sec, f0, cal = TOK[int(m.group(1))]
    if f0 != fmt:
        # same directives, other separators: would not parse
        raise ValueError(f"time data {text!r} does not match format {fmt!r}")
    return SymTime(_truncate(sec, f0), cal)


class SymTimeIndex:
    def __init__(self, items):
        self.items = list(items)

    def _map(self, f):
        return SymTimeIndex([SymTime(f(t.sec), t.calendar) for t in self.items])

    def floor(self, freq):
        k = freq_seconds(freq)
        return self._map(lambda s: floor_to(s, k))

    def ceil(self, freq):
        k = freq_seconds(freq)
        return self._map(lambda s: 0 - floor_to(0 - s, k))

    def round(self, freq):
        k = freq_seconds(freq)
        return self._map(lambda s: C.s_rint(s / k) * k)

    def __getitem__(self, i):
        r = self.items[i]
        return SymTimeIndex(r) if isinstance(i, slice) else r

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __add__(self, o):
        return SymTimeIndex([t + o for t in self.items])

    def __sub__(self, o):
        return SymTimeIndex([t - o for t in self.items])

    @property
    def calendar(self):
        return self.items[0].calendar


# ---- stand-ins for the library names the repository uses --------------------

_units = {"days": DAY, "seconds": 1, "microseconds": 1e-6, "milliseconds": 1e-3, "minutes": 60, "hours": 3600,
          "weeks": 7 * DAY, "s": 1, "h": 3600, "min": 60, "m": 60, "D": DAY, "d": DAY, "second": 1, "S": 1,
          "hour": 3600, "minute": 60, "day": DAY, "H": 3600}


def _delta_class(real):
    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, (real, SymDelta))

        def __subclasscheck__(cls, c):
            return issubclass(c, real)

        def __getattr__(cls, name):
            return getattr(real, name)

    class Delta(metaclass=Meta):
        def __new__(cls, *args, **kw):
            if not (any(isinstance(a, (SV, SymDelta)) for a in args)
                    or any(isinstance(a, (SV, SymDelta)) for a in kw.values())):
                return real(*args, **kw)
            if args and isinstance(args[0], SymDelta):
                return args[0]
            tot = 0
            args = list(args)
            if real is pd.Timedelta:
                value = args.pop(0) if args else kw.pop("value", None)
                unit = args.pop(0) if args else kw.pop("unit", "ns")
                if value is not None:
                    if unit in ("ns", "nanoseconds"):
                        tot = tot + value / 1000000000
                    else:
                        tot = tot + value * _units[unit]
            else:
                for n, v in zip(("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"), args):
                    kw[n] = v
            for k, v in kw.items():
                tot = tot + v * _units[k]
            return SymDelta(tot)

    Delta.__name__ = real.__name__
    return Delta


class ModProxy(types.ModuleType):
    def __init__(self, mod, **over):
        super().__init__(mod.__name__)
        self.__dict__.update(over)
        self.__dict__["_mod"] = mod

    def __getattr__(self, name):
        return getattr(self.__dict__["_mod"], name)


def _datetime_class(real):
    class Meta(type):
        def __instancecheck__(cls, o):
            if isinstance(o, SymTime):
                return real is cftime.datetime or _cls.get(o.calendar) is real
            return isinstance(o, real)

        def __subclasscheck__(cls, c):
            return issubclass(c, real)

        def __getattr__(cls, name):
            return getattr(real, name)

    class Date(metaclass=Meta):
        def __new__(cls, *a, **k):
            return real(*a, **k)

        @staticmethod
        def strptime(text, fmt, *a, **k):
            if isinstance(text, str) and TOKRE.search(text):
                t = _strptime(text, fmt)
                cal = (a[0] if a else k.get("calendar")) or "standard"
                if _cls.get(cal) is not _cls[t.calendar]:
                    # read in another calendar: some instant of that calendar
                    e = C.to_real(C.lift(t.sec).e)
                    t = SymTime(SV(z3.Function("date_in_" + cal, z3.RealSort(), z3.IntSort())(e)), cal)
                return t
            return real.strptime(text, fmt, *a, **k)

        @staticmethod
        def fromordinal(o, *a, **k):
            if isinstance(o, SymOrdinal):
                cal = a[0] if a else k.get("calendar", "standard")
                return SymTime(o.sec, cal or "standard")
            return real.fromordinal(o, *a, **k)

    Date.__name__ = real.__name__
    return Date


TimedeltaP = _delta_class(pd.Timedelta)
PyTimedeltaP = _delta_class(_dt.timedelta)
_dates = {n: _datetime_class(getattr(cftime, n)) for n in dir(cftime)
          if n.startswith(("Datetime", "datetime")) and isinstance(getattr(cftime, n), type)}
pdP = ModProxy(pd, Timedelta=TimedeltaP)
dtP = ModProxy(_dt, timedelta=PyTimedeltaP)
cftimeP = ModProxy(cftime, **_dates)

_realIndex = xr.CFTimeIndex


class _IdxMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_realIndex, SymTimeIndex))

    def __subclasscheck__(cls, c):
        return issubclass(c, _realIndex)

    def __getattr__(cls, name):
        return getattr(_realIndex, name)


class CFTimeIndexP(metaclass=_IdxMeta):
    def __new__(cls, data, *a, **k):
        if has_sym_time(list(data)):
            return SymTimeIndex(data)
        return _realIndex(data, *a, **k)


def substitutions():
    """(real object, stand-in) by identity"""
    out = [(pd, pdP), (_dt, dtP), (cftime, cftimeP), (pd.Timedelta, TimedeltaP),
           (_dt.timedelta, PyTimedeltaP), (_realIndex, CFTimeIndexP)]
    out += [(getattr(cftime, n), p) for n, p in _dates.items()]
    return out


def install_in(modules):
    subs = {id(a): b for a, b in substitutions()}
    for m in modules:
        for n, v in list(vars(m).items()):
            if id(v) in subs and not n.startswith("__"):
                setattr(m, n, subs[id(v)])
    if xr.CFTimeIndex is _realIndex:
        xr.CFTimeIndex = CFTimeIndexP
