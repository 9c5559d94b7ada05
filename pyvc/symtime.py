"""Symbolic digits inside text, and datetime/time/calendar over symbolic fields.

* A number printed into a fixed-width field becomes one private-use character per
  digit; int()/float() of any slice of such text is the weighted sum of its digits.
* datetime: the proleptic Gregorian day count is the uninterpreted function
  DAYS(y, m, d) for symbolic dates (calendar.timegm for concrete ones).
* The time zone of the computer is the free symbolic constant LOCAL: anything
  computed through naive timestamps or mktime depends on it, so a proof that an
  epoch equals its specification also shows independence of the computer.
"""
import builtins as B
import calendar as _cal
import datetime as _dt
import time as _time
import types

from . import sym
from .sym import SymInt, SymReal, Unsupported, is_sym, iv, rv, z3

DAYS = z3.Function("days_from_civil", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
BASE = 0xE000
_DIG = []  # char index -> (SymInt digit)


_TEXT = {}  # term id -> text it was read from


def text_of(x, width):
    """the digits x was read from, if they were as many"""
    t = _TEXT.get(x.e.get_id())
    return t[0] if t is not None and len(t[0]) == width else None


def reset():
    del _DIG[:]
    _TEXT.clear()
    _WHOLE.clear()


def digits(ctx, v, width):
    """text of the non-negative symbolic int v, zero padded to width"""
    out, terms = "", []
    for k in range(width):
        d = ctx.fresh_int("dig")
        ctx._assume(z3.And(d.e >= 0, d.e <= 9))
        out += chr(BASE + len(_DIG))
        _DIG.append(d)
        terms.append(d.e * 10 ** (width - 1 - k))
    if len(_DIG) > 6000:
        raise Unsupported("too many symbolic digits")
    ctx._assume(iv(v) == z3.Sum(*terms) if len(terms) > 1 else iv(v) == terms[0])
    _WHOLE[out] = v
    _TEXT[iv(v).get_id()] = (out, iv(v))
    return out


_WHOLE = {}


def has(s):
    return any(BASE <= ord(c) < BASE + 6400 for c in s)


def _digit(c):
    o = ord(c) - BASE
    if 0 <= o < len(_DIG):
        return _DIG[o].e
    if c in "0123456789":
        return z3.IntVal(int(c))
    raise Unsupported("symbolic digit in unreadable text")


def to_int(s):
    s = s.strip()
    if s in _WHOLE:
        return _WHOLE[s]
    neg = s[:1] == "-"
    s = s.lstrip("+-")
    n = len(s)
    e = z3.Sum(*[_digit(c) * 10 ** (n - 1 - i) for i, c in enumerate(s)]) if n > 1 else _digit(s)
    r = SymInt(z3.simplify(e))
    _TEXT[r.e.get_id()] = (s, r.e)
    return -r if neg else r


def to_float(s):
    s = s.strip()
    neg = s[:1] == "-"
    s = s.lstrip("+-")
    a, _, b = s.partition(".")
    e = rv(to_int(a)) if has(a) else rv(int(a or "0"))
    if b:
        e = e + rv(to_int(b) if has(b) else int(b)) / 10 ** len(b)
    r = SymReal(z3.simplify(e))
    return -r if neg else r


# ------------------------------------------------------------------ datetime
def local():
    """seconds east of UTC of the computer the code runs on: anything"""
    c = sym._CTX[0]
    v = z3.Real("computer_timezone_s")
    c.inputs.setdefault("computer_timezone_s", v)
    return SymReal(v)


def days(y, m, d):
    if any(is_sym(x) for x in (y, m, d)):
        return SymInt(DAYS(iv(y), iv(m), iv(d)))
    return _cal.timegm((y, m, d, 0, 0, 0)) // 86400


def _active():
    return sym._CTX[0] is not None


class SymTD:
    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return self.s

    @staticmethod
    def of(x):
        if isinstance(x, SymTD):
            return x.s
        if isinstance(x, _dt.timedelta):
            return x.total_seconds()
        return None

    def __neg__(self):
        return SymTD(-self.s)

    def __add__(self, o):
        if isinstance(o, (_dt.datetime, SymDT)):
            return SymDT.lift(o).shift(self.s)
        b = SymTD.of(o)
        return NotImplemented if b is None else SymTD(self.s + b)

    __radd__ = __add__

    def __sub__(self, o):
        b = SymTD.of(o)
        return NotImplemented if b is None else SymTD(self.s - b)

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return SymDT.lift(o).shift(-self.s)
        b = SymTD.of(o)
        return NotImplemented if b is None else SymTD(b - self.s)

    def __mul__(self, k):
        return SymTD(self.s * k)

    __rmul__ = __mul__

    def __truediv__(self, k):
        b = SymTD.of(k)
        return self.s / b if b is not None else SymTD(self.s / k)


class SymTT:
    """time tuple"""

    def __init__(self, secs, comps):
        self.secs, self.comps = secs, comps

    def __getitem__(self, k):
        if self.comps is None:
            raise Unsupported("fields of a shifted symbolic time")
        return self.comps[k]


class SymDT:
    """clock = seconds since 1970 read off the clock face; off = seconds east of
    UTC of that clock (None: naive)"""

    def __init__(self, comps=None, clock=None, off=None):
        self.comps, self.off = comps, off
        if clock is None:
            y, m, d, h, mi, s, us = comps
            clock = days(y, m, d) * 86400 + h * 3600 + mi * 60 + s + us / 1000000
        self.clock = clock

    @staticmethod
    def lift(x):
        if isinstance(x, SymDT):
            return x
        off = None if x.tzinfo is None else x.utcoffset().total_seconds()
        return SymDT((x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond), off=off)

    def _field(i):
        def g(self):
            if self.comps is None:
                raise Unsupported("fields of a shifted symbolic time")
            return self.comps[i]

        return property(g)

    year, month, day, hour, minute, second, microsecond = map(_field, range(7))

    @property
    def tzinfo(self):
        return None if self.off is None else _dt.timezone(_dt.timedelta(seconds=self.off))

    def shift(self, s):
        return SymDT(None, self.clock + s, self.off)

    def __add__(self, o):
        b = SymTD.of(o)
        return NotImplemented if b is None else self.shift(b)

    __radd__ = __add__

    def __sub__(self, o):
        b = SymTD.of(o)
        if b is not None:
            return self.shift(-b)
        if isinstance(o, (SymDT, _dt.datetime)):
            o = SymDT.lift(o)
            if (o.off is None) != (self.off is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return SymTD((self.clock - (self.off or 0)) - (o.clock - (o.off or 0)))
        return NotImplemented

    def __rsub__(self, o):
        return SymDT.lift(o) - self

    def _cmp(self, o):
        o = SymDT.lift(o)
        return (self.clock - (self.off or 0)), (o.clock - (o.off or 0))

    def __lt__(self, o):
        a, b = self._cmp(o)
        return a < b

    def __le__(self, o):
        a, b = self._cmp(o)
        return a <= b

    def __gt__(self, o):
        a, b = self._cmp(o)
        return a > b

    def __ge__(self, o):
        a, b = self._cmp(o)
        return a >= b

    def timestamp(self):
        r = self.clock - (local() if self.off is None else self.off)
        return SymReal(rv(r))

    def replace(self, **k):
        tz = k.pop("tzinfo", "keep")
        off = self.off
        if tz is None:
            off = None
        elif tz != "keep":
            off = tz.utcoffset(None).total_seconds()
        if not k:
            return SymDT(self.comps, self.clock, off)
        names = ("year", "month", "day", "hour", "minute", "second", "microsecond")
        return SymDT(tuple(k.get(n, getattr(self, n)) for n in names), off=off)

    def astimezone(self, tz=None):
        if tz is None:
            raise Unsupported("astimezone to the computer's zone")
        off = tz.utcoffset(None).total_seconds()
        u = self.clock - (local() if self.off is None else self.off)
        return SymDT(None, u + off, off)

    def date(self):
        return self

    def time(self):
        return self

    def timetuple(self):
        if self.comps is None:
            raise Unsupported("timetuple of a shifted symbolic time")
        y, m, d, h, mi, s, us = self.comps
        return SymTT(days(y, m, d) * 86400 + h * 3600 + mi * 60 + s, self.comps[:6])

    def utctimetuple(self):
        if self.off not in (None, 0, 0.0):
            raise Unsupported("utctimetuple")
        return self.timetuple()

    def __getattr__(self, n):
        raise Unsupported("datetime.%s on symbolic time" % n)


class _M(type(_dt.datetime)):
    def __instancecheck__(cls, x):
        return isinstance(x, (_dt.datetime, SymDT))


class VDT(_dt.datetime, metaclass=_M):
    def __new__(cls, *a, **k):
        names = ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"]
        v = dict(hour=0, minute=0, second=0, microsecond=0, tzinfo=None)
        if not any(is_sym(x) for x in list(a) + list(k.values())):
            return _dt.datetime.__new__(cls, *a, **k)
        v.update(zip(names, a))
        v.update(k)
        for n, hi in (("hour", 23), ("minute", 59), ("second", 59), ("microsecond", 999999)):
            if is_sym(v[n]):
                if not isinstance(v[n], SymInt):
                    raise TypeError("integer argument expected, got float")
                if v[n] < 0 or v[n] > hi:
                    raise ValueError("%s must be in 0..%d" % (n, hi))
        tz = v.pop("tzinfo")
        return SymDT(tuple(v[n] for n in names[:7]), off=None if tz is None else tz.utcoffset(None).total_seconds())

    def timestamp(self):
        if self.tzinfo is None and _active():
            return SymReal(rv(_cal.timegm(self.timetuple())) + rv(self.microsecond) / 1000000 - local().e)
        return _dt.datetime.timestamp(self)

    @classmethod
    def strptime(cls, s, fmt):
        if not has(s):
            r = _dt.datetime.strptime(s, fmt)
            return cls(r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, r.tzinfo)
        f = dict(Y=1900, m=1, d=1, H=0, M=0, S=0, f=0)
        i, k = 0, 0
        while k < len(fmt):
            if fmt[k] == "%":
                c = fmt[k + 1]
                k += 2
                if c == "f":
                    j = i
                    while j < len(s) and j - i < 6 and (s[j].isdigit() or has(s[j])):
                        j += 1
                    txt = s[i:j].ljust(6, "0")
                elif c in "mdHMSy":
                    j = i + 2
                    txt = s[i:j]
                elif c == "Y":
                    j = i + 4
                    txt = s[i:j]
                else:
                    raise Unsupported("strptime %" + c)
                val = to_int(txt) if has(txt) else int(txt)
                if c == "y":
                    c, val = "Y", val + 2000
                f[c] = val
                i = j
            else:
                if s[i : i + 1] != fmt[k]:
                    raise ValueError("time data does not match format")
                i, k = i + 1, k + 1
        if i != len(s):
            raise ValueError("unconverted data remains")
        return cls(f["Y"], f["m"], f["d"], f["H"], f["M"], f["S"], f["f"])

    @classmethod
    def combine(cls, d, t, tzinfo=None):
        if isinstance(d, SymDT) or isinstance(t, SymDT):
            return SymDT((d.year, d.month, d.day, t.hour, t.minute, t.second, t.microsecond), off=None if tzinfo is None else tzinfo.utcoffset(None).total_seconds())
        r = _dt.datetime.combine(d, t)
        return cls(r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, tzinfo)


class VTD:
    def __new__(cls, *a, **k):
        if not any(is_sym(x) for x in list(a) + list(k.values())):
            return _dt.timedelta(*a, **k)
        n = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
        w = dict(days=86400, seconds=1, microseconds=1e-6, milliseconds=1e-3, minutes=60, hours=3600, weeks=604800)
        v = dict(zip(n, a))
        v.update(k)
        s = 0
        for q, x in v.items():
            s = x * w[q] + s
        return SymTD(s)


class DatetimeShim(types.ModuleType):
    def __init__(self):
        super().__init__("datetime")
        self.datetime, self.timedelta = VDT, VTD

    def __getattr__(self, n):
        return getattr(_dt, n)


class TimeShim(types.ModuleType):
    def __init__(self):
        super().__init__("time")

    def __getattr__(self, n):
        return getattr(_time, n)

    def mktime(self, t):
        if not _active():
            return _time.mktime(t)
        return SymReal(rv(timegm(t)) - local().e)

    def strptime(self, s, fmt="%a %b %d %H:%M:%S %Y"):
        return VDT.strptime(s, fmt).timetuple() if has(s) else _time.strptime(s, fmt)


def timegm(t):
    if isinstance(t, SymTT):
        return t.secs
    if any(is_sym(x) for x in t[:6]):
        y, m, d, h, mi, s = t[:6]
        return days(y, m, d) * 86400 + h * 3600 + mi * 60 + s
    return _cal.timegm(t)


class CalShim(types.ModuleType):
    def __init__(self):
        super().__init__("calendar")
        self.timegm = timegm

    def __getattr__(self, n):
        return getattr(_cal, n)


DATETIME, TIME, CAL = DatetimeShim(), TimeShim(), CalShim()
