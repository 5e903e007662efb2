# -*- coding: utf-8 -*-
"""Contracts of the datetime/time modules (assumed): naive local time is an integer number of microseconds."""
import datetime as _dt
import time as _time
import re

import z3

from .engine import eng, Unsupported
from .values import (Sym, SymInt, SymReal, SymBool, mkint, mkreal, mkbool, iterm, rterm, not_, fresh_int, truth,
                     trunc_int, PList, fresh_real, floor_t)
from . import strings
from .strings import SymStr, Num, mk, parts_of

D = 86400 * 1000000
EPOCH = _dt.date(1970, 1, 1).toordinal()

_year = z3.Function("year", z3.IntSort(), z3.IntSort())
_month = z3.Function("month", z3.IntSort(), z3.IntSort())
_mday = z3.Function("mday", z3.IntSort(), z3.IntSort())
_ord = z3.Function("ymd2ord", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def utc_off():
    """offset of local time in seconds: one unknown constant"""
    e = eng()
    if "utcoff" not in e.ghost:
        e.assumed.add("the local UTC offset is constant (no daylight-saving switch while a task runs)")
        e.ghost["utcoff"] = fresh_int("utc_offset", -86400, 86400, inp=False)
    return e.ghost["utcoff"]


def conc(*vs):
    return all(isinstance(v, (int, float)) and not isinstance(v, Sym) for v in vs)


# ------------------------------------------------------------------------------------------------ timedelta
class SymTD(Sym):
    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us

    def __add__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return mktd(self.us + td_us(o))
        if isinstance(o, (SymDT, _dt.datetime)):
            return mkdt(dt_us(o) + self.us)
        if isinstance(o, (SymDate, _dt.date)):
            return mkdate(date_ord(o) + self.us // D)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return mktd(self.us - td_us(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.timedelta):
            return mktd(td_us(o) - self.us)
        if isinstance(o, _dt.datetime):
            return mkdt(dt_us(o) - self.us)
        if isinstance(o, _dt.date):
            return mkdate(date_ord(o) - self.us // D)
        return NotImplemented

    def __neg__(self):
        return mktd(0 - self.us)

    def __mul__(self, k):
        if isinstance(k, (int, SymInt)):
            return mktd(self.us * k)
        if isinstance(k, (float, SymReal)):
            return mktd(trunc_int(self.us * k))
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return self.us / td_us(o)
        return mktd(trunc_int(self.us / o))

    def __floordiv__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return self.us // td_us(o)
        return mktd(self.us // o)

    def _c(self, o, f):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return f(self.us, td_us(o))
        return NotImplemented

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __bool__(self):
        return truth(self.us != 0)

    @property
    def days(self):
        return self.us // D

    @property
    def seconds(self):
        return (self.us % D) // 1000000

    @property
    def microseconds(self):
        return self.us % 1000000

    def total_seconds(self):
        return self.us / 1000000 if isinstance(self.us, Sym) else self.us / 1e6

    def __repr__(self):
        return "SymTD(%s)" % (self.us,)


def mktd(us):
    if conc(us):
        return _dt.timedelta(microseconds=us)
    return SymTD(us)


def td_us(v):
    if isinstance(v, SymTD):
        return v.us
    return (v.days * 86400 + v.seconds) * 1000000 + v.microseconds


# ------------------------------------------------------------------------------------------------ date
class SymDate(Sym):
    __slots__ = ("ord",)

    def __init__(self, o):
        self.ord = o

    def __add__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return mkdate(self.ord + td_us(o) // D)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            u = td_us(o)
            days = u // D if conc(u) or isinstance(u, SymInt) else u
            return mkdate(self.ord - days)
        if isinstance(o, (SymDate, _dt.date)):
            return mktd((self.ord - date_ord(o)) * D)
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.date):
            return mktd((date_ord(o) - self.ord) * D)
        return NotImplemented

    def _c(self, o, f):
        if isinstance(o, (SymDT, _dt.datetime)):
            return NotImplemented
        if isinstance(o, (SymDate, _dt.date)):
            return f(self.ord, date_ord(o))
        return NotImplemented

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    @property
    def year(self):
        return _ymd(self.ord)[0]

    @property
    def month(self):
        return _ymd(self.ord)[1]

    @property
    def day(self):
        return _ymd(self.ord)[2]

    def toordinal(self):
        return self.ord

    def strftime(self, f):
        return strftime(f, self.ord, 0)

    def isoformat(self):
        return strftime("%Y-%m-%d", self.ord, 0)

    def weekday(self):
        return (self.ord + 6) % 7

    def __repr__(self):
        return "SymDate(%s)" % (self.ord,)


def mkdate(o):
    if conc(o):
        return _dt.date.fromordinal(o)
    return SymDate(o)


def date_ord(v):
    if isinstance(v, SymDate):
        return v.ord
    if isinstance(v, (SymDT,)):
        return v.day_ord()
    return v.toordinal()


def _ymd(o):
    if conc(o):
        d = _dt.date.fromordinal(o)
        return d.year, d.month, d.day
    t = iterm(o)
    e = eng()
    tab = e.ghost.setdefault("ymd", {})
    k = t.get_id()
    if k not in tab:
        y, m, d = _year(t), _month(t), _mday(t)
        e.add_fact(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= 31, _ord(y, m, d) == t))
        tab[k] = (t, mkint(y), mkint(m), mkint(d))
    return tab[k][1:]


# ------------------------------------------------------------------------------------------------ time
class SymTime(Sym):
    __slots__ = ("us", "hms")

    def __init__(self, us, hms=None):
        self.us = us
        self.hms = hms

    def _f(self):
        if self.hms is None:
            u = self.us
            self.hms = (u // 3600000000, (u // 60000000) % 60, (u // 1000000) % 60, u % 1000000)
            # the fields of a time give this time again
            eng().ghost.setdefault("hms", {})[_hms_key(self.hms)] = (self.hms, u)
        return self.hms

    @property
    def hour(self):
        return self._f()[0]

    @property
    def minute(self):
        return self._f()[1]

    @property
    def second(self):
        return self._f()[2]

    @property
    def microsecond(self):
        return self._f()[3]

    tzinfo = None

    def _c(self, o, f):
        if isinstance(o, (SymTime, _dt.time)):
            return f(self.us, time_us(o))
        return NotImplemented

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def replace(self, hour=None, minute=None, second=None, microsecond=None):
        h, m, s, u = self._f()
        return mktime(h if hour is None else hour, m if minute is None else minute,
                      s if second is None else second, u if microsecond is None else microsecond)

    def strftime(self, f):
        return strftime(f, None, self)

    def isoformat(self):
        if truth(self.microsecond == 0):
            return strftime("%H:%M:%S", None, self)
        return strftime("%H:%M:%S.%f", None, self)

    def __bool__(self):
        return True

    def __repr__(self):
        return "SymTime(%s)" % (self.us,)


def _hms_key(hms):
    return tuple(iterm(v).get_id() for v in hms)


def mktime(h=0, m=0, s=0, u=0):
    if conc(h, m, s, u):
        return _dt.time(h, m, s, u)
    known = eng().ghost.get("hms", {}).get(_hms_key((h, m, s, u)))
    if known is not None:
        return SymTime(known[1], known[0])
    ok = z3.And(iterm(h) >= 0, iterm(h) < 24, iterm(m) >= 0, iterm(m) < 60, iterm(s) >= 0, iterm(s) < 60,
                iterm(u) >= 0, iterm(u) < 1000000)
    if not eng().branch(ok):
        raise ValueError("time field out of range")
    return SymTime(((h * 60 + m) * 60 + s) * 1000000 + u, (h, m, s, u))


def time_us(v):
    if isinstance(v, SymTime):
        return v.us
    return ((v.hour * 60 + v.minute) * 60 + v.second) * 1000000 + v.microsecond


# ------------------------------------------------------------------------------------------------ datetime
class SymDT(Sym):
    """us: microseconds since 1970-01-01 local; ord/tod cached split"""
    __slots__ = ("us", "_ord", "_tod", "_time", "whole")

    def __init__(self, us, o=None, tod=None, tim=None):
        self.us = us
        self._ord = o
        self._tod = tod
        self._time = tim

    def day_ord(self):
        if self._ord is None:
            self._ord = self.us // D + EPOCH
        return self._ord

    def tod(self):
        if self._tod is None:
            self._tod = self.us % D
        return self._tod

    def time(self):
        if self._time is None:
            t = self.tod()
            self._time = SymTime(t) if not conc(t) else _us_time(t)
        return self._time

    def date(self):
        return mkdate(self.day_ord())

    @property
    def hour(self):
        return self.time().hour

    @property
    def minute(self):
        return self.time().minute

    @property
    def second(self):
        return self.time().second

    @property
    def microsecond(self):
        return self.time().microsecond

    @property
    def year(self):
        return _ymd(self.day_ord())[0]

    @property
    def month(self):
        return _ymd(self.day_ord())[1]

    @property
    def day(self):
        return _ymd(self.day_ord())[2]

    tzinfo = None

    def __add__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return mkdt(self.us + td_us(o))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return mkdt(self.us - td_us(o))
        if isinstance(o, (SymDT, _dt.datetime)):
            return mktd(self.us - dt_us(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return mktd(dt_us(o) - self.us)
        return NotImplemented

    def _c(self, o, f):
        if isinstance(o, (SymDT, _dt.datetime)):
            return f(self.us, dt_us(o))
        return NotImplemented

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __bool__(self):
        return True

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None):
        if year is not None or month is not None or day is not None:
            y, m, d = _ymd(self.day_ord())
            return DATETIME(y if year is None else year, m if month is None else month, d if day is None else day,
                            self.hour if hour is None else hour, self.minute if minute is None else minute,
                            self.second if second is None else second,
                            self.microsecond if microsecond is None else microsecond)
        if hour is None and minute is None and second is None and microsecond is not None and \
                conc(microsecond) and microsecond == 0:
            # cheap form: drop the sub-second part
            r = SymDT(self.us - self.us % 1000000)
            r.whole = True
            return r
        t = self.time()
        if microsecond is None and getattr(self, "whole", False):
            microsecond = 0         # it is already
        t2 = mktime(t.hour if hour is None else hour, t.minute if minute is None else minute,
                    t.second if second is None else second, t.microsecond if microsecond is None else microsecond)
        return combine(self.date(), t2)

    def timestamp(self):
        return mkreal(rterm(self.us - utc_off() * 1000000) / 1000000)

    def strftime(self, f):
        return strftime(f, self.day_ord(), self.time())

    def isoformat(self, sep="T"):
        return strftime("%Y-%m-%d" + sep + "%H:%M:%S.%f", self.day_ord(), self.time())

    def weekday(self):
        return (self.day_ord() + 6) % 7

    def timetuple(self):
        raise Unsupported("timetuple")

    def __repr__(self):
        return "SymDT(%s)" % (self.us,)


def _us_time(t):
    return _dt.time(t // 3600000000, (t // 60000000) % 60, (t // 1000000) % 60, t % 1000000)


def mkdt(us):
    if conc(us):
        return _dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=us)
    return SymDT(us)


def dt_us(v):
    if isinstance(v, SymDT):
        return v.us
    return (v.toordinal() - EPOCH) * D + ((v.hour * 60 + v.minute) * 60 + v.second) * 1000000 + v.microsecond


def combine(d, t):
    if not isinstance(d, (SymDate, _dt.date, SymDT)) or not isinstance(t, (SymTime, _dt.time)):
        raise TypeError("combine() argument types")
    o, u = date_ord(d), time_us(t)
    us = (o - EPOCH) * D + u
    if conc(us):
        return mkdt(us)
    return SymDT(us, o, u, t)


# ------------------------------------------------------------------------------------------------ text
def strftime(f, o, t):
    if isinstance(f, SymStr):
        raise Unsupported("symbolic strftime format")
    out = []
    k = 0
    if t == 0 and not isinstance(t, Sym):
        t = _dt.time(0)
    while k < len(f):
        c = f[k]
        if c != "%":
            out.append(c)
            k += 1
            continue
        d = f[k + 1]
        k += 2
        if d == "H":
            out.append(Num(t.hour, 2))
        elif d == "M":
            out.append(Num(t.minute, 2))
        elif d == "S":
            out.append(Num(t.second, 2))
        elif d == "f":
            out.append(Num(t.microsecond, 6))
        elif d in "Ymd" and o is not None:
            y, m, dd = _ymd(o)
            out.append(Num(y, 4) if d == "Y" else Num(m, 2) if d == "m" else Num(dd, 2))
        elif d == "T":
            out.extend([Num(t.hour, 2), ":", Num(t.minute, 2), ":", Num(t.second, 2)])
        elif d == "%":
            out.append("%")
        else:
            raise Unsupported("strftime directive %" + d)
    return mk(out)


def strptime(s, f):
    """datetime.strptime"""
    if isinstance(s, str) and isinstance(f, str):
        return _dt.datetime.strptime(s, f)
    if not isinstance(s, SymStr):
        raise TypeError("strptime() argument 1 must be str")
    parts = list(s.parts)
    fields = {}
    k = 0

    def take_lit(c):
        if not parts or not isinstance(parts[0], str) or not parts[0].startswith(c):
            if parts and not isinstance(parts[0], str) and not strings.excludes(parts[0], c):
                raise Unsupported("strptime of unknown text")
            raise ValueError("time data does not match format")
        parts[0] = parts[0][len(c):]
        if not parts[0]:
            parts.pop(0)

    while k < len(f):
        c = f[k]
        if c != "%":
            take_lit(c)
            k += 1
            continue
        d = f[k + 1]
        k += 2
        w = {"Y": 4, "m": 2, "d": 2, "H": 2, "M": 2, "S": 2, "f": 6}.get(d)
        if w is None:
            raise Unsupported("strptime directive %" + d)
        if not parts:
            raise ValueError("time data does not match format")
        p = parts[0]
        if isinstance(p, Num) and (p.width == w or (d == "f" and p.width and p.width < 6)):
            fields[d] = p.n * 10 ** (w - p.width)
            parts.pop(0)
        elif isinstance(p, Num) and p.width > w:
            n = p.width
            fields[d] = mkint(iterm(p.n) / 10 ** (n - w))
            parts[0] = Num(mkint(iterm(p.n) % 10 ** (n - w)), n - w)
        elif isinstance(p, str):
            m = re.match(r"\d{%d}" % w, p)
            if not m:
                raise Unsupported("strptime of mixed text")
            fields[d] = int(m.group(0))
            parts[0] = p[w:]
            if not parts[0]:
                parts.pop(0)
        else:
            if isinstance(p, strings.Atom) and p.cls == "notnum":
                raise ValueError("time data does not match format")
            raise Unsupported("strptime of unknown text %r with %s" % (s, f))
    if parts:
        raise ValueError("unconverted data remains")
    return DATETIME(fields.get("Y", 1900), fields.get("m", 1), fields.get("d", 1), fields.get("H", 0),
                    fields.get("M", 0), fields.get("S", 0), fields.get("f", 0))


class TypeStub(object):
    """stands for a class of the standard library"""

    def __init__(self, name, natives, syms, make=None, attrs=None):
        self.name = name
        self.natives = natives
        self.syms = syms
        self.make = make
        self.__dict__.update(attrs or {})

    def __call__(self, *a, **k):
        if self.make is None:
            raise Unsupported("constructor of " + self.name)
        return self.make(*a, **k)

    def __repr__(self):
        return "<class %s>" % self.name

    @property
    def __name__(self):
        return self.name


def DATETIME(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0):
    if conc(year, month, day, hour, minute, second, microsecond):
        return _dt.datetime(year, month, day, hour, minute, second, microsecond)
    if conc(year, month, day):
        o = _dt.date(year, month, day).toordinal()
    else:
        o = _ord_of(year, month, day)
    return combine(mkdate(o), mktime(hour, minute, second, microsecond))


def _ord_of(y, m, d):
    t = _ord(iterm(y), iterm(m), iterm(d))
    e = eng()
    # only dates that came from a real date are built symbolically
    for k, (o, yy, mm, dd) in e.ghost.get("ymd", {}).items():
        if iterm(yy).eq(iterm(y)) and iterm(mm).eq(iterm(m)) and iterm(dd).eq(iterm(d)):
            return mkint(o)
    e.assumed.add("date text in broker files denotes a valid calendar day")
    tt = mkint(t)
    _ymd(tt)
    e.add_fact(z3.And(_year(t) == iterm(y), _month(t) == iterm(m), _mday(t) == iterm(d)))
    return tt


# ------------------------------------------------------------------------------------------------ clock
class Clock(object):
    """the wall clock: microseconds since 1970-01-01 UTC"""

    def __init__(self):
        self.last = None
        self.n = 0
        self.base = None

    def read(self):
        e = eng()
        e.assumed.add("the wall clock never runs backwards between two readings of one operation")
        v = fresh_int("clock", inp=True)
        if self.last is not None:
            e.add_fact(v.t >= iterm(self.last))
        else:
            e.add_fact(v.t >= 946684800 * 1000000)
        e.add_fact(v.t <= 4102444800 * 1000000)
        self.set_last(v)
        return v

    def set_last(self, v):
        old = self.last

        def undo():
            self.last = old

        def redo():
            self.last = v
        eng().write((id(self), "clock"), self, undo, redo)


def clock():
    e = eng()
    c = e.ghost.get("clock")
    if c is None:
        c = e.ghost["clock"] = Clock()
        e.keep.append(c)
    return c


class FrozenClock(Clock):
    """the moment at which an operation takes place, which is short enough to give one reading"""

    def read(self):
        if self.base is None:
            self.base = Clock.read(self)
        return self.base


def freeze():
    e = eng()
    c = e.ghost["clock"] = FrozenClock()
    e.keep.append(c)
    c.read()
    e.assumed.add("the wall clock gives one reading throughout a single call")
    return c


def now():
    return mkdt(clock().read() + utc_off() * 1000000)


def fromtimestamp(ts):
    if conc(ts):
        ts = mkreal(rterm(ts))
    us = rterm(ts) * 1000000
    # round to nearest microsecond; exact for the multiples of a microsecond that occur
    t = floor_t(us + z3.RealVal("1/2"))
    return mkdt(mkint(t) + utc_off() * 1000000)


def make_module():
    from .lib import StubModule

    def timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        if conc(days, seconds, microseconds, milliseconds, minutes, hours, weeks):
            return _dt.timedelta(days=days, seconds=seconds, microseconds=microseconds, milliseconds=milliseconds,
                                 minutes=minutes, hours=hours, weeks=weeks)
        tot = 0
        for v, f in ((days, D), (seconds, 1000000), (microseconds, 1), (milliseconds, 1000), (minutes, 60000000),
                     (hours, 3600000000), (weeks, 7 * D)):
            if conc(v):
                if v:
                    tot = tot + int(v * f) if float(v * f).is_integer() else tot + round(v * f)
            elif isinstance(v, SymReal):
                tot = tot + mkint(floor_t(v.t * f + z3.RealVal("1/2")))
            elif isinstance(v, (SymInt, SymBool)):
                tot = tot + v * f
            else:
                raise TypeError("unsupported type for timedelta component")
        return mktd(tot)

    dts = TypeStub("datetime.datetime", (_dt.datetime,), (SymDT,), DATETIME)
    dts.now = lambda tz=None: now()
    dts.today = lambda: now()
    dts.combine = combine
    dts.strptime = strptime
    dts.fromtimestamp = lambda ts, tz=None: fromtimestamp(ts)
    dts.min = _dt.datetime.min
    dts.max = _dt.datetime.max
    dates = TypeStub("datetime.date", (_dt.date,), (SymDate, SymDT),
                     lambda y, m, d: mkdate(_ord_of(y, m, d)) if not conc(y, m, d) else _dt.date(y, m, d))
    dates.today = lambda: now().date()
    dates.fromordinal = mkdate
    times = TypeStub("datetime.time", (_dt.time,), (SymTime,),
                     lambda hour=0, minute=0, second=0, microsecond=0, tzinfo=None: mktime(hour, minute, second,
                                                                                           microsecond))
    times.min = _dt.time.min
    times.max = _dt.time.max
    tds = TypeStub("datetime.timedelta", (_dt.timedelta,), (SymTD,), timedelta)
    return StubModule("datetime", datetime=dts, date=dates, time=times, timedelta=tds)


def make_time_module():
    from .lib import StubModule

    def time():
        return mkreal(rterm(clock().read()) / 1000000)

    def sleep(s):
        e = eng()
        tr = e.ghost.get("on_sleep")
        if tr:
            tr(s)

    return StubModule("time", time=time, sleep=sleep, monotonic=time, perf_counter=time)
