"""datetime module over possibly symbolic integers (installed as sys.modules['datetime'] in the symbolic process).

Same algorithms as CPython's datetime (Lib/_pydatetime.py) on a microsecond count; calendar fields are computed lazily, and
fields that all come from one datetime are recognised when another datetime is built from them.
tools/selftest.py compares it with the real module.
"""
import datetime as _real  # the real module: this file is imported before the substitution
import collections
import re
import sys

from symx import core as C
from symx.core import SymInt, plain, icmp, idivmod, imul_c, bounds, table, form_z

MINYEAR, MAXYEAR = 1, 9999
US_S = 10 ** 6
US_M = 60 * US_S
US_H = 60 * US_M
DAY = 24 * US_H
_MAXORD = _real.date.max.toordinal()
CLOCK_START = [_real.datetime(2021, 6, 1, 12, 0, 0)]
CLOCK = list(CLOCK_START)


def _sym(x):
    return isinstance(x, SymInt) and type(plain(x)) is SymInt


def mstart(mi):
    """ordinal of the day before the first day of month index mi = 12*year + month-1"""
    y, m = divmod(mi, 12)
    if y > MAXYEAR:
        return _MAXORD
    return _real.date(y, m + 1, 1).toordinal() - 1


def mdays(mi):
    return mstart(mi + 1) - mstart(mi)


IsoDate = collections.namedtuple("IsoDate", "year week weekday")


class Field(SymInt):
    """A calendar field computed on demand."""
    __slots__ = ("part", "kind", "v")

    def __init__(self, part, kind):
        self.part = part
        self.kind = kind
        self.v = None

    def force(self):
        v = self.v
        if v is None:
            v = self.v = self.part.field(self.kind)
        return v

    @property
    def t(self):
        return self.force().t

    @property
    def c(self):
        return self.force().c

    def _shift(self, k):
        return self.force() + k

    def __lt__(self, o):
        if type(o) is MonthDays and self.kind == "day" and o.part is self.part:
            return True  # day <= days of its own month: min() picks the day either way
        return SymInt.__lt__(self, o)

    def __le__(self, o):
        if type(o) is MonthDays and self.kind == "day" and o.part is self.part:
            return True
        return SymInt.__le__(self, o)

    def __bool__(self):
        if self.kind in ("year", "month", "day"):
            return True
        return SymInt.__bool__(self)

    __hash__ = SymInt.__hash__
    __eq__ = SymInt.__eq__


class MonthDays(SymInt):
    """Number of days in the month of a date part (lazy)."""
    __slots__ = ("part", "v")

    def __init__(self, part):
        self.part = part
        self.v = None

    def force(self):
        if self.v is None:
            mi, _ = self.part.md()
            self.v = table(mi, mdays, "mdays")
        return self.v

    @property
    def t(self):
        return self.force().t

    @property
    def c(self):
        return self.force().c

    def _shift(self, k):
        return self.force() + k

    def __gt__(self, o):
        if type(o) is Field and o.kind == "day" and o.part is self.part:
            return True
        return SymInt.__gt__(self, o)

    def __ge__(self, o):
        if type(o) is Field and o.kind == "day" and o.part is self.part:
            return True
        return SymInt.__ge__(self, o)

    __hash__ = SymInt.__hash__


class DPart:
    __slots__ = ("ord", "mi", "d", "src")

    def __init__(self, ord=None, mi=None, d=None, src=None):
        self.ord, self.mi, self.d, self.src = ord, mi, d, src

    def o(self):
        if self.ord is None:
            if self.src is not None:
                self.src.split()
            else:
                self.ord = plain(table(self.mi, mstart, "mstart") + self.d)
        return self.ord

    def md(self):
        if self.mi is None:
            o = plain(self.o())
            if type(o) is not SymInt:
                dt = _real.date.fromordinal(o)
                self.mi, self.d = dt.year * 12 + dt.month - 1, dt.day
            else:
                key = ("md", o.t, o.c)
                r = C.E.memo.get(key)
                if r is None:
                    lo, hi = bounds(o)
                    a, b = _real.date.fromordinal(max(1, lo)), _real.date.fromordinal(min(hi, _MAXORD))
                    ma, mb = a.year * 12 + a.month - 1, b.year * 12 + b.month - 1
                    mi = C.E.fresh(ma, mb, None)
                    s, n = table(mi, mstart, "mstart"), table(mi, mdays, "mdays")
                    d = C.E.fresh(1, 31, None)
                    C.E.assert_(form_z(d) == form_z(o) - form_z(s))
                    C.E.assert_(form_z(d) <= form_z(n))
                    r = C.E.memo[key] = (mi, d)
                self.mi, self.d = r
        return self.mi, self.d

    def field(self, kind):
        mi, d = self.md()
        if kind == "day":
            return plain(d)
        y, m = idivmod(mi, 12)
        return y if kind == "year" else plain(m + 1)

    def get(self, kind):
        if self.concrete():
            return self.field(kind)
        return Field(self, kind)

    def concrete(self):
        if self.ord is not None:
            return type(self.ord) is int
        if self.src is not None:
            return type(self.src.total) is int
        return type(self.mi) is int and type(self.d) is int


class TPart:
    __slots__ = ("tod", "f", "src")

    def __init__(self, tod=None, f=None, src=None):
        self.tod, self.f, self.src = tod, f, src

    def us(self):
        if self.tod is None:
            if self.src is not None:
                self.src.split()
            else:
                h, m, s, u = self.f
                self.tod = plain(imul_c(h, US_H) + imul_c(m, US_M) + imul_c(s, US_S) + u)
        return self.tod

    def fields(self):
        if self.f is None:
            t = self.us()
            h, t = idivmod(t, US_H)
            m, t = idivmod(t, US_M)
            s, u = idivmod(t, US_S)
            self.f = (h, m, s, u)
        return self.f

    def field(self, kind):
        return plain(self.fields()[_TK[kind]])

    def get(self, kind):
        if self.concrete():
            return self.field(kind)
        return Field(self, kind)

    def concrete(self):
        if self.tod is not None:
            return type(self.tod) is int
        if self.src is not None:
            return type(self.src.total) is int
        return all(type(x) is int for x in self.f)


_TK = {"hour": 0, "minute": 1, "second": 2, "microsecond": 3}


class Cell:
    """Naive local date and time."""
    __slots__ = ("_total", "dp", "tp")

    def __init__(self, total=None, dp=None, tp=None):
        self._total = total
        self.dp = dp if dp is not None else DPart(src=self)
        self.tp = tp if tp is not None else TPart(src=self)

    @property
    def total(self):
        if self._total is None:
            self._total = plain(imul_c(self.dp.o(), DAY) + self.tp.us())
        return self._total

    def split(self):
        o, t = idivmod(self._total, DAY)
        self.dp.ord, self.tp.tod = o, t
        self.dp.src = self.tp.src = None

    def concrete(self):
        if self._total is not None:
            return type(self._total) is int
        return self.dp.concrete() and self.tp.concrete()


def _check_range(x, lo, hi, msg):
    x = plain(x)
    if type(x) is not SymInt:
        if not isinstance(x, int):
            raise TypeError("an integer is required (got type %s)" % type(x).__name__)
        if not lo <= x <= hi:
            raise ValueError(msg)
        return int(x)
    if not (icmp(x, lo, ">=") and icmp(x, hi, "<=")):
        raise ValueError(msg)
    return x


def _dpart(y, m, d):
    if type(y) is Field and type(m) is Field and type(d) is Field and y.kind == "year" and m.kind == "month" and d.kind == "day" \
            and y.part is m.part is d.part:
        return y.part
    y = _check_range(y, MINYEAR, MAXYEAR, "year is out of range")
    m = _check_range(m, 1, 12, "month must be in 1..12")
    d = plain(d)
    mi = plain(imul_c(y, 12) + m - 1)
    if type(mi) is int and type(d) is int:
        return DPart(ord=_real.date(y, m, d).toordinal(), mi=mi, d=d)
    if not isinstance(d, int):
        raise TypeError("an integer is required")
    lo, hi = bounds(d)
    if lo < 1 and not icmp(d, 1, ">="):
        raise ValueError("day is out of range for month")
    if hi > 28:
        if not icmp(d, table(mi, mdays, "mdays"), "<="):
            raise ValueError("day is out of range for month")
    return DPart(mi=mi, d=d)


def _tpart(h, m, s, u):
    if type(h) is Field and type(m) is Field and type(s) is Field and type(u) is Field and h.kind == "hour" and m.kind == "minute" \
            and s.kind == "second" and u.kind == "microsecond" and h.part is m.part is s.part is u.part:
        return h.part
    f = (_check_range(h, 0, 23, "hour must be in 0..23"), _check_range(m, 0, 59, "minute must be in 0..59"),
         _check_range(s, 0, 59, "second must be in 0..59"), _check_range(u, 0, 999999, "microsecond must be in 0..999999"))
    return TPart(f=f)


def _check_total(t):
    """OverflowError outside years 1..9999."""
    lo, hi = bounds(t)
    a, b = DAY, (_MAXORD + 1) * DAY - 1
    if lo < a or hi > b:
        if not (icmp(t, a, ">=") and icmp(t, b, "<=")):
            raise OverflowError("date value out of range")
    return t


class timedelta:
    __slots__ = ("us",)

    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        us = 0
        for v, k in ((days, DAY), (seconds, US_S), (microseconds, 1), (milliseconds, 1000), (minutes, US_M), (hours, US_H),
                     (weeks, 7 * DAY)):
            if isinstance(v, SymInt):
                us = us + imul_c(plain(v), k)
            elif type(v) is C.SymFloat:
                raise C.Unsupported("timedelta of a symbolic float")
            elif isinstance(v, float):
                us = us + round(v * k) if v != int(v) else us + int(v) * k
            elif isinstance(v, int):
                if v:
                    us = us + int(v) * k
            else:
                raise TypeError("unsupported type for timedelta component: %s" % type(v).__name__)
        return cls._of(us)

    @classmethod
    def _of(cls, us):
        self = object.__new__(cls)
        self.us = plain(us)
        return self

    @property
    def days(self):
        return idivmod(self.us, DAY)[0]

    @property
    def seconds(self):
        return idivmod(idivmod(self.us, DAY)[1], US_S)[0]

    @property
    def microseconds(self):
        return idivmod(self.us, US_S)[1]

    def total_seconds(self):
        if type(self.us) is int:
            return self.us / 10 ** 6
        return C.SymFloat.cents(self.us, 10 ** 4)

    def __add__(self, o):
        if isinstance(o, timedelta):
            return timedelta._of(self.us + o.us)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return timedelta._of(self.us - o.us)
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, timedelta):
            return timedelta._of(o.us - self.us)
        return NotImplemented

    def __neg__(self):
        return timedelta._of(-self.us)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self.us < 0 else self

    def __mul__(self, o):
        if isinstance(o, int):
            return timedelta._of(C.imul(plain(self.us), plain(o)) if isinstance(o, SymInt) else imul_c(self.us, o))
        if isinstance(o, float) and type(self.us) is int and type(o) is float:
            return timedelta._of(round(self.us * o))
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, timedelta):
            return idivmod(self.us, o.us)[0]
        if isinstance(o, int):
            return timedelta._of(idivmod(self.us, o)[0])
        return NotImplemented

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            if type(self.us) is int and type(o.us) is int:
                return self.us / o.us
            return C.SymFloat.of(self.us) / C.SymFloat.of(o.us)
        if type(o) in (int, float) and type(self.us) is int:
            return timedelta._of(round(self.us / o))
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, timedelta):
            return timedelta._of(idivmod(self.us, o.us)[1])
        return NotImplemented

    def __divmod__(self, o):
        if isinstance(o, timedelta):
            q, r = idivmod(self.us, o.us)
            return q, timedelta._of(r)
        return NotImplemented

    def _c(self, o, op):
        if not isinstance(o, timedelta):
            return NotImplemented
        return icmp(self.us, o.us, op)

    def __eq__(self, o):
        return self._c(o, "==")

    def __ne__(self, o):
        return self._c(o, "!=")

    def __lt__(self, o):
        return self._c(o, "<")

    def __le__(self, o):
        return self._c(o, "<=")

    def __gt__(self, o):
        return self._c(o, ">")

    def __ge__(self, o):
        return self._c(o, ">=")

    def __hash__(self):
        return 11

    def __bool__(self):
        return icmp(self.us, 0, "!=")

    def real(self):
        return _real.timedelta(microseconds=C.concretise(self.us))

    def __repr__(self):
        return "timedelta(%s us)" % (self.us,)

    def __str__(self):
        return str(self.real()) if type(self.us) is int else C.E.token(self.us)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


timedelta.min = timedelta._of(-999999999 * DAY)
timedelta.max = timedelta._of(1000000000 * DAY - 1)
timedelta.resolution = timedelta._of(1)


class tzinfo:
    def tzname(self, dt):
        raise NotImplementedError("tzinfo subclass must override tzname()")

    def utcoffset(self, dt):
        raise NotImplementedError("tzinfo subclass must override utcoffset()")

    def dst(self, dt):
        raise NotImplementedError("tzinfo subclass must override dst()")

    def fromutc(self, dt):
        if not isinstance(dt, datetime):
            raise TypeError("fromutc() requires a datetime argument")
        if dt.tzinfo is not self:
            raise ValueError("dt.tzinfo is not self")
        dtoff = dt.utcoffset()
        if dtoff is None:
            raise ValueError("fromutc() requires a non-None utcoffset() result")
        dtdst = dt.dst()
        if dtdst is None:
            raise ValueError("fromutc() requires a non-None dst() result")
        delta = dtoff - dtdst
        if delta:
            dt = dt + delta
            dtdst = dt.dst()
        return dt + dtdst

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class timezone(tzinfo):
    utc = None

    def __init__(self, offset, name=None):
        self._offset = offset
        self._name = name

    def __eq__(self, o):
        return isinstance(o, timezone) and self._offset == o._offset

    def __hash__(self):
        return 13

    def utcoffset(self, dt):
        return self._offset

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return self._name or "UTC"

    def fromutc(self, dt):
        return dt + self._offset


timezone.utc = UTC = timezone(timedelta(0), "UTC")


class date:
    __slots__ = ("_dp",)

    def __new__(cls, year, month=None, day=None):
        self = object.__new__(cls)
        self._dp = _dpart(year, month, day)
        return self

    @classmethod
    def _ofpart(cls, dp):
        self = object.__new__(cls)
        self._dp = dp
        return self

    @classmethod
    def fromordinal(cls, n):
        n = plain(n)
        return date._ofpart(DPart(ord=n))

    @classmethod
    def today(cls):
        r = CLOCK[0]
        return date(r.year, r.month, r.day)

    @classmethod
    def fromtimestamp(cls, t):
        return datetime.fromtimestamp(t).date()

    @classmethod
    def fromisoformat(cls, s):
        r = _real.date.fromisoformat(s)
        return date(r.year, r.month, r.day)

    @property
    def year(self):
        return self._dp.get("year")

    @property
    def month(self):
        return self._dp.get("month")

    @property
    def day(self):
        return self._dp.get("day")

    def toordinal(self):
        return self._dp.o()

    def weekday(self):
        return idivmod(self._dp.o() + 6, 7)[1]

    def isoweekday(self):
        return self.weekday() + 1

    def isocalendar(self):
        if self._dp.concrete():
            return self._rd().isocalendar()
        o = self._dp.o()
        iso = lambda i: (lambda j: lambda v: _real.date.fromordinal(v).isocalendar()[j])(i)
        return IsoDate(table(o, iso(0), "isoyear"), table(o, iso(1), "isoweek"), self.isoweekday())

    def replace(self, year=None, month=None, day=None):
        return type(self)(self.year if year is None else year, self.month if month is None else month,
                          self.day if day is None else day)

    def timetuple(self):
        return _tuple(self, 0, 0, 0, -1)

    def _rd(self):
        return _real.date.fromordinal(self._dp.o())

    def strftime(self, fmt):
        return self._one().strftime(fmt)

    def isoformat(self):
        return self._one().isoformat()

    def _one(self):
        """The real date of this path: one path per day."""
        return self._rd() if self._dp.concrete() else _real.date.fromordinal(C.concretise(self._dp.o(), limit=400))

    __str__ = isoformat

    def __repr__(self):
        return "date(%s)" % self.isoformat()

    def __format__(self, spec):
        return self.strftime(spec) if spec else str(self)

    def __add__(self, o):
        if isinstance(o, timedelta):
            return date.fromordinal(self._dp.o() + o.days)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return date.fromordinal(self._dp.o() + (-o).days)
        if isinstance(o, date):
            return timedelta(days=self._dp.o() - o._dp.o())
        return NotImplemented

    def _c(self, o, op):
        if isinstance(o, datetime) or not isinstance(o, date):
            return NotImplemented
        return icmp(self._dp.o(), o._dp.o(), op)

    def __eq__(self, o):
        return self._c(o, "==")

    def __ne__(self, o):
        return self._c(o, "!=")

    def __lt__(self, o):
        return self._c(o, "<")

    def __le__(self, o):
        return self._c(o, "<=")

    def __gt__(self, o):
        return self._c(o, ">")

    def __ge__(self, o):
        return self._c(o, ">=")

    def __hash__(self):
        return 7

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class struct_tuple(tuple):
    tm_year = property(lambda s: s[0])
    tm_mon = property(lambda s: s[1])
    tm_mday = property(lambda s: s[2])
    tm_hour = property(lambda s: s[3])
    tm_min = property(lambda s: s[4])
    tm_sec = property(lambda s: s[5])
    tm_wday = property(lambda s: s[6])
    tm_yday = property(lambda s: s[7])
    tm_isdst = property(lambda s: s[8])


def _tuple(d, h, m, s, dst):
    o = d._dp.o() if not isinstance(d, datetime) else d._cell.dp.o()
    y = d.year
    yday = plain(o - table(plain(y), lambda v: _real.date(v, 1, 1).toordinal() - 1, "ystart"))
    return struct_tuple((y, d.month, d.day, h, m, s, idivmod(o + 6, 7)[1], yday, dst))


class time:
    __slots__ = ("_tp", "tzinfo", "fold")

    def __new__(cls, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        self = object.__new__(cls)
        self._tp = _tpart(hour, minute, second, microsecond)
        self.tzinfo = tzinfo
        self.fold = fold
        return self

    @classmethod
    def _ofpart(cls, tp, tzinfo=None, fold=0):
        self = object.__new__(cls)
        self._tp, self.tzinfo, self.fold = tp, tzinfo, fold
        return self

    @classmethod
    def fromisoformat(cls, s):
        r = _real.time.fromisoformat(s)
        return time(r.hour, r.minute, r.second, r.microsecond)

    hour = property(lambda s: s._tp.get("hour"))
    minute = property(lambda s: s._tp.get("minute"))
    second = property(lambda s: s._tp.get("second"))
    microsecond = property(lambda s: s._tp.get("microsecond"))

    def replace(self, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *, fold=None):
        return time(self.hour if hour is None else hour, self.minute if minute is None else minute,
                    self.second if second is None else second, self.microsecond if microsecond is None else microsecond,
                    self.tzinfo if tzinfo is True else tzinfo, fold=self.fold if fold is None else fold)

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(None)

    def _rt(self):
        h, m, s, u = self._tp.fields()
        return _real.time(h, m, s, u)

    def strftime(self, fmt):
        return self._rt().strftime(fmt) if self._tp.concrete() else C.E.token(self._tp.us())

    def isoformat(self, timespec="auto"):
        return self._rt().isoformat(timespec) if self._tp.concrete() else C.E.token(self._tp.us())

    __str__ = isoformat

    def __repr__(self):
        return "time(%s)" % self.isoformat()

    def __format__(self, spec):
        return self.strftime(spec) if spec else str(self)

    def _c(self, o, op):
        if not isinstance(o, time):
            return NotImplemented
        if self.tzinfo is not o.tzinfo:
            a, b = self.utcoffset(), o.utcoffset()
            if a is None and b is None:
                pass
            elif a is None or b is None:
                if op in ("==", "!="):
                    return op == "!="
                raise TypeError("cannot compare naive and aware times")
            else:
                return icmp(self._tp.us() - a.us, o._tp.us() - b.us, op)
        return icmp(self._tp.us(), o._tp.us(), op)

    def __eq__(self, o):
        return self._c(o, "==")

    def __ne__(self, o):
        return self._c(o, "!=")

    def __lt__(self, o):
        return self._c(o, "<")

    def __le__(self, o):
        return self._c(o, "<=")

    def __gt__(self, o):
        return self._c(o, ">")

    def __ge__(self, o):
        return self._c(o, ">=")

    def __hash__(self):
        return 5

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


time.min, time.max, time.resolution = time(0, 0), time(23, 59, 59, 999999), timedelta._of(1)


class datetime(date):
    __slots__ = ("_cell", "tzinfo", "fold")

    def __new__(cls, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        dp = _dpart(year, month, day)
        tp = _tpart(hour, minute, second, microsecond)
        if tzinfo is not None and not isinstance(tzinfo, _tzinfo_cls):
            raise TypeError("tzinfo argument must be None or of a tzinfo subclass")
        cell = None
        if type(year) is Field and type(hour) is Field:
            # keep the cell (and its total) when both halves come from it
            cell = _cells.get((id(dp), id(tp)))
            if cell is not None and (cell.dp is not dp or cell.tp is not tp):
                cell = None
        if cell is None:
            cell = Cell(dp=dp, tp=tp)
        return cls._of(cell, tzinfo, fold)

    @classmethod
    def _of(cls, cell, tzinfo, fold=0):
        self = object.__new__(cls)
        self._cell = cell
        self.tzinfo = tzinfo
        self.fold = fold
        if not cell.concrete():
            _cells[(id(cell.dp), id(cell.tp))] = cell
        return self

    @property
    def _dp(self):
        return self._cell.dp

    year = property(lambda s: s._cell.dp.get("year"))
    month = property(lambda s: s._cell.dp.get("month"))
    day = property(lambda s: s._cell.dp.get("day"))
    hour = property(lambda s: s._cell.tp.get("hour"))
    minute = property(lambda s: s._cell.tp.get("minute"))
    second = property(lambda s: s._cell.tp.get("second"))
    microsecond = property(lambda s: s._cell.tp.get("microsecond"))

    # ---- constructors
    @classmethod
    def fromtimestamp(cls, t, tz=None):
        d = cls.utcfromtimestamp(t)
        if tz is None:
            return d
        return tz.fromutc(d.replace(tzinfo=tz))

    @classmethod
    def utcfromtimestamp(cls, t):
        if type(t) is C.SymFloat or isinstance(t, SymInt):
            raise C.Unsupported("fromtimestamp of a symbolic value")
        return cls._real(_real.datetime.fromtimestamp(t, _real.timezone.utc).replace(tzinfo=None))

    @classmethod
    def now(cls, tz=None):
        d = cls._real(CLOCK[0])
        if tz is None:
            return d
        return tz.fromutc(d.replace(tzinfo=tz))

    @classmethod
    def utcnow(cls):
        return cls._real(CLOCK[0])

    today = utcnow

    @classmethod
    def _real(cls, r):
        return cls(r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond)

    @classmethod
    def strptime(cls, s, fmt):
        r = _real.datetime.strptime(s, fmt)
        d = cls._real(r)
        if r.tzinfo is not None:
            d = d.replace(tzinfo=timezone(timedelta(seconds=r.utcoffset().total_seconds())))
        return d

    @classmethod
    def fromisoformat(cls, s):
        r = _real.datetime.fromisoformat(s)
        d = cls._real(r)
        if r.tzinfo is not None:
            d = d.replace(tzinfo=timezone(timedelta(seconds=r.utcoffset().total_seconds())))
        return d

    @classmethod
    def combine(cls, d, t, tzinfo=True):
        return cls._of(Cell(dp=d._dp, tp=t._tp), t.tzinfo if tzinfo is True else tzinfo, t.fold)

    @classmethod
    def fromordinal(cls, n):
        return cls._of(Cell(dp=DPart(ord=plain(n)), tp=TPart(tod=0)), None)

    # ---- parts
    def date(self):
        return date._ofpart(self._cell.dp)

    def time(self):
        return time._ofpart(self._cell.tp, None, self.fold)

    def timetz(self):
        return time._ofpart(self._cell.tp, self.tzinfo, self.fold)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *,
                fold=None):
        tz = self.tzinfo if tzinfo is True else tzinfo
        f = self.fold if fold is None else fold
        if all(x is None for x in (year, month, day, hour, minute, second, microsecond)):
            return type(self)._of(self._cell, tz, f)
        return type(self)(self.year if year is None else year, self.month if month is None else month,
                          self.day if day is None else day, self.hour if hour is None else hour,
                          self.minute if minute is None else minute, self.second if second is None else second,
                          self.microsecond if microsecond is None else microsecond, tz, fold=f)

    # ---- timezone
    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(self)

    def dst(self):
        return None if self.tzinfo is None else self.tzinfo.dst(self)

    def tzname(self):
        return None if self.tzinfo is None else self.tzinfo.tzname(self)

    def astimezone(self, tz=None):
        if tz is None:
            tz = UTC
        mytz = self.tzinfo
        if mytz is None:
            off = timedelta(0)
        else:
            if tz is mytz:
                return self
            off = self.utcoffset()
            if off is None:
                off = timedelta(0)
        utc = (self - off).replace(tzinfo=tz)
        return tz.fromutc(utc)

    def timestamp(self):
        return (self - datetime(1970, 1, 1, tzinfo=UTC if self.tzinfo is not None else None)).total_seconds()

    def timetuple(self):
        d = self.dst()
        return _tuple(self, self.hour, self.minute, self.second, -1 if d is None else (1 if d else 0))

    def utctimetuple(self):
        off = self.utcoffset()
        d = self - off if off else self
        return _tuple(d, d.hour, d.minute, d.second, 0)

    # ---- text
    def _rdt(self):
        c = self._cell
        h, m, s, u = c.tp.fields()
        return _real.datetime.combine(_real.date.fromordinal(c.dp.o()), _real.time(h, m, s, u))

    def strftime(self, fmt):
        if self._cell.concrete():
            return self._rdt().strftime(fmt)
        kinds = set(re.findall("%[-_]?(.)", fmt)) - {"%"}
        if kinds and kinds <= set("YymdjaAbBuwUWVG"):
            return date.fromordinal(self._dp.o())._one().strftime(fmt)
        if kinds and kinds <= set("YymdjaAbBuwUWVGHIp"):
            d = date.fromordinal(self._dp.o())._one()
            return _real.datetime(d.year, d.month, d.day, C.concretise(self.hour)).strftime(fmt)
        return C.E.token(self._cell.total)

    def isoformat(self, sep="T", timespec="auto"):
        off = self.utcoffset() if self.tzinfo is not None else None
        if self._cell.concrete() and (off is None or type(off.us) is int):
            r = self._rdt()
            if off is not None:
                r = r.replace(tzinfo=_real.timezone(_real.timedelta(microseconds=off.us)))
            return r.isoformat(sep, timespec)
        return C.E.token(self._cell.total)

    def __str__(self):
        return self.isoformat(" ")

    def __repr__(self):
        return "datetime(%s)" % self.isoformat()

    def ctime(self):
        return self._rdt().ctime()

    # ---- arithmetic
    def __add__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        if type(o.us) is int and o.us == 0:
            return type(self)._of(self._cell, self.tzinfo, 0)
        t = _check_total(plain(self._cell.total + o.us))
        return type(self)._of(Cell(total=t), self.tzinfo, 0)

    __radd__ = __add__

    def __sub__(self, o):
        if not isinstance(o, datetime):
            if isinstance(o, timedelta):
                return self + -o
            return NotImplemented
        base = timedelta._of(self._cell.total - o._cell.total)
        if self.tzinfo is o.tzinfo:
            return base
        a, b = self.utcoffset(), o.utcoffset()
        if a is None and b is None:
            return base
        if a is None or b is None:
            raise TypeError("cannot mix naive and timezone-aware time")
        return base + b - a

    def _c(self, o, op):
        if not isinstance(o, datetime):
            if not isinstance(o, date):
                return NotImplemented
            if op in ("==", "!="):
                return op == "!="
            raise TypeError("can't compare datetime.datetime to datetime.date")
        x, y = self._cell.total, o._cell.total
        if self.tzinfo is not o.tzinfo:
            a, b = self.utcoffset(), o.utcoffset()
            if op in ("==", "!="):
                if a != self.replace(fold=1 - self.fold).utcoffset() or b != o.replace(fold=1 - o.fold).utcoffset():
                    return op == "!="
            if a is None and b is None:
                pass
            elif a is None or b is None:
                if op in ("==", "!="):
                    return op == "!="
                raise TypeError("can't compare offset-naive and offset-aware datetimes")
            else:
                x, y = x - a.us, y - b.us
        return icmp(plain(x), plain(y), op)

    def __eq__(self, o):
        return self._c(o, "==")

    def __ne__(self, o):
        return self._c(o, "!=")

    def __hash__(self):
        return 3


_cells = {}
_tzinfo_cls = tzinfo
datetime.min = datetime(1, 1, 1)
datetime.max = datetime(9999, 12, 31, 23, 59, 59, 999999)
datetime.resolution = timedelta._of(1)
date.min, date.max, date.resolution = date(1, 1, 1), date(9999, 12, 31), timedelta(days=1)
sys_modules_name = "datetime"
