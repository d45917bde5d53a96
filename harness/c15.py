"""C15 Timeframe boundaries contain the date, are aligned and tile time."""
from symx.h import H
from harness.common import *

DIV60 = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]
DIV12 = [1, 2, 3, 4, 6, 12]
UNIT_US = {"SECOND": 10 ** 6, "MINUTE": 60 * 10 ** 6, "HOUR": HOUR_US}


def ptz(name):
    return utc() if name == "UTC" else zone(name)


def bounds(ctx, unit, q, lo, hi, tz="UTC", also=None):
    """units up to the week: exact arithmetic on the wall clock"""
    import arrow
    L = ctx.lib()
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q)
    d = ctx.dt("d", lo, hi, ptz(tz))
    s = fs.get_frame_start(arrow.get(d))
    e = fs.get_frame_end(s)
    w, us, ue = ctx.us(d), ctx.us(s), ctx.us(e)
    if unit in UNIT_US:
        k = UNIT_US[unit] * q
        exp = w - ctx.mod(w, k)
    elif unit == "DAY" and q == 1:
        k = DAY_US
        exp = w - ctx.mod(w, k)
    else:
        k = 7 * DAY_US
        exp = w - ctx.mod(w - DAY_US, k)
    ctx.check("aligned start", ctx.eq(us, exp))
    ctx.check("length", ctx.eq(ue - us, k))
    ctx.check("contains the date", ctx.And(ctx.le(us, w), ctx.lt(w, ue)))
    if tz in SAVING:
        # the wall clock of the zone, of which no boundary is skipped or repeated here
        for label, x, u in (("start", s, us), ("end", e, ue)):
            ctx.check("a local %s" % label, ctx.eq(local_us(ctx, ctx.instant(x), tz), u))
    else:
        ctx.check("the timezone is kept", ctx.And(ctx.eq(ctx.instant(s) - us, ctx.instant(d) - w), ctx.eq(ctx.instant(e) - ue, ctx.instant(d) - w)))
    ctx.check("the start of a start is itself", ctx.eq(ctx.us(fs.get_frame_start(s)), us))
    ctx.check("the end starts the next timeframe", ctx.eq(ctx.us(fs.get_frame_start(e)), ue))
    if also:
        # the same instant in another timezone
        o = arrow.get(d).to(also)
        exp = ctx.us(o)
        exp = exp - ctx.mod(exp - (DAY_US if k == 7 * DAY_US else 0), k)
        ctx.check("the start follows the timezone of the date", ctx.eq(ctx.us(fs.get_frame_start(o)), exp))
        ctx.check("asking again changes nothing", ctx.eq(ctx.us(fs.get_frame_start(arrow.get(d))), us))
    d2 = ctx.dt("d2", lo, hi, ptz(tz))
    w2 = ctx.us(d2)
    ctx.assume(ctx.And(ctx.le(us, w2), ctx.lt(w2, ue)))
    ctx.check("same start for every date of the timeframe", ctx.eq(ctx.us(fs.get_frame_start(arrow.get(d2))), us))
    ctx.cover("done")
    ctx.observe("s", us)


def calendar(ctx, unit, q, y0, y1):
    """months and years"""
    import arrow
    import datetime
    L = ctx.lib()
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q)

    def date(n):
        y, m, d = ctx.ymd(n, y0, y1)
        h, mi = ctx.int(n + ".h", 0, 23), ctx.int(n + ".mi", 0, 59)
        sec, us = ctx.int(n + ".s", 0, 59), ctx.int(n + ".us", 0, 999999)
        return y, m, datetime.datetime(y, m, d, h, mi, sec, us, tzinfo=utc())
    y, m, d = date("d")
    s = fs.get_frame_start(arrow.get(d))
    e = fs.get_frame_end(s)
    if unit == "MONTH":
        i = ctx.N(y) * 12 + m - 1
        i = i - ctx.mod(i, q)
        j = i + q
    else:
        i = (ctx.N(y) - ctx.mod(y, q)) * 12
        j = i + 12 * q
    for label, x, want in (("start", s, i), ("end", e, j)):
        ctx.check("aligned " + label, ctx.eq(ctx.N(x.year) * 12 + x.month - 1, want))
        ctx.check("smaller fields are zero", ctx.And(ctx.eq(x.day, 1), ctx.eq(x.hour, 0), ctx.eq(x.minute, 0), ctx.eq(x.second, 0),
                                                     ctx.eq(x.microsecond, 0)))
    us, ue, w = ctx.us(s), ctx.us(e), ctx.us(d)
    ctx.check("contains the date", ctx.And(ctx.le(us, w), ctx.lt(w, ue)))
    ctx.check("the start of a start is itself", ctx.eq(ctx.us(fs.get_frame_start(s)), us))
    ctx.check("the end starts the next timeframe", ctx.eq(ctx.us(fs.get_frame_start(e)), ue))
    y2, m2, d2 = date("b")
    w2 = ctx.us(d2)
    ctx.assume(ctx.And(ctx.le(us, w2), ctx.lt(w2, ue)))
    ctx.check("same start for every date of the timeframe", ctx.eq(ctx.us(fs.get_frame_start(arrow.get(d2))), us))
    ctx.cover("done")


SAVING = ("Europe/Paris", "Europe/London", "America/New_York")
_R = ((2019, 1, 1), (2022, 12, 31, 23, 59, 59, 999999))
_RT = ((1900, 1, 1), (2100, 12, 31, 23, 59, 59, 999999))
_UQ = [("SECOND", q) for q in DIV60] + [("MINUTE", q) for q in DIV60] + [("HOUR", q) for q in DIV12] + [("DAY", 1), ("DAY", 7), ("WEEK", 1)]
_CQ = [("MONTH", q) for q in DIV12]


def _b(uq, r, **k):
    return [dict(unit=u, q=q, lo=r[0], hi=r[1], **k) for u, q in uq]


_RS = ((2019, 1, 15), (2021, 12, 15))
_LOC = [("HOUR", 4), ("HOUR", 6), ("HOUR", 12), ("DAY", 1), ("DAY", 7), ("WEEK", 1)]
HARNESSES = [
    H(bounds, _b(_UQ, _R) + _b([("MINUTE", 15), ("HOUR", 4), ("DAY", 1)], _R, tz="Asia/Tokyo") + _b(_LOC, _RS, tz="Europe/Paris") + _b(_LOC, _RS, tz="America/New_York") + _b([("HOUR", 12), ("DAY", 1), ("DAY", 7), ("WEEK", 1)], _R, also="Asia/Tokyo") +
      _b([("HOUR", 12), ("DAY", 1), ("DAY", 7), ("WEEK", 1)], _RT),
      _b(_LOC, _RS, tz="Europe/London") + _b(_UQ, _RT) + _b(_UQ, _R, tz="Asia/Tokyo"), covers=["done"],
      bounds="every valid quantity of seconds, minutes, hours, days and weeks; any two microseconds of 2019-2022 (half days, days and weeks, thorough all: 1900-2100) in UTC and Tokyo time (the same instant in both for one object), and 4, 6 and 12 "
             "hours, days and weeks on the wall clocks of Paris and New York (thorough: London too) in 2019-2021"),
    H(calendar, [dict(unit=u, q=q, y0=2019, y1=2024) for u, q in _CQ] + [dict(unit="YEAR", q=q, y0=2015, y1=2024) for q in (1, 2, 3, 5, 7, 10)],
      [dict(unit=u, q=q, y0=y, y1=y + 14) for y in range(1895, 2105, 13) for u, q in _CQ] +
      [dict(unit="YEAR", q=q, y0=y, y1=y + 15 + q) for y in range(1895, 2105, 14) for q in range(1, 21)], covers=["done"],
      bounds="every valid quantity of months and 1, 2, 3, 5, 7, 10 (thorough 1-20) years; any two microseconds of 2019-2024 (years: 2015-2024; "
             "thorough 1895-2105, in overlapping parts)")]
