"""C16 Timed frames tile the period covered by the ticks."""
from symx.h import H
from harness.common import *

UNIT_US = {"SECOND": 10 ** 6, "MINUTE": 60 * 10 ** 6, "HOUR": HOUR_US, "DAY": DAY_US, "WEEK": 7 * DAY_US}


def tiles(ctx, unit, q, lo, hi, ticks, m=100, tz="UTC", indicator=False, dst=None):
    L = ctx.lib()
    ep = epic(ctx, timezone=tz)
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
    if indicator:
        fs.add_indicator(L.CandleSet(ref="C"))
    ep.add_frame_set(fs)
    seen = []
    prev = None
    for n in range(ticks):
        dt = ctx.dt("t%d" % n, lo, hi, utc())
        inst = ctx.instant(dt)
        if prev is not None:
            ctx.assume(ctx.ge(inst, prev))
        prev = inst
        t = ctx.tick(dt, 10.0 + n, 10.0 + n)
        ep.on_new_tick(t)
        wall = local_us(ctx, inst, tz, *rng_us(lo, hi))
        seen.append((t, wall))
        fr = fs.frames
        ctx.check("frames are kept up to the limit", 1 <= len(fr) <= m)
        for i, f in enumerate(fr):
            s, e = ctx.us(f.period_start), ctx.us(f.period_end)
            if unit in UNIT_US:
                k = UNIT_US[unit] * q
                off = DAY_US if k % (7 * DAY_US) == 0 else 0
                ctx.check("a frame starts on a boundary", ctx.eq(ctx.mod(s - off, k), 0))
                ctx.check("a frame spans one timeframe", ctx.eq(e - s, k))
            else:
                ctx.check("a frame starts on a boundary", ctx.And(ctx.eq(f.period_start.day, 1), ctx.eq(ctx.mod(s, DAY_US), 0)))
                a, b = f.period_start, f.period_end
                months = (ctx.N(b.year) - b.year * 0 - a.year) * 12 + b.month - a.month
                ctx.check("a frame spans one timeframe", ctx.And(ctx.eq(months, q * (12 if unit == "YEAR" else 1)), ctx.eq(b.day, 1),
                                                                 ctx.eq(ctx.mod(e, DAY_US), 0)))
            if i:
                ctx.check("a frame starts where the previous one ends", ctx.eq(s, ctx.us(fr[i - 1].period_end)))
            inside = [t_ for t_, w in seen if ctx.fork(ctx.And(ctx.le(s, w), ctx.lt(w, e)))]
            if inside:
                ctx.check("every tick is recorded in the frame of its period",
                          f.first_tick is inside[0] and f.last_tick is inside[-1] and f.nb_ticks == len(inside)
                          and f.high_tick is inside[-1] and f.low_tick is inside[0])
            else:
                before = [t_ for t_, w in seen if ctx.fork(ctx.lt(w, s))]
                ctx.check("a period without ticks repeats the last tick before it",
                          bool(before) and all(x is before[-1] for x in (f.first_tick, f.high_tick, f.low_tick, f.last_tick)))
                ctx.cover("filler")
        s, e = ctx.us(fr[-1].period_start), ctx.us(fr[-1].period_end)
        ctx.check("the last frame contains the last tick", ctx.And(ctx.le(s, wall), ctx.lt(wall, e), fr[-1].last_tick is t))
        if len(fr) < m:
            ctx.check("the first frame kept contains the first tick", fr[0].first_tick is seen[0][0])
        if indicator:
            for f in fr:
                v = f["C"]
                ctx.check("an indicator value is attached to every frame", v is not None and v.first_tick is f.first_tick and v.last_tick is f.last_tick)
    ctx.observe("n", len(fs.frames))


def changes(ctx, unit, q, zn, lo, hi, ticks, gap):
    """Days of daylight saving changes, on the wall clock. gap: the wall clock of a frame start can be skipped."""
    L = ctx.lib()
    ep = epic(ctx, timezone=zn)
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F")
    ep.add_frame_set(fs)
    off, second, skipped = ZONE_CHANGES[zn][0], False, False
    seen, prev = [], None
    for n in range(ticks):
        dt = ctx.dt("t%d" % n, lo, hi, utc())
        inst = ctx.instant(dt)
        if prev is not None:
            ctx.assume(ctx.ge(inst, prev))
        prev = inst
        t = ctx.tick(dt, 10.0 + n, 10.0 + n)
        ep.on_new_tick(t)
        wall = local_us(ctx, inst, zn, *rng_us(lo, hi))
        seen.append((t, wall))
        off = ZONE_CHANGES[zn][0]
        for w, o in ZONE_CHANGES[zn][1]:
            c = naive_us(*w)
            if o < off:
                second = ctx.Or(second, ctx.And(ctx.ge(inst, c), ctx.lt(inst, c + HOUR_US)))
            elif gap:
                skipped = ctx.Or(skipped, ctx.ge(inst, c))
            off = o
        k1, k2 = ("C16-repeated-hour", second), ("C16-skipped-start", skipped)
        known = k2 if gap else k1
        fr = fs.frames
        for i, f in enumerate(fr):
            s, e = ctx.us(f.period_start), ctx.us(f.period_end)
            k = UNIT_US[unit] * q
            ctx.check("a frame starts on a boundary or after a skipped one", ctx.Or(ctx.eq(ctx.mod(s, k), 0), ctx.lt(s, e)))
            if i:
                ctx.check("a frame starts where the previous one ends", ctx.eq(s, ctx.us(fr[i - 1].period_end)), known=known)
            inside = [t_ for t_, w in seen if ctx.fork(ctx.And(ctx.le(s, w), ctx.lt(w, e)))]
            if inside:
                ctx.check("every tick is recorded in the frame of its period",
                          f.first_tick is inside[0] and f.last_tick is inside[-1] and f.nb_ticks == len(inside), known=known)
            else:
                ctx.check("a period without ticks repeats the last tick before it",
                          f.first_tick is f.last_tick and f.high_tick is f.last_tick and f.low_tick is f.last_tick, known=known)
        s, e = ctx.us(fr[-1].period_start), ctx.us(fr[-1].period_end)
        ctx.check("the last frame contains the last tick", ctx.And(ctx.le(s, wall), ctx.lt(wall, e), fr[-1].last_tick is t), known=known)
        ctx.cover("done")


def _c(unit, q, lo, hi, ticks=4, **k):
    return dict(unit=unit, q=q, lo=lo, hi=hi, ticks=ticks, **k)


_M = (2020, 6, 1, 10)
_Q = [_c("SECOND", 1, _M, (2020, 6, 1, 10, 0, 4)), _c("SECOND", 30, (2020, 6, 1, 23, 59, 10), (2020, 6, 2, 0, 0, 45)),
      _c("MINUTE", 1, _M, (2020, 6, 1, 10, 3, 30), indicator=True), _c("MINUTE", 15, (2020, 6, 1, 9, 40), (2020, 6, 1, 10, 40), m=2),
      _c("HOUR", 1, (2020, 2, 29, 22), (2020, 3, 1, 1, 59, 59, 999999)), _c("HOUR", 4, (2020, 6, 1), (2020, 6, 1, 23), m=1),
      _c("HOUR", 6, (2020, 6, 1), (2020, 6, 2, 12), tz="Asia/Tokyo"),
      _c("DAY", 1, (2020, 2, 27), (2020, 3, 1, 12)), _c("DAY", 7, (2020, 6, 1), (2020, 6, 25)), _c("WEEK", 1, (2020, 12, 14), (2021, 1, 8), m=2),
      _c("MONTH", 1, (2020, 12, 1), (2021, 3, 15)), _c("MONTH", 3, (2020, 10, 1), (2021, 7, 15), ticks=2), _c("YEAR", 1, (2019, 1, 1), (2022, 6, 1), ticks=2),
      _c("HOUR", 2, (2020, 6, 15, 18), (2020, 6, 16, 2), tz="America/New_York"),
      _c("MINUTE", 1, _M, (2020, 6, 1, 10, 44), 2, m=60), _c("SECOND", 30, _M, (2020, 6, 1, 10, 59), 2, m=5), _c("MINUTE", 15, _M, (2020, 6, 4, 14), 2, m=4)]
_T = [_c("SECOND", 1, _M, (2020, 6, 1, 10, 16, 40), 2, m=3), _c("MINUTE", 1, _M, (2020, 6, 1, 14), 2, m=1000), _c("HOUR", 1, (2020, 6, 1), (2020, 6, 20), 2), _c("SECOND", 1, _M, (2020, 6, 1, 10, 0, 4), 5), _c("SECOND", 30, (2020, 6, 1, 23, 58, 40), (2020, 6, 2, 0, 0, 59), 5),
      _c("SECOND", 5, _M, (2020, 6, 1, 10, 0, 24, 999999), 5, m=3), _c("MINUTE", 1, _M, (2020, 6, 1, 10, 5, 30), 5, indicator=True),
      _c("MINUTE", 15, (2020, 6, 1, 9, 40), (2020, 6, 1, 10, 50), 5, m=2), _c("MINUTE", 60, (2020, 6, 1, 21), (2020, 6, 2, 2), 5),
      _c("HOUR", 1, (2020, 2, 29, 22), (2020, 3, 1, 2, 59, 59, 999999), 5), _c("HOUR", 4, (2020, 6, 1), (2020, 6, 1, 23), 5, m=1),
      _c("HOUR", 6, (2020, 6, 1), (2020, 6, 2, 12), 5, tz="Asia/Tokyo"), _c("HOUR", 12, (2020, 6, 1), (2020, 6, 3), 5),
      _c("DAY", 1, (2020, 2, 27), (2020, 3, 2, 12), 5), _c("DAY", 7, (2020, 6, 1), (2020, 6, 30), 5), _c("WEEK", 1, (2020, 12, 14), (2021, 1, 15), 5, m=2),
      _c("MONTH", 1, (2020, 12, 1), (2021, 5, 15)), _c("MONTH", 3, (2020, 10, 1), (2021, 12, 15)), _c("MONTH", 12, (2019, 1, 1), (2022, 12, 15)),
      _c("YEAR", 1, (2019, 1, 1), (2023, 6, 1)), _c("YEAR", 3, (2016, 1, 1), (2027, 6, 1), 2),
      _c("HOUR", 2, (2020, 6, 15, 18), (2020, 6, 16, 5), 5, tz="America/New_York"), _c("SECOND", 1, _M, (2020, 6, 1, 10, 0, 12), 2)]

_P, _N = "Europe/Paris", "America/New_York"
_SPR, _AUT = ((2020, 3, 28, 23), (2020, 3, 29, 3, 59, 59, 999999)), ((2020, 10, 24, 23), (2020, 10, 25, 3, 59, 59, 999999))
_NSPR, _NAUT = ((2020, 3, 8, 5), (2020, 3, 8, 9, 59, 59, 999999)), ((2020, 11, 1, 4), (2020, 11, 1, 8, 59, 59, 999999))


def _d(unit, q, r, ticks=2, zn=_P, gap=False):
    return dict(unit=unit, q=q, lo=r[0], hi=r[1], ticks=ticks, zn=zn, gap=gap)


_DQ = [_d("HOUR", 1, _SPR), _d("MINUTE", 60, _SPR), _d("HOUR", 2, _SPR, gap=True), _d("HOUR", 4, _SPR), _d("DAY", 1, _SPR), _d("HOUR", 1, _AUT), _d("MINUTE", 30, _AUT),
       _d("DAY", 1, _AUT)]
_DT = [dict(c, ticks=3) for c in _DQ] + [_d("HOUR", 1, _NSPR, 3, _N), _d("HOUR", 2, _NSPR, 3, _N, True), _d("HOUR", 1, _NAUT, 3, _N),
                                         _d("HOUR", 2, _NAUT, 3, _N), _d("MINUTE", 20, _NAUT, 3, _N), _d("DAY", 1, _NSPR, 3, _N)]

HARNESSES = [H(tiles, _Q, _T, covers=["filler"],
               bounds="2-4 (thorough 2-5) ticks at any microseconds of a range of up to 5 (thorough 12; with two ticks 300, thorough 1000) consecutive frames, seconds to years with one to four quantities each, "
                      "memory limits 1, 2 and 100, epics in UTC, Tokyo and New York"),
             H(changes, _DQ, _DT, covers=["done"],
               bounds="2 (thorough 3) ticks at any microseconds of the 5 hours around the daylight saving changes of Europe/Paris (thorough: New York too) in 2020, "
                      "on the local wall clock, where a frame may span the changed hour")]
