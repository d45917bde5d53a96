"""C14 An epic works in its own timezone without shifting instants."""
from symx.h import H
from harness.common import *

UNIT_US = {"MINUTE": 60 * 10 ** 6, "HOUR": HOUR_US, "DAY": DAY_US}


def tz_of(name):
    if name == "UTC":
        return utc()
    if name.startswith("+") or name.startswith("-"):
        from dateutil.tz import tzoffset
        s = 1 if name[0] == "+" else -1
        h, m = name[1:].split(":")
        return tzoffset(None, s * (int(h) * 3600 + int(m) * 60))
    return zone(name)


def fs_of(L, unit, q):
    return L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="%s%d" % (unit, q))


def local(ctx, epic_tz, tick_tz, lo, hi, frames, ticks=1, fold=False):
    """ticks given in any zone: instant kept, wall clock, market state and frame start of the epic's zone"""
    import datetime
    L = ctx.lib()
    ep = L.Epic(ref="E", timezone=epic_tz, open_time=datetime.time(9, 0), close_time=datetime.time(17, 30))
    for u, q in frames:
        ep.add_frame_set(fs_of(L, u, q))
    prev = None
    a, b = rng_us(lo, hi)
    for n in range(ticks):
        dt = ctx.dt("t%d" % n, lo, hi, tz_of(tick_tz))
        if fold:
            # the second occurrence of a repeated hour
            dt = dt.replace(fold=1)
        inst = ctx.instant(dt)
        if tick_tz in ZONE_CHANGES:
            ctx.check("instant of the tick", ctx.eq(local_us(ctx, inst, tick_tz), ctx.us(dt)) if not repeated(ctx, tick_tz, a, b) else True)
        if prev is not None:
            ctx.assume(ctx.ge(inst, prev))
        prev = inst
        t = ctx.tick(dt, 10.0, 11.0)
        ep.on_new_tick(t)
        wall = local_us(ctx, inst, epic_tz)
        ctx.check("instant kept", ctx.eq(ctx.instant(t.datetime), inst))
        ctx.check("expressed in the epic's timezone", ctx.eq(ctx.us(t.datetime), wall))
        tod = ctx.mod(wall, DAY_US)
        work = ctx.Not(ctx.Or(weekday_is(ctx, wall, 5), weekday_is(ctx, wall, 6)))
        exp = ctx.And(work, ctx.le(9 * HOUR_US, tod), ctx.le(tod, 17 * HOUR_US + HOUR_US // 2))
        ctx.check("market hours in the epic's timezone", ctx.Iff(exp, bool(ep.market_open)))
        ctx.cover("open" if ep.market_open else "closed")
        for u, q in frames:
            k = UNIT_US[u] * q
            f = ep.frame_sets["%s%d" % (u, q)].current
            if not ctx.fork(in_repeated(ctx, epic_tz, inst)):
                ctx.check("frame start in the epic's timezone", ctx.eq(ctx.us(f.period_start), wall - ctx.mod(wall, k)))
                if u == "DAY":
                    ctx.check("frame end in the epic's timezone", ctx.eq(ctx.us(f.period_end) - ctx.us(f.period_start), k))
                    for what, d in (("start", f.period_start), ("end", f.period_end)):
                        ctx.check("instant of the frame's " + what, ctx.eq(local_us(ctx, ctx.instant(d), epic_tz), ctx.us(d)))
        ctx.observe("wall%d" % n, ctx.us(t.datetime))


def repeated(ctx, zn, a, b):
    return any(naive_us(*w) - 15 * HOUR_US <= b and naive_us(*w) + 15 * HOUR_US >= a for w, o in ZONE_CHANGES[zn][1])


def in_repeated(ctx, zn, inst):
    """is the UTC instant within an hour of an offset reduction (the wall clock is ambiguous)?"""
    r, off = False, ZONE_CHANGES[zn][0]
    for w, o in ZONE_CHANGES[zn][1]:
        if o < off:
            c = naive_us(*w)
            r = ctx.Or(r, ctx.And(ctx.ge(inst, c - HOUR_US), ctx.lt(inst, c + HOUR_US)))
        off = o
    return r


def same(ctx, epic_tz, zones, lo, hi, frames, ticks=3):
    """the same instants expressed in two timezones"""
    import arrow
    import datetime
    L = ctx.lib()
    eps = []
    for i in (0, 1):
        ep = L.Epic(ref="E%d" % i, timezone=epic_tz, open_time=datetime.time(2, 30), close_time=datetime.time(12, 0), trade_days=list(range(7)))
        for u, q in frames:
            ep.add_frame_set(fs_of(L, u, q))
        eps.append(ep)
    prev = None
    for n in range(ticks):
        dt = ctx.dt("t%d" % n, lo, hi, tz_of(zones[0]))
        inst = ctx.instant(dt)
        for z in (epic_tz,) + tuple(zones):
            if z in ZONE_CHANGES:
                ctx.assume(ctx.Not(in_repeated(ctx, z, inst)))
        if prev is not None:
            ctx.assume(ctx.ge(inst, prev))
        prev = inst
        ts = [ctx.tick(dt, 10.0, 11.0), ctx.tick(arrow.get(dt).to(tz_of(zones[1])), 10.0, 11.0)]
        ctx.check("same instant", ctx.eq(ctx.instant(ts[1].datetime), inst))
        for ep, t in zip(eps, ts):
            ep.on_new_tick(t)
        ctx.check("same market state", ctx.Iff(bool(eps[0].market_open), bool(eps[1].market_open)))
        for r in eps[0].frame_sets:
            fa, fb = eps[0].frame_sets[r].frames, eps[1].frame_sets[r].frames
            ctx.check("same number of frames", len(fa) == len(fb))
            for x, y in zip(fa, fb):
                ctx.check("same periods and counts", ctx.And(ctx.eq(ctx.us(x.period_start), ctx.us(y.period_start)),
                                                             same_instant(ctx, x.period_start, y.period_start), x.nb_ticks == y.nb_ticks))
                if x.period_end is not None:
                    ctx.check("same ends", ctx.And(ctx.eq(ctx.us(x.period_end), ctx.us(y.period_end)), same_instant(ctx, x.period_end, y.period_end)))
                ctx.check("same last ticks", same_instant(ctx, x.last_tick.datetime, y.last_tick.datetime))
        if any(len(f.frames) > 1 for f in eps[0].frame_sets.values()):
            ctx.cover("several frames")


_Y = ((2020, 1, 3), (2020, 12, 29, 23, 59, 59, 999999))
_YY = ((2019, 1, 3), (2021, 12, 29, 23, 59, 59, 999999))
_MAR = ((2020, 2, 28), (2020, 4, 2, 23, 59, 59, 999999))
_OCT = ((2020, 10, 15), (2020, 11, 3, 23, 59, 59, 999999))
_CAL = (("MONTH", 1), ("WEEK", 1))
_AUT = ((2020, 10, 25, 0), (2020, 10, 25, 4, 59, 59, 999999))
_SPR = ((2020, 3, 29, 0), (2020, 3, 29, 4, 59, 59, 999999))
_NYA = ((2020, 11, 1, 4), (2020, 11, 1, 8, 59, 59, 999999))
_HD = (("HOUR", 1), ("DAY", 1))
_ALL = ["UTC", "Asia/Tokyo", "Europe/Paris", "America/New_York"]


def _l(e, t, r, frames=_HD, ticks=1):
    return dict(epic_tz=e, tick_tz=t, lo=r[0], hi=r[1], frames=frames, ticks=ticks)


def _s(e, zones, r, frames=(("HOUR", 1), ("MINUTE", 30)), ticks=2):
    return dict(epic_tz=e, zones=zones, lo=r[0], hi=r[1], frames=frames, ticks=ticks)


_LQ = [_l(e, "UTC", _Y) for e in _ALL] + [_l("UTC", "Europe/Paris", _Y), _l("Europe/Paris", "+05:30", _Y), _l("America/New_York", "Asia/Tokyo", _Y),
                                          _l("Europe/Paris", "UTC", _AUT, ticks=2), _l("Europe/Paris", "America/New_York", _SPR, ticks=2)]
_LQ += [dict(_l(e, "Europe/Paris", _AUT, frames=f), fold=True) for e, f in (("UTC", _HD), ("Asia/Tokyo", _HD), ("Europe/Paris", ()))]
_LT = [_l(e, t, _YY, frames=_HD + (("MINUTE", 15),)) for e in _ALL for t in _ALL + ["+05:30", "-03:30"]] + \
      [_l("Europe/Paris", "UTC", _AUT, ticks=3), _l("Europe/Paris", "America/New_York", _SPR, ticks=3), _l("America/New_York", "UTC", _NYA, ticks=3)]
_SQ = [_s("Europe/Paris", ("UTC", "Europe/Paris"), _AUT), _s("Europe/Paris", ("UTC", "America/New_York"), _SPR),
       _s("UTC", ("UTC", "+05:30"), _AUT), _s("UTC", ("UTC", "Europe/London"), _MAR, frames=_CAL), _s("Europe/London", ("Europe/London", "UTC"), _OCT, frames=_CAL),
       _s("America/New_York", ("UTC", "Asia/Tokyo"), _NYA)]
_ST = [_s(e, z, r, ticks=3) for e in _ALL for z in (("UTC", "Europe/Paris"), ("UTC", "-03:30"), ("Asia/Tokyo", "America/New_York"))
       for r in (_AUT, _SPR)] + [_s("America/New_York", ("UTC", "America/New_York"), _NYA, ticks=3)] + \
      [_s(e, z, r, frames=_CAL, ticks=t) for e, z, r, t in (("UTC", ("UTC", "Europe/London"), _MAR, 2), ("Europe/London", ("UTC", "Europe/London"), _MAR, 2),
                                                       ("Europe/London", ("UTC", "Asia/Tokyo"), _OCT, 2), ("UTC", ("+05:30", "Europe/London"), _OCT, 2))]

HARNESSES = [H(local, _LQ, _LT, covers=["open", "closed"],
               bounds="1-2 (thorough 3) ticks at any microsecond of 2020 (thorough 2019-2021) given in UTC, fixed offsets, Paris, New York or Tokyo time to epics "
                      "in UTC, Tokyo, Paris or New York; local wall clocks in the repeated hour are read as its first occurrence, or as its second one (Paris time)"),
             H(same, _SQ, _ST, covers=["several frames"],
               bounds="pairs of streams of 2 (thorough 3) ticks with the same instants within the 5 hours around the daylight saving changes, hour and "
                      "half-hour frames")]
