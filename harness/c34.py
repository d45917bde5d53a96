"""C34 Frame sets of different timeframes over the same ticks agree."""
from symx.h import H
from harness.common import *


def agree(ctx, fine, coarse, lo, hi, ticks, plo=0, phi=60, m=400, tz="UTC", restricted=None):
    import datetime
    L = ctx.lib()
    kw = {}
    if restricted:
        kw = dict(open_time=datetime.time(*restricted), close_time=datetime.time(23, 59))
    ep = epic(ctx, timezone=tz, **kw)
    sets = []
    for ref, (unit, q) in (("coarse", coarse), ("fine", fine)):
        fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref=ref, max_frames_in_memory=m)
        fs.add_indicator(L.CandleSet(ref="C", market_open_only=bool(restricted)))
        ep.add_frame_set(fs)
        sets.append(fs)
    C, F = sets
    prev = None
    for n in range(ticks):
        dt = ctx.dt("t%d" % n, lo, hi, utc())
        if prev is not None:
            ctx.assume(ctx.ge(ctx.us(dt), prev))
        prev = ctx.us(dt)
        ep.on_new_tick(value_tick(ctx, "p%d" % n, dt, plo, phi))
    # the coarse frame of a fine one: the one whose period contains its start
    parts = [[] for _ in C.frames]
    for f in F.frames:
        s = ctx.us(f.period_start)
        own = [i for i, c in enumerate(C.frames) if ctx.fork(ctx.And(ctx.le(ctx.us(c.period_start), s), ctx.lt(s, ctx.us(c.period_end))))]
        ctx.check("every fine frame lies in one coarse frame", len(own) == 1)
        if len(own) != 1:
            return
        ctx.check("and ends in it", ctx.le(ctx.us(f.period_end), ctx.us(C.frames[own[0]].period_end)))
        # a filler repeats a tick received before its period
        if ctx.fork(ctx.ge(ctx.us(f.last_tick.datetime), s)):
            parts[own[0]].append(f)
        else:
            ctx.cover("fine filler")
    for c, fs in zip(C.frames, parts):
        if not fs:
            ctx.check("a coarse frame without ticks is a filler", ctx.lt(ctx.us(c.last_tick.datetime), ctx.us(c.period_start)))
            ctx.cover("coarse filler")
            continue
        if len(fs) > 1:
            ctx.cover("several fine frames")
        ctx.check("first tick of the first, last tick of the last", c.first_tick is fs[0].first_tick and c.last_tick is fs[-1].last_tick)
        ctx.check("the counts add up", ctx.eq(c.nb_ticks, sum(f.nb_ticks for f in fs)))
        summary(ctx, c, fs, "frame")
        if restricted:
            vs = [f["C"] for f in fs if f["C"] is not None]
            ctx.check("a value iff one of the fine frames has one", (c["C"] is not None) == bool(vs))
            if vs and c["C"] is not None:
                ctx.check("candle: first and last tick", c["C"].first_tick is vs[0].first_tick and c["C"].last_tick is vs[-1].last_tick)
                summary(ctx, c["C"], vs, "candle")
    ctx.observe("n", [len(C.frames), len(F.frames)])


def summary(ctx, c, fs, what):
    hi, lo = fs[0].high_tick, fs[0].low_tick
    for f in fs[1:]:
        if ctx.fork(ctx.gt(f.high_tick.value, hi.value)):
            hi = f.high_tick
        if ctx.fork(ctx.lt(f.low_tick.value, lo.value)):
            lo = f.low_tick
    ctx.check("%s: the highest of the high ticks, the lowest of the low ticks" % what, c.high_tick is hi and c.low_tick is lo)


def _c(fine, coarse, lo, hi, ticks=3, **k):
    return dict(fine=fine, coarse=coarse, lo=lo, hi=hi, ticks=ticks, **k)


_M = (2020, 6, 1, 10)
_Q = [_c(("SECOND", 5), ("SECOND", 15), _M, (2020, 6, 1, 10, 0, 24), 4), _c(("SECOND", 20), ("MINUTE", 1), _M, (2020, 6, 1, 10, 1, 45)), _c(("MINUTE", 5), ("MINUTE", 15), _M, (2020, 6, 1, 10, 35)),
      _c(("MINUTE", 30), ("HOUR", 1), (2020, 6, 1, 22), (2020, 6, 2, 0, 59)), _c(("HOUR", 6), ("DAY", 1), (2020, 2, 28), (2020, 3, 1, 8)),
      _c(("DAY", 1), ("WEEK", 1), (2020, 12, 30), (2021, 1, 6)), _c(("DAY", 1), ("MONTH", 1), (2020, 2, 26), (2020, 3, 4)), _c(("MONTH", 1), ("YEAR", 1), (2020, 10, 1), (2021, 2, 20), ticks=2),
      _c(("HOUR", 4), ("DAY", 1), (2020, 6, 1, 10), (2020, 6, 2, 18), tz="Asia/Tokyo"), _c(("MINUTE", 15), ("HOUR", 1), _M, (2020, 6, 1, 11, 29), restricted=(10, 40))]
_T = [dict(c, ticks=c["ticks"] + 1) for c in _Q] + [_c(("SECOND", 1), ("MINUTE", 1), (2020, 6, 1, 10, 0, 55), (2020, 6, 1, 10, 1, 3)), _c(("MONTH", 3), ("YEAR", 1), (2019, 10, 1), (2021, 2, 20)),
                                                   _c(("HOUR", 1), ("HOUR", 4), (2020, 6, 1, 2), (2020, 6, 1, 9), 4), _c(("MONTH", 1), ("MONTH", 3), (2020, 11, 1), (2021, 5, 20)),
                                                   _c(("DAY", 1), ("DAY", 7), (2020, 6, 4), (2020, 6, 12), 4)]
HARNESSES = [H(agree, _Q, _T, covers=["several fine frames", "fine filler", "coarse filler"],
               bounds="2-4 (thorough 5) ticks of any values at any microseconds of a range of 2-3 coarse frames, ten (fifteen) pairs of timeframes from seconds to years, also in Tokyo and with "
                      "a candle restricted to market hours")]
