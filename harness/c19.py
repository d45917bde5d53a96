"""C19 Frame memory is bounded and eviction only forgets the oldest frames."""
from symx.h import H
from harness.common import *


def fields(f):
    return (f.first_tick, f.high_tick, f.low_tick, f.last_tick)


def same_dt(ctx, a, b):
    if a is None or b is None:
        return a is b
    return ctx.And(same_instant(ctx, a, b), ctx.eq(ctx.us(a), ctx.us(b)))


def memory(ctx, unit, q, limits, ticks, span, prices=False, indicators=True, tz="UTC", last=None):
    """the same ticks through frame sets that differ only in their memory limit; limits[0] is the reference (never evicts)"""
    L = ctx.lib()
    ep = epic(ctx, timezone=tz)
    sets = []
    for i, m in enumerate(limits):
        fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F%d" % i, **({} if m is None else dict(max_frames_in_memory=m)))
        if indicators:
            fs.add_indicator(L.CandleSet(ref="C"))
            fs.add_indicator(L.SimpleMovingAverage(max_periods=2, ref="S"))
        ep.add_frame_set(fs)
        sets.append(fs)
    limits = [100 if m is None else m for m in limits]   # the default limit
    prev = None
    for n in range(ticks):
        if span:
            dt = ctx.dt("t%d" % n, *span, tz=utc())
            inst = ctx.instant(dt)
            if prev is not None:
                ctx.assume(ctx.ge(inst, prev))
            prev = inst
        else:
            dt = at(10, n // 60, n % 60)
        t = value_tick(ctx, "p%d" % n, dt, -500, 500) if prices and (last is None or n >= ticks - last) else ctx.tick(dt, 10.0 + n, 10.0 + n)
        ep.on_new_tick(t)
        if last is not None and n < ticks - last and n % 10:
            continue
        ref = sets[0].frames
        ctx.check("the reference keeps everything", len(ref) <= limits[0])
        for fs, m in zip(sets, limits):
            fr = fs.frames
            ctx.check("never more frames than the limit", len(fr) == min(m, len(ref)))
            if len(ref) > m:
                ctx.cover("evicted")
            if len(ref) > m + 1:
                ctx.cover("evicted twice")
            for i, (x, y) in enumerate(zip(fr[::-1], ref[::-1])):
                ctx.check("same ticks whatever the limit", all(a is b for a, b in zip(fields(x), fields(y))))
                ctx.check("same counts whatever the limit", ctx.eq(x.nb_ticks, y.nb_ticks))
                ctx.check("same periods whatever the limit", ctx.And(same_dt(ctx, x.period_start, y.period_start),
                                                                    same_dt(ctx, x.period_end, y.period_end)))
            for i, f in enumerate(fr):
                ctx.check("linked backwards", f.previous_frame is (fr[i - 1] if i else None))
                ctx.check("linked forwards", f.next_frame is (fr[i + 1] if i + 1 < len(fr) else None))
                ctx.check("closed iff a newer frame exists", f.closed == (i + 1 < len(fr)))
            ctx.check("the current frame is the newest", fs.current is fr[-1] and fr[-1].last_tick is t)
    ctx.observe("n", [len(fs.frames) for fs in sets])


_S = ((2020, 6, 1, 10), (2020, 6, 1, 10, 0, 5))
_Q = [dict(unit="SECOND", q=1, limits=(50, 1, 2, 3), ticks=3, span=_S), dict(unit="TICK", q=1, limits=(50, 1, 2, 4), ticks=6, span=None),
      dict(unit="TICK", q=2, limits=(50, 1, 2), ticks=5, span=None, prices=True), dict(unit="MINUTE", q=15, limits=(50, 2, 3), ticks=3,
                                                                                    span=((2020, 6, 1, 23), (2020, 6, 2, 0, 30))),
      dict(unit="DAY", q=1, limits=(50, 1, 3), ticks=3, span=((2020, 2, 27), (2020, 3, 2, 12)), tz="Asia/Tokyo"),
      dict(unit="TICK", q=1, limits=(500, 10, 20, 100, None), ticks=104, span=None, last=5),
      dict(unit="SECOND", q=1, limits=(500, 10, 30, None), ticks=110, span=None, prices=True, last=2)]
_T = [dict(unit="SECOND", q=1, limits=(50, 1, 2, 3), ticks=5, span=_S), dict(unit="TICK", q=1, limits=(50, 1, 2, 4, 5), ticks=9, span=None),
      dict(unit="TICK", q=2, limits=(50, 1, 2), ticks=7, span=None, prices=True), dict(unit="MINUTE", q=15, limits=(50, 2, 3), ticks=5,
                                                                                    span=((2020, 6, 1, 23), (2020, 6, 2, 0, 30))),
      dict(unit="DAY", q=1, limits=(50, 1, 3), ticks=5, span=((2020, 2, 27), (2020, 3, 2, 12)), tz="Asia/Tokyo"),
      dict(unit="SECOND", q=2, limits=(50, 1, 2), ticks=4, span=_S, prices=True),
      dict(unit="MONTH", q=1, limits=(50, 1, 2), ticks=3, span=((2020, 11, 1), (2021, 3, 31)))]
HARNESSES = [H(memory, _Q, _T, covers=["evicted", "evicted twice"],
               bounds="3-6 (thorough up to 9) ticks at any microseconds of a range of up to 6 frames (seconds, quarters of an hour, days, ticks; thorough months), "
                      "any values in two configurations, limits 1-4 (thorough 1-5) against a limit of 50 that never evicts; limits of 10 to 100 and the default one over 104-110 ticks of which the last ones are checked; a limit of 0 is outside")]
