"""C18 Tick-count frames hold exactly n ticks and never cross a day."""
from symx.h import H
from harness.common import *


def count(ctx, n, ticks, lo, hi, tz="UTC", m=100, prices=False, head=0):
    L = ctx.lib()
    ep = epic(ctx, timezone=tz)
    fs = L.FrameSet(unit=L.Unit.TICK, unit_quantity=n, ref="F", max_frames_in_memory=m)
    fs.add_indicator(L.CandleSet(ref="C"))
    ep.add_frame_set(fs)
    other = L.FrameSet(unit=L.Unit.TICK, unit_quantity=1, ref="O", max_frames_in_memory=2)
    ep.add_frame_set(other)
    model = []  # lists of (tick, wall)
    prev = None
    for i in range(head + ticks):
        # the first ticks at given seconds, the others at any time
        dt = later(at(10, day=lo[:3]), seconds=i) if i < head else ctx.dt("t%d" % i, lo, hi, utc())
        inst = ctx.instant(dt)
        if prev is not None:
            ctx.assume(ctx.ge(inst, prev))
        prev = inst
        wall = local_us(ctx, inst, tz, *rng_us(lo, hi))
        t = value_tick(ctx, "p%d" % i, dt, -500, 500) if prices is True else \
            ctx.tick(dt, 10.0, 10.0) if prices == "same" else ctx.tick(dt, 10.0 + i, 10.0 + i)
        ep.on_new_tick(t)
        if not model:
            new = True
        else:
            w0 = model[-1][-1][1]
            newday = ctx.fork(ctx.gt(wall - ctx.mod(wall, DAY_US), w0 - ctx.mod(w0, DAY_US)))
            new = newday or len(model[-1]) == n
            if newday:
                ctx.cover("new day" if len(model[-1]) == n else "new day, incomplete frame")
        if new:
            model.append([])
        model[-1].append((t, wall))
        fr = fs.frames
        ctx.check("a new frame iff none, full or a new day", len(fr) == min(m, len(model)))
        for f, s in zip(fr[::-1], model[::-1]):
            ctx.check("the ticks of a frame", f.first_tick is s[0][0] and f.last_tick is s[-1][0] and ctx.eq(f.nb_ticks, len(s)))
            ctx.check("a tick frame starts at its first tick", same_instant(ctx, f.period_start, s[0][0].datetime))
        ctx.check("one frame per tick", len(other.frames) == min(2, i + 1) and other.frames[-1].first_tick is t)
        ctx.observe("n%d" % i, len(fr))


_R = ((2020, 6, 1), (2020, 6, 4, 23, 59, 59, 999999))
_Y = ((2020, 2, 27), (2020, 3, 2, 23, 59, 59, 999999))
_D = ((2020, 10, 24, 12), (2020, 10, 26, 12))
_A = ((2019, 6, 1), (2020, 7, 2))
_Q = [dict(n=2, ticks=3, lo=_A[0], hi=_A[1]), dict(n=2, ticks=4, lo=_R[0], hi=_R[1]), dict(n=3, ticks=5, lo=_R[0], hi=_R[1]), dict(n=1, ticks=3, lo=_R[0], hi=_R[1]),
      dict(n=2, ticks=4, lo=_R[0], hi=_R[1], tz="Asia/Tokyo"), dict(n=3, ticks=4, lo=_Y[0], hi=_Y[1], tz="America/New_York"),
      dict(n=2, ticks=3, lo=_D[0], hi=_D[1], tz="Europe/Paris"), dict(n=2, ticks=4, lo=_R[0], hi=_R[1], m=1),
      dict(n=2, ticks=4, lo=_R[0], hi=_R[1], prices="same"), dict(n=2, ticks=3, lo=_R[0], hi=_R[1], prices=True)]
_Q += [dict(n=h + 2, ticks=4, head=h, lo=_R[0], hi=_R[1], tz=z) for h, z in ((2, "UTC"), (6, "Asia/Tokyo"), (20, "UTC"))] + [dict(n=5, ticks=4, head=3, lo=_A[0], hi=_A[1], tz="America/New_York"), dict(n=12, ticks=2, head=59, lo=_R[0], hi=_R[1], m=3)] + [dict(n=600, ticks=2, head=600, lo=_R[0], hi=_R[1], m=3)]
_T = [dict(n=3, ticks=5, lo=_A[0], hi=_A[1]), dict(n=3, ticks=4, lo=_A[0], hi=_A[1], tz="Europe/Paris")] + [dict(n=n, ticks=6, lo=_R[0], hi=_R[1]) for n in (1, 2, 3, 4)] + \
     [dict(n=2, ticks=6, lo=_R[0], hi=_R[1], tz=z) for z in ("Asia/Tokyo", "America/New_York", "Europe/Paris")] + \
     [dict(n=2, ticks=5, lo=_D[0], hi=_D[1], tz="Europe/Paris"), dict(n=3, ticks=6, lo=_Y[0], hi=_Y[1], m=2), dict(n=2, ticks=5, lo=_R[0], hi=_R[1], prices=True),
      dict(n=3, ticks=6, lo=_R[0], hi=_R[1], prices="same")]
HARNESSES = [H(count, _Q, _T, covers=["new day, incomplete frame", "new day"],
               bounds="3-5 (thorough 6) ticks at any microseconds of 4 days or of 13 months, frames of 1-3 (thorough 4) ticks, or of 4-22 and 600 ticks the first of which come at given moments, epics in UTC, Tokyo, New York and Paris, memory limits "
                      "1, 2 and 100")]
