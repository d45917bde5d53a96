"""C28 Frame and indicator lookups return the requested position."""
from symx.h import H
from harness.common import *


def lookups(ctx, unit, q, ticks, m, kmax, times=None, opened=False, few=False):
    import datetime
    L = ctx.lib()
    ep = epic(ctx, **(dict(open_time=datetime.time(10), close_time=datetime.time(11)) if opened else {}))
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
    other = L.FrameSet(unit=L.Unit.TICK, unit_quantity=1, ref="G", max_frames_in_memory=2)
    fs.add_indicator(L.CandleSet(ref="a"))
    fs.add_indicator(L.CandleSet(ref="o", market_open_only=True))
    other.add_indicator(L.CandleSet(ref="a"))
    ep.add_frame_set(fs)
    ep.add_frame_set(other)
    ctx.check("no frame before any tick", ep.get_frame("F") is None and ep.get_indicator_value("F", "a") is None)
    hist = []
    stop = ctx.int("ticks", ticks if few else 1, ticks)
    for n in range(ticks):
        if ctx.fork(ctx.ge(n, stop)):
            break
        dt = later(at(10), seconds=times[n] if times else n)
        if opened == "pattern":
            # a tick a day, in or out of the market hours
            dt = at(10 if ctx.bool("in%d" % n) else 12, day=(2020, 6, 1 + n))
        elif opened:
            dt = ctx.dt("t%d" % n, (2020, 6, 1, 9, 55 + n), (2020, 6, 2, 10, 30), utc())
            if hist:
                ctx.assume(ctx.ge(ctx.instant(dt), ctx.instant(hist[-1][1])))
        t = ctx.tick(dt, 10.0, 10.0)
        ep.on_new_tick(t)
        hist.append((t, dt))
    k = ctx.int("offset", 0, kmax)
    frames = list(fs.frames)
    # independent chronology: frames by their first ticks / starts
    order = sorted(range(len(frames)), key=lambda i: i)
    f = ep.get_frame("F", offset=k)
    want = None
    for i in range(len(frames)):
        if ctx.fork(ctx.eq(k, i)):
            want = frames[len(frames) - 1 - i]
    ctx.check("the frame at an offset", f is want)
    for r in ("a", "o", "missing"):
        v = ep.get_indicator_value("F", r, offset=k)
        ctx.check("the value at an offset", v is (want.indicators.get(r) if want is not None else None))
    if want is None:
        ctx.cover("nothing there")
    else:
        ctx.cover("something there")
    g = ep.get_frame("G", offset=k)
    ctx.check("frames of another frame set", (g is None) if ctx.fork(ctx.ge(k, min(2, len(hist)))) else g.first_tick is hist[-1 - frames_at(ctx, k)][0])
    for i, f in enumerate(frames):
        ctx.check("chronological", i == 0 or ctx.And(ctx.ge(ctx.instant(f.period_start), ctx.instant(frames[i - 1].period_start)), f.previous_frame is frames[i - 1]))
        for r in ("a", "o"):
            v = f[r]
            if v is None:
                ctx.cover("no value")
                continue
            before = [x[r] for x in frames[:i] if x[r] is not None]
            ctx.check("previous is the nearest earlier value", v.previous is (before[-1] if before else None))
            ctx.check("next is the value of the following frame", v.next is (frames[i + 1][r] if i + 1 < len(frames) else None))
            if before and frames[i - 1][r] is None:
                ctx.cover("previous skips a frame")
    ctx.observe("n", len(frames))


def frames_at(ctx, k):
    for i in range(4):
        if ctx.fork(ctx.eq(k, i)):
            return i


_Q = [dict(unit="TICK", q=1, ticks=5, m=3, kmax=6), dict(unit="TICK", q=2, ticks=5, m=10, kmax=6), dict(unit="SECOND", q=5, ticks=3, m=3, kmax=6, times=(0, 1, 17)),
      dict(unit="TICK", q=1, ticks=4, m=10, kmax=5, opened=True), dict(unit="TICK", q=1, ticks=3, m=1, kmax=3),
      dict(unit="TICK", q=1, ticks=8, m=10, kmax=8, opened="pattern", few=True), dict(unit="TICK", q=1, ticks=8, m=4, kmax=5, opened="pattern", few=True),
      dict(unit="TICK", q=1, ticks=120, m=100, kmax=130, few=True), dict(unit="SECOND", q=5, ticks=3, m=60, kmax=70, times=(0, 7, 400), few=True)]
_T = [dict(unit="TICK", q=1, ticks=8, m=4, kmax=100), dict(unit="TICK", q=2, ticks=8, m=10, kmax=100), dict(unit="SECOND", q=5, ticks=5, m=4, kmax=12, times=(0, 1, 17, 18, 40)),
      dict(unit="TICK", q=1, ticks=5, m=10, kmax=8, opened=True), dict(unit="TICK", q=1, ticks=4, m=2, kmax=5, opened=True)]
HARNESSES = [H(lookups, _Q, _T, covers=["nothing there", "something there", "no value", "previous skips a frame"],
               bounds="1-5 (thorough 8) ticks, any offset up to 6 (100); 120 ticks and any offset up to 130; 8 days of one tick each within or out of the market hours; two frame sets, memory limits 1-4 and 10, a market-hours indicator over ticks at any microseconds around the hours")]
