"""C38 Settings changed between two ticks apply from the next tick on."""
from symx.h import H
from harness.common import *
from harness.c11 import expected_open, sym_time
from harness.c12 import recorder


def hours(ctx, ticks, what, days=2, zn="UTC"):
    """market hours, days and holidays changed at run time"""
    import datetime
    L = ctx.lib()
    Rec = recorder(L)
    o, c = datetime.time(9), datetime.time(17)
    wd, hol = [0, 1], []
    ep = L.Epic(ref="E", open_time=o, close_time=c, trade_days=wd, timezone=zn)
    st = Rec(ref="S")
    ep.add_strategy(st)
    fs = L.FrameSet(unit=L.Unit.TICK, unit_quantity=2, ref="F")
    fs.add_indicator(L.CandleSet(ref="C", market_open_only=True))
    ep.add_frame_set(fs)
    lo, hi = (2020, 6, 1), (2020, 6, days, 23, 59, 59, 999999)
    prev, was = None, False
    for n in range(ticks):
        if n:
            k = ctx.choice("set%d" % n, ("nothing",) + tuple(what))
            if k == "hours":
                ep.open_time, ep.close_time = o, c = sym_time(ctx, "o%d" % n, "min"), sym_time(ctx, "c%d" % n, "min")
            elif k == "days":
                wd = [ctx.pyint("d%d" % n, 0, 2)]
                ep.trade_days = wd
            elif k == "holiday":
                hol = [datetime.date(2020, 6, 1 + ctx.pyint("h%d" % n, 0, days - 1))]
                ep.holidays = hol
            elif k == "zone":
                zn = ctx.choice("z%d" % n, ("UTC", "Asia/Tokyo"))
                ep.timezone = zn
                ctx.check("the timezone is kept", ep.timezone == zn)
            elif k == "many holidays":
                hol = [datetime.date(2020, 1 + i // 2, 5 + i) for i in range(11)] + [datetime.date(2020, 6, 1 + ctx.pyint("h%d" % n, 0, days - 1))]
                ep.holidays = hol
                ctx.check("what was received before the change stays as it was", ep.last_tick is t and ctx.fork(ctx.eq(ctx.us(t.datetime), wall)) and same_instant(ctx, t.datetime, dt))
                ctx.check("the market state is that of the last tick", bool(ep.market_open) == was)
            elif k == "bad zone":
                ctx.check("an unknown timezone is refused", ctx.raises(L.EpicException, lambda: setattr(ep, "timezone", "Mars/Base")))
                ctx.check("and the timezone kept", ep.timezone == zn)
                ctx.cover("refused")
        dt = ctx.dt("t%d" % n, lo, hi, utc())
        inst = ctx.instant(dt)
        if prev is not None:
            ctx.assume(ctx.ge(inst, prev))
        prev = inst
        t = ctx.tick(dt, 10.0, 10.0)
        n0 = len(st.calls)
        ep.on_new_tick(t)
        wall = local_us(ctx, inst, zn, *rng_us(lo, hi))
        ctx.check("the tick is in the timezone of the epic", ctx.eq(ctx.us(t.datetime), wall))
        is_open = ctx.fork(expected_open(ctx, wall, ctx.tod(o), ctx.tod(c), wd, [ctx.ordinal(h) for h in hol]))
        ctx.check("the market state follows the current settings", is_open == bool(ep.market_open))
        want = (["open" if is_open else "close"] if is_open != was else []) + (["tick_open"] if is_open else []) + ["tick"]
        ctx.check("the callbacks follow the current settings", [x[0] for x in st.calls[n0:]] == want)
        v = fs.current["C"]
        if is_open:
            ctx.check("the restricted indicator follows the current settings", v is not None and v.last_tick is t)
            ctx.cover("open")
        else:
            ctx.check("the restricted indicator ignores the tick", v is None or v.last_tick is not t)
        was = is_open
    ctx.observe("calls", [x[0] for x in st.calls])


def memory(ctx, unit, q, ticks, limits, span=None):
    """the memory limit changed at run time: from the next new frame on"""
    L = ctx.lib()
    ep = epic(ctx)
    m = limits[0]
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
    ref = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="G", max_frames_in_memory=1000)
    for f in (fs, ref):
        f.add_indicator(L.CandleSet(ref="C"))
        ep.add_frame_set(f)
    dt = None
    kept = 0
    for n in range(ticks):
        if n:
            m = limits[ctx.pyint("m%d" % n, 0, len(limits) - 1)]
            fs.max_frames_in_memory = m
        dt = moment(ctx, n, ("any", span) if span else None, dt)
        t = ctx.tick(dt, 10.0 + n, 10.0 + n)
        before = len(ref.frames)
        ep.on_new_tick(t)
        made = len(ref.frames) - before
        if made:
            if kept + made > m and kept > 1:
                ctx.cover("fewer")
            kept = min(kept + made, m)
        a, b = fs.frames, ref.frames
        ctx.check("a new frame enforces the current limit", len(a) == kept)
        for x, y in zip(a[::-1], b[::-1]):
            ctx.check("the frames kept are the latest ones", ctx.And(x.first_tick is y.first_tick, x.last_tick is y.last_tick, ctx.eq(x.nb_ticks, y.nb_ticks), ctx.eq(ctx.us(x.period_start), ctx.us(y.period_start))))
        for i, f in enumerate(a):
            ctx.check("linked", f.previous_frame is (a[i - 1] if i else None) and f.next_frame is (a[i + 1] if i + 1 < len(a) else None))
        ctx.cover("kept")
    ctx.observe("n", len(fs.frames))


_W = ("hours", "days", "holiday", "many holidays", "zone", "bad zone")
HARNESSES = [H(hours, [dict(ticks=2, what=_W), dict(ticks=3, what=("hours",), days=1), dict(ticks=3, what=("days", "many holidays")), dict(ticks=3, what=("zone", "bad zone"), zn="Asia/Tokyo")],
               [dict(ticks=3, what=_W), dict(ticks=4, what=("days", "holiday")), dict(ticks=4, what=("zone", "bad zone"), zn="Asia/Tokyo")], covers=["open", "refused"],
               bounds="2-3 (thorough 4) ticks at any microseconds of two days; before each but the first the hours become any minutes, the trading days any one of three, the holidays "
                      "any day, or the timezone one of two or an unknown one"),
             H(memory, [dict(unit="TICK", q=1, ticks=5, limits=(3, 1, 2)), dict(unit="TICK", q=2, ticks=6, limits=(2, 1)), dict(unit="SECOND", q=5, ticks=3, limits=(3, 1, 2), span=25)],
               [dict(unit="TICK", q=1, ticks=7, limits=(4, 1, 2)), dict(unit="TICK", q=2, ticks=8, limits=(3, 1)), dict(unit="SECOND", q=5, ticks=4, limits=(3, 1, 2), span=30)], covers=["fewer", "kept"],
               bounds="3-6 (thorough 8) ticks, the limit changed to any of 1-3 (4) before each tick, frames of 1-2 ticks and of 5 seconds with ticks at any microseconds of 25 s")]
