"""C22 Japanese candles report the open/high/low/last of their frame."""
from symx.h import H
from harness.common import *


def candle_parts(ctx, c):
    """relations between a candle's reported figures"""
    L = ctx.lib()
    o, h, l, z = c.open, c.high, c.low, c.last
    ctx.check("low <= open, last <= high", ctx.And(ctx.le(l, o), ctx.le(l, z), ctx.le(o, h), ctx.le(z, h)))
    col = c.color
    ctx.check("green iff last is above open", ctx.Iff(col == L.CandleColor.GREEN, ctx.gt(z, o)))
    ctx.check("red iff last is below open", ctx.Iff(col == L.CandleColor.RED, ctx.lt(z, o)))
    ctx.check("black iff last equals open", ctx.Iff(col == L.CandleColor.BLACK, ctx.eq(z, o)))
    O, Hh, Ll, Z = (ctx.N(x) for x in (o, h, l, z))
    for n, v, w in (("height", c.height, Hh - Ll), ("body", c.body, abs(O - Z)), ("head", c.head, Hh - O.max(Z)), ("tail", c.tail, O.min(Z) - Ll)):
        if v is None:
            ctx.check("%s is reported" % n, False)
        else:
            ctx.check("%s to the cent" % n, ctx.near(v, w))
            ctx.check("%s is not negative" % n, ctx.ge(v, 0, tol=1e-9))


def candles(ctx, unit, q, ticks, lo, hi, spread, den=1, times=None, m=100, mo=False, closed=None):
    L = ctx.lib()
    ep = market(ctx, closed)
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
    fs.add_indicator(L.CandleSet(ref="C", market_open_only=mo))
    ep.add_frame_set(fs)
    dt = None
    for n in range(ticks):
        dt = moment(ctx, n, times, dt)
        if spread:
            b, s = ctx.int("p%d.bid" % n, lo, hi), ctx.int("p%d.spr" % n, 0, spread)
            t = ctx.tick(dt, ctx.cents(b, den), ctx.cents(b + s, den))
        else:
            k = ctx.int("p%d" % n, lo, hi)
            t = ctx.tick(dt, ctx.cents(k, den), ctx.cents(k, den))
        ep.on_new_tick(t)
    for i, f in enumerate(fs.frames):
        c = f["C"]
        for nm, v, w in (("open", c.open, f.first_tick), ("high", c.high, f.high_tick), ("low", c.low, f.low_tick), ("last", c.last, f.last_tick)):
            ctx.check("%s is the value of the frame's tick" % nm, ctx.near(v, w.value))
        closed = i + 1 < len(fs.frames)
        ctx.check("close is absent before the end and the last value after", (c.close is None) == (not closed) and (not closed or ctx.eq(c.close, c.last)))
        candle_parts(ctx, c)
        ctx.check("reached from the epic", ep.get_indicator_value("F", "C", len(fs.frames) - 1 - i) is c)
        ctx.observe("c%d" % i, [c.open, c.high, c.low, c.last, c.height, c.body, c.head, c.tail, c.color])
        if closed:
            ctx.cover("closed candle")


def _c(**k):
    k.setdefault("spread", 0)
    return k


_B = 10 ** 7
_Q = [_c(unit="TICK", q=4, ticks=4, lo=-_B, hi=_B), _c(unit="TICK", q=2, ticks=3, lo=-300, hi=300, spread=5), _c(unit="TICK", q=1, ticks=2, lo=-50, hi=50, den=10, spread=30),
      _c(unit="MINUTE", q=1, ticks=4, lo=-300, hi=300, times=(0, 10, 59, 60)), _c(unit="SECOND", q=5, ticks=3, lo=-300, hi=300, times=(0, 4, 17), m=2),
      _c(unit="SECOND", q=5, ticks=4, lo=-100, hi=100, times=("any", 16), closed=8)]
_T = [_c(unit="TICK", q=5, ticks=5, lo=-_B, hi=_B), _c(unit="TICK", q=3, ticks=4, lo=-300, hi=300, spread=5), _c(unit="TICK", q=2, ticks=3, lo=-500, hi=500, den=10, spread=30),
      _c(unit="MINUTE", q=1, ticks=5, lo=-3000, hi=3000, times=(0, 10, 58, 59, 60)), _c(unit="SECOND", q=5, ticks=5, lo=-300, hi=300, times=(0, 3, 4, 17, 18), m=2),
      _c(unit="TICK", q=2, ticks=5, lo=-_B, hi=_B, mo=True), _c(unit="SECOND", q=5, ticks=5, lo=-100, hi=100, times=("any", 21), closed=8),
      _c(unit="MINUTE", q=2, ticks=4, lo=-1000, hi=1000, times=("any", 500))]
HARNESSES = [H(candles, _Q, _T, covers=["closed candle"],
               bounds="2-4 (thorough 5) ticks of any prices of +-100 000.00 (ties, zero and negative ones included), on the cent grid or on a tenth of it, in frames of ticks, "
                      "seconds and minutes with and without fillers, at fixed times or at any microseconds of up to 500 seconds, market open or closed")]
