"""C23 Heikin-Ashi candles follow their recurrence."""
from symx.h import H
from harness.common import *
from harness.c22 import candle_parts

HALF = 0.005 + 1e-6


def recurrence(ctx, unit, q, ticks, lo, hi, spread=0, times=None, m=100, parts=True, closed=None, sym=None):
    L = ctx.lib()
    ep = market(ctx, closed)
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
    fs.add_indicator(L.CandleSet(ref="H", candle_type=L.CandleType.HEIKIN_ASHI))
    ep.add_frame_set(fs)
    dt = None
    for n in range(ticks):
        dt = moment(ctx, n, times, dt)
        if sym and n not in sym:
            v = (n * 37 % 101) / 4 - 12
            ep.on_new_tick(ctx.tick(dt, v, v + n % 3 * spread))
            continue
        ep.on_new_tick(cent_tick(ctx, "p%d" % n, dt, lo, hi, spread) if spread else value_tick(ctx, "p%d" % n, dt, lo, hi))
        prev = None
        for i, f in enumerate(fs.frames):
            c = f["H"]
            v = [ctx.N(x.value) for x in (f.first_tick, f.high_tick, f.low_tick, f.last_tick)]
            o, h, l, z = c.open, c.high, c.low, c.last
            if n == ticks - 1 or i == len(fs.frames) - 1:
                ctx.check("last is the mean of the four tick values", ctx.near(ctx.N(z) * 4, v[0] + v[1] + v[2] + v[3], 4 * HALF))
                if prev is None:
                    if n < m and not times:
                        ctx.check("the first open is the first tick's value", ctx.near(o, v[0]))
                else:
                    ctx.check("open is the mean of the previous candle", ctx.near(ctx.N(o) * 2, ctx.N(prev.open) + ctx.N(prev.last), 2 * HALF))
                    ctx.cover("recurrence")
                O, Z = ctx.N(o), ctx.N(z)
                ctx.check("high", ctx.near(h, O.max(Z).max(v[1])))
                ctx.check("low", ctx.near(l, O.min(Z).min(v[2])))
                closed = i + 1 < len(fs.frames)
                ctx.check("close is absent before the end and the last value after", (c.close is None) == (not closed) and (not closed or ctx.eq(c.close, z)))
                if parts:
                    candle_parts(ctx, c)
                else:
                    ctx.check("low <= open, last <= high", ctx.And(ctx.le(l, o), ctx.le(l, z), ctx.le(o, h), ctx.le(z, h)))
            prev = c
        ctx.observe("h%d" % n, [fs.frames[-1]["H"].high, fs.frames[-1]["H"].low])


_Q = [dict(unit="TICK", q=1, ticks=4, lo=-10 ** 6, hi=10 ** 6, parts=False), dict(unit="TICK", q=2, ticks=4, lo=-300, hi=300),
      dict(unit="TICK", q=3, ticks=3, lo=-10 ** 6, hi=10 ** 6), dict(unit="SECOND", q=5, ticks=3, lo=-300, hi=300, times=(0, 1, 12)),
      dict(unit="TICK", q=1, ticks=3, lo=-100, hi=100, spread=3),
      dict(unit="SECOND", q=5, ticks=3, lo=-100, hi=100, times=("any", 15), parts=False, closed=4)]
_Q += [dict(unit="TICK", q=2, ticks=60, lo=-2000, hi=2000, sym=(57, 58, 59), spread=1), dict(unit="TICK", q=1, ticks=40, lo=-2000, hi=2000, sym=(2, 39), spread=1, parts=False),
       dict(unit="TICK", q=1, ticks=120, lo=-2000, hi=2000, sym=(119,), spread=1)]
_Q += [dict(unit="TICK", q=3, ticks=6, lo=-300, hi=300, sym=(3, 4, 5)), dict(unit="TICK", q=4, ticks=30, lo=-300, hi=300, sym=(25, 26, 27), spread=1)]
_T = [dict(unit="TICK", q=1, ticks=5, lo=-10 ** 6, hi=10 ** 6, parts=False), dict(unit="TICK", q=2, ticks=5, lo=-1000, hi=1000),
      dict(unit="TICK", q=3, ticks=4, lo=-10 ** 6, hi=10 ** 6), dict(unit="SECOND", q=5, ticks=4, lo=-300, hi=300, times=(0, 1, 12, 13)),
      dict(unit="TICK", q=1, ticks=4, lo=-1000, hi=1000, spread=3), dict(unit="TICK", q=1, ticks=5, lo=-300, hi=300, m=3, parts=False),
      dict(unit="SECOND", q=5, ticks=4, lo=-100, hi=100, times=("any", 20), closed=7)]
HARNESSES = [H(recurrence, _Q, _T, covers=["recurrence"],
               bounds="3-4 (thorough 5) ticks of any values of +-10 000.00 (or +-3.00) on the cent grid in 1-4 (5) frames, fillers included, at fixed times or at any microseconds of 20 seconds, market open or closed; each open is compared with the "
                      "previous candle as reported")]
