"""C25 A simple moving average is the mean of the last closes."""
from symx.h import H
from harness.common import *

HALF = 0.005 + 1e-6


def average(ctx, unit, q, periods, ticks, lo, hi, spread=0, times=None, m=100, closed=None, sym=None, every=1):
    L = ctx.lib()
    ep = market(ctx, closed)
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
    fs.add_indicator(L.SimpleMovingAverage(max_periods=periods, ref="S"))
    ep.add_frame_set(fs)
    closes, inside, last = [], 0, None
    for n in range(ticks):
        dt = moment(ctx, n, times, last)
        if sym and n not in sym:
            t = ctx.tick(dt, (n * 37 % 101) / 4, (n * 37 % 101) / 4 + n % 3)
        else:
            t = cent_tick(ctx, "p%d" % n, dt, lo, hi, spread) if spread else value_tick(ctx, "p%d" % n, dt, lo, hi)
        ep.on_new_tick(t)
        if unit == "TICK":
            new, gap = n % q == 0, 0
        else:
            k = {"SECOND": 10 ** 6, "MINUTE": 60 * 10 ** 6}[unit] * q
            j = frames_later(ctx, last, dt, k) if n else 1
            new, gap = j > 0, max(j - 1, 0)
        last = dt
        for _ in range(gap):
            closes.append(closes[-1])
        if new:
            closes.append(None)
        closes[-1] = ctx.N(t.value)
        ctx.check("number of frames", len(fs.frames) == min(m, len(closes)))
        if n % every and n < ticks - 1:
            continue
        for back in range(min(len(fs.frames), 3)):
            v = fs.frames[-1 - back]["S"]
            upto = closes[:len(closes) - back]
            for p in range(1, periods + 1):
                got = v.get_value(p)
                if len(upto) < p:
                    ctx.check("absent when fewer frames were seen", got is None)
                elif got is None:
                    ctx.check("reported once enough frames were seen", False)
                else:
                    ctx.check("mean of the last closes to the cent", ctx.near(ctx.N(got) * p, ctx.Sum(upto[-p:]), p * HALF))
                    ctx.cover("average")
                    if gap:
                        ctx.cover("after a gap")
    ctx.observe("a", [fs.frames[-1]["S"].get_value(p) for p in range(1, periods + 1)])


_B = 10 ** 7
_Q = [dict(unit="TICK", q=1, periods=3, ticks=4, lo=-_B, hi=_B), dict(unit="TICK", q=2, periods=2, ticks=5, lo=-_B, hi=_B), dict(unit="TICK", q=1, periods=1, ticks=4, lo=-300, hi=300),
      dict(unit="TICK", q=1, periods=4, ticks=6, lo=-300, hi=300, m=2), dict(unit="TICK", q=1, periods=3, ticks=5, lo=-300, hi=300, m=1),
      dict(unit="SECOND", q=5, periods=4, ticks=4, lo=-300, hi=300, times=(0, 1, 17, 21)), dict(unit="MINUTE", q=1, periods=3, ticks=4, lo=-300, hi=300, times=(0, 59, 301, 302), m=2),
      dict(unit="TICK", q=1, periods=2, ticks=3, lo=-100, hi=100, spread=3), dict(unit="SECOND", q=5, periods=3, ticks=4, lo=-300, hi=300, times=("any", 16), closed=8)]
_Q += [dict(unit="TICK", q=q, periods=p, ticks=t, lo=-_B, hi=_B, sym=s, m=m) for q, p, t, s, m in ((3, 12, 45, (0, 20, 35, 44), 100), (5, 6, 40, (4, 24, 37), 3), (1, 50, 60, (0, 10, 55), 100))] + [dict(unit="TICK", q=1, periods=150, ticks=153, lo=-_B, hi=_B, sym=(3, 120), every=17)]
_T = [dict(unit="TICK", q=1, periods=p, ticks=8, lo=-_B, hi=_B) for p in (1, 2, 3, 5, 7)] + [dict(unit="TICK", q=3, periods=3, ticks=9, lo=-_B, hi=_B)] + \
     [dict(unit="TICK", q=1, periods=6, ticks=8, lo=-300, hi=300, m=m) for m in (1, 2, 3, 6)] + \
     [dict(unit="SECOND", q=5, periods=6, ticks=6, lo=-300, hi=300, times=(0, 1, 17, 21, 40, 44)),
      dict(unit="MINUTE", q=1, periods=10, ticks=5, lo=-300, hi=300, times=(0, 59, 301, 302, 900), m=2), dict(unit="TICK", q=1, periods=3, ticks=5, lo=-100, hi=100, spread=3),
      dict(unit="SECOND", q=5, periods=5, ticks=5, lo=-300, hi=300, times=("any", 30), closed=8), dict(unit="MINUTE", q=1, periods=3, ticks=4, lo=-300, hi=300, times=("any", 300), m=2)]
HARNESSES = [H(average, _Q, _T, covers=["average", "after a gap"],
               bounds="up to 6 (thorough 9) ticks of any values of +-100 000.00 on the cent grid, 1-4 (7, 10) periods, or 6-150 periods over 40-153 ticks of which 2-4 have any value, all averages of the last three frames read after every tick, "
                      "memory limits 1, 2, 3, 6 and 100, fillers included, at fixed times or at any microseconds of 16 seconds to 5 minutes, market open or closed")]
