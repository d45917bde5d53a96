"""C26 RSI is bounded, correct and available once enough changes exist."""
from symx.h import H
from harness.common import *

HALF = 0.005 + 1e-6


def strength(ctx, unit, q, periods, ticks, lo, hi, times=None, m=100, closed=None, sym=None, restricted=False):
    L = ctx.lib()
    ep = market(ctx, closed)
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
    fs.add_indicator(L.RSI(periods=periods, ref="R", market_open_only=restricted))
    ep.add_frame_set(fs)
    p = periods * q
    closes, last = [], None
    for n in range(ticks):
        dt = moment(ctx, n, times, last)
        if sym and n not in sym:
            v = (n * 37 % 101) / 4 - 12
            t = ctx.tick(dt, v, v)
        else:
            t = value_tick(ctx, "p%d" % n, dt, lo, hi)
        ep.on_new_tick(t)
        if unit == "TICK":
            new, gap = n % q == 0, 0
        else:
            k = {"SECOND": 10 ** 6, "MINUTE": 60 * 10 ** 6}[unit] * q
            j = frames_later(ctx, last, dt, k) if n else 1
            new, gap = j > 0, max(j - 1, 0)
        last = dt
        for _ in range(gap):
            closes.append(closes[-1])
        if new:
            closes.append(None)
        else:
            ctx.cover("later tick of a frame")
        closes[-1] = ctx.N(t.value)
        if restricted and not ctx.fork(ctx.ge(ctx.tod(dt), (10 * 3600 + closed) * 10 ** 6)):
            continue   # says nothing for ticks received while the market is closed
        got = fs.frames[-1]["R"].value
        one = ("C26-single-frame", m == 1 and not new)
        if len(closes) <= p:
            ctx.check("absent before enough frames were seen", got is None)
            continue
        if got is None:
            ctx.check("available once enough frames were seen", False, known=one)
            continue
        d = [closes[-i] - closes[-i - 1] for i in range(1, p + 1)]
        gains, losses = ctx.Sum([x.max(0) for x in d]), ctx.Sum([(-x).max(0) for x in d])
        r = ctx.N(got)
        ctx.check("between 0 and 100", ctx.And(ctx.ge(r, 0), ctx.le(r, 100)))
        ctx.cover("value")
        if ctx.fork(ctx.eq(losses, 0)):
            ctx.check("100 without losses", ctx.near(r, 100), known=one)
        elif ctx.fork(ctx.eq(gains, 0)):
            ctx.check("0 without gains", ctx.near(r, 0), known=one)
        else:
            tot = gains + losses
            ctx.check("100 x gains / (gains + losses) to the cent", ctx.And(ctx.le((r - 100) * tot + losses * 100, tot * HALF), ctx.le((losses * -100) + (r * -1 + 100) * tot, tot * HALF)),
                      known=one)
            ctx.cover("mixed")
        ctx.observe("r%d" % n, got)


_Q = [dict(unit="TICK", q=1, periods=2, ticks=5, lo=-400, hi=400), dict(unit="TICK", q=1, periods=1, ticks=4, lo=-10 ** 7, hi=10 ** 7), dict(unit="TICK", q=2, periods=1, ticks=6, lo=0, hi=1000),
      dict(unit="SECOND", q=1, periods=2, ticks=4, lo=-500, hi=500, times=(0, 3, 4, 5)), dict(unit="TICK", q=2, periods=1, ticks=3, lo=0, hi=100, m=2),
      dict(unit="TICK", q=1, periods=3, ticks=5, lo=0, hi=200), dict(unit="SECOND", q=1, periods=1, ticks=3, lo=0, hi=100, times=(0, 1, 1), m=1),
      dict(unit="TICK", q=2, periods=1, ticks=6, lo=0, hi=100, closed=30), dict(unit="SECOND", q=1, periods=2, ticks=4, lo=0, hi=100, times=("any", 4), closed=2)]
_Q += [dict(unit="TICK", q=1, periods=14, ticks=50, lo=-1000, hi=1000, sym=(30, 49)), dict(unit="TICK", q=3, periods=7, ticks=90, lo=-1000, hi=1000, sym=(40, 88, 89)),
       dict(unit="TICK", q=1, periods=2, ticks=4, lo=-300, hi=10 ** 6, sym=(1, 2))]
_Q += [dict(unit="SECOND", q=10, periods=1, ticks=4, lo=0, hi=50, times=(0, 11, 14, 15), closed=13, restricted=True), dict(unit="TICK", q=2, periods=1, ticks=4, lo=0, hi=30, times=("any", 4), closed=2, restricted=True)]
_T = [dict(unit="TICK", q=1, periods=2, ticks=7, lo=-500, hi=500), dict(unit="TICK", q=1, periods=3, ticks=7, lo=0, hi=300), dict(unit="TICK", q=1, periods=1, ticks=6, lo=-10 ** 7, hi=10 ** 7),
      dict(unit="TICK", q=2, periods=1, ticks=8, lo=-500, hi=500), dict(unit="SECOND", q=1, periods=2, ticks=6, lo=-500, hi=500, times=(0, 3, 4, 5, 5, 7)),
      dict(unit="MINUTE", q=2, periods=1, ticks=5, lo=0, hi=500, times=(0, 250, 250, 500, 600)), dict(unit="TICK", q=2, periods=1, ticks=5, lo=0, hi=100, m=2),
      dict(unit="TICK", q=1, periods=5, ticks=7, lo=0, hi=100), dict(unit="SECOND", q=1, periods=1, ticks=4, lo=0, hi=100, times=(0, 1, 1, 2), m=1),
      dict(unit="SECOND", q=1, periods=2, ticks=5, lo=0, hi=200, times=("any", 5), closed=2), dict(unit="TICK", q=2, periods=2, ticks=7, lo=0, hi=50, closed=3)]
HARNESSES = [H(strength, _Q, _T, covers=["value", "mixed", "later tick of a frame"], path_s=60,
               bounds="1-3 periods x quantity 1-2, frames of ticks, seconds and minutes with gaps, 3-8 ticks at fixed times or at any microseconds of 5 seconds, market open or closed, with any cent values in the range given in the configuration "
                      "(up to -100 000 to 100 000 for one period); the value is compared to the cent with the formula")]
