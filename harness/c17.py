"""C17 A frame's first, high, low, last tick and count summarise its ticks."""
from symx.h import H
from harness.common import *


class Summary:
    """reference summary of a sequence of ticks"""

    def __init__(self, ctx):
        self.ctx, self.ticks = ctx, []

    def add(self, t):
        c = self.ctx
        if not self.ticks:
            self.first = self.high = self.low = t
        else:
            if c.fork(c.gt(t.value, self.high.value)):
                self.high = t
            if c.fork(c.lt(t.value, self.low.value)):
                self.low = t
        self.last = t
        self.ticks.append(t)

    def same(self, o):
        return o.first_tick is self.first and o.high_tick is self.high and o.low_tick is self.low and o.last_tick is self.last


def frames(ctx, unit, q, ticks, spread, lo=-1000, hi=1000, late=False, times=None, m=100, sym=None):
    L = ctx.lib()
    ep = epic(ctx)
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
    ep.add_frame_set(fs)
    if not late:
        fs.add_indicator(L.CandleSet(ref="C"))
        fs.add_indicator(L.SimpleMovingAverage(max_periods=2, ref="S"))
    sums, ind = [], []
    for n in range(ticks):
        if late and n == ticks // 2:
            fs.add_indicator(L.CandleSet(ref="C"))
            fs.add_indicator(L.CandleSet(ref="S", candle_type=L.CandleType.HEIKIN_ASHI))
        sec = times[n] if times else n
        dt = later(at(10), seconds=sec)
        if sym and n not in sym:
            # given prices around 0, some of them wide apart
            b = (n * 7 % 11 - 5) / 4
            t = ctx.tick(dt, b, b + (n % 5) * spread / 20)
        else:
            t = cent_tick(ctx, "p%d" % n, dt, lo, hi, spread) if spread else value_tick(ctx, "p%d" % n, dt, lo, hi)
        ep.on_new_tick(t)
        if unit == "TICK":
            new = not sums or len(sums[-1].ticks) == q
            gap = 0
        else:
            k = {"SECOND": 1, "MINUTE": 60, "HOUR": 3600}[unit] * q
            new = not sums or sec // k != (times[n - 1] if times else n - 1) // k
            gap = sec // k - (times[n - 1] if times else n - 1) // k - 1 if sums and new else 0
        for _ in range(gap):
            sums.append(None)
            ind.append(None)
        if new:
            sums.append(Summary(ctx))
            ind.append(None)
        sums[-1].add(t)
        if fs.indicators:
            if ind[-1] is None:
                ind[-1] = Summary(ctx)
            ind[-1].add(t)
        fr = fs.frames
        ctx.check("number of frames", len(fr) == min(m, len(sums)))
        for f, s, i in zip(fr[::-1], sums[::-1], ind[::-1]):
            if s is None:
                continue
            ctx.check("ticks of a frame", s.same(f))
            ctx.check("tick count of a frame", ctx.eq(f.nb_ticks, len(s.ticks)))
            for r in ("C", "S"):
                v = f[r]
                ctx.check("an indicator value exists once ticks came", (v is None) == (i is None))
                if i is not None:
                    ctx.check("ticks of an indicator value", i.same(v))
                    ctx.check("count of an indicator value", ctx.eq(v.nb_ticks, f.nb_ticks))
        if s_ties(ctx, sums[-1]):
            ctx.cover("several ticks")
    ctx.observe("n", [f.nb_ticks for f in fs.frames])


def s_ties(ctx, s):
    return s is not None and len(s.ticks) > 2


_Q = [dict(unit="TICK", q=1, ticks=4, spread=0), dict(unit="SECOND", q=1, ticks=4, spread=0), dict(unit="MINUTE", q=1, ticks=4, spread=5, times=(0, 60, 119, 120), late=True), dict(unit="TICK", q=4, ticks=4, spread=0), dict(unit="TICK", q=2, ticks=4, spread=0), dict(unit="TICK", q=3, ticks=3, spread=7),
      dict(unit="SECOND", q=5, ticks=5, spread=0, times=(0, 1, 2, 3, 5)), dict(unit="MINUTE", q=1, ticks=4, spread=0, late=True),
      dict(unit="TICK", q=4, ticks=4, spread=500, lo=-10 ** 7, hi=10 ** 7), dict(unit="TICK", q=14, ticks=15, spread=0, sym=(12, 13)), dict(unit="HOUR", q=1, ticks=12, spread=9, sym=(9, 11)),
      dict(unit="SECOND", q=10, ticks=4, spread=0, times=(0, 1, 35, 36), m=3), dict(unit="TICK", q=3, ticks=5, spread=0, late=True, m=1)]
_Q += [dict(unit="TICK", q=4, ticks=4, spread=0, times=(0, 0, 0, 0)), dict(unit="SECOND", q=5, ticks=4, spread=0, times=(4, 4, 4, 5)), dict(unit="MINUTE", q=1, ticks=4, spread=2, times=(0, 3, 3, 3), lo=-3, hi=3)]
_T = [dict(unit="TICK", q=1, ticks=6, spread=0), dict(unit="SECOND", q=1, ticks=6, spread=5), dict(unit="TICK", q=6, ticks=6, spread=0), dict(unit="TICK", q=2, ticks=6, spread=0), dict(unit="TICK", q=3, ticks=4, spread=7),
      dict(unit="SECOND", q=5, ticks=6, spread=0, times=(0, 1, 2, 3, 4, 5)), dict(unit="MINUTE", q=1, ticks=6, spread=0, late=True),
      dict(unit="SECOND", q=10, ticks=6, spread=0, times=(0, 1, 2, 35, 36, 37), m=3), dict(unit="TICK", q=4, ticks=6, spread=0, late=True, m=1)]
HARNESSES = [H(frames, _Q, _T, covers=["several ticks"],
               bounds="up to 5 (thorough 6) ticks with any values of +-10.00 on the cent grid (ties included, also at one instant; spreads of up to 7 cents in one configuration), "
                      "frames of seconds, a minute or 1-4 ticks, indicators attached from the start or in the middle of a frame, memory limits 1, 3 and 100; "
                      "the count of filler frames, which received no tick, is outside")]
