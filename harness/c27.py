"""C27 Market-open-only indicators ignore ticks received while closed."""
from symx.h import H
from harness.common import *
from harness.c17 import Summary


def hours(ctx, unit, q, lo, hi, ticks, m=100, kinds=("C",), prices=False):
    """market 10:00-11:00, ticks at any times"""
    import datetime
    L = ctx.lib()
    ep = epic(ctx, open_time=datetime.time(10), close_time=datetime.time(11))
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
    mk = {"C": lambda **k: L.CandleSet(**k), "H": lambda **k: L.CandleSet(candle_type=L.CandleType.HEIKIN_ASHI, **k), "P": lambda **k: L.Pivot(**k),
          "S": lambda **k: L.SimpleMovingAverage(max_periods=2, **k)}
    for k in kinds:
        fs.add_indicator(mk[k](ref="open" + k, market_open_only=True))
        fs.add_indicator(mk[k](ref="any" + k))
    ep.add_frame_set(fs)
    prev, seen = None, []
    for n in range(ticks):
        dt = ctx.dt("t%d" % n, lo, hi, utc())
        inst = ctx.instant(dt)
        if prev is not None:
            ctx.assume(ctx.ge(inst, prev))
        prev = inst
        t = value_tick(ctx, "p%d" % n, dt, -500, 500) if prices else ctx.tick(dt, 10.0 + n % 2, 10.0 + n % 2)
        ep.on_new_tick(t)
        tod = ctx.mod(inst, DAY_US)
        seen.append((t, inst, ctx.fork(ctx.And(ctx.ge(tod, 10 * HOUR_US), ctx.le(tod, 11 * HOUR_US)))))
        for f in fs.frames:
            i0 = next(i for i, x in enumerate(seen) if x[0] is f.first_tick)
            if unit == "TICK":
                mine = seen[i0:i0 + f.nb_ticks]
            else:
                s, e = ctx.instant(f.period_start), ctx.instant(f.period_end)
                mine = [x for x in seen if ctx.fork(ctx.And(ctx.ge(x[1], s), ctx.lt(x[1], e)))]
            filler = not mine
            of = [x[0] for x in mine if x[2]]
            for k in kinds:
                a, o = f["any" + k], f["open" + k]
                ctx.check("an unrestricted indicator has a value on every frame", a is not None)
                if filler:
                    ctx.check("an unrestricted value of a filler is the last tick", a.first_tick is f.last_tick and a.last_tick is f.last_tick)
                    # the last tick received before the filler's period
                    was = seen[i0][2]
                    ctx.check("a filler has a restricted value only for a tick received while open", o is None or was, known=("C27-filler", not was))
                    if o is not None and was:
                        ctx.check("a restricted value of a filler is the last tick", o.first_tick is f.last_tick and o.last_tick is f.last_tick)
                    ctx.cover("filler")
                    continue
                s_ = Summary(ctx)
                for x in mine:
                    s_.add(x[0])
                ctx.check("an unrestricted indicator takes all ticks", s_.same(a))
                if k == "C":
                    for v in (a, o):
                        if v is not None:
                            ctx.check("a candle is that of its ticks", ctx.And(ctx.near(v.open, v.first_tick.value), ctx.near(v.high, v.high_tick.value), ctx.near(v.low, v.low_tick.value), ctx.near(v.last, v.last_tick.value)))
                ctx.check("a restricted indicator has a value once a tick came while open", (o is not None) == bool(of))
                if of and o is not None:
                    s_ = Summary(ctx)
                    for x in of:
                        s_.add(x)
                    ctx.check("a restricted value summarises the ticks received while open", s_.same(o))
                    ctx.cover("mixed frame" if len(of) < len(mine) else "open frame")
                if not of:
                    ctx.cover("closed frame")
    ctx.observe("n", len(fs.frames))


_D = (2020, 6, 1)
_Q = [dict(unit="HOUR", q=1, lo=_D + (9, 30), hi=_D + (11, 30), ticks=3), dict(unit="HOUR", q=12, lo=_D + (9,), hi=_D + (11, 59), ticks=4, kinds=("C", "H")),
      dict(unit="TICK", q=2, lo=_D + (9, 30), hi=_D + (11, 30), ticks=4, kinds=("P",)), dict(unit="MINUTE", q=30, lo=_D + (9, 20), hi=_D + (11, 40), ticks=3, m=2),
      dict(unit="DAY", q=1, lo=_D, hi=(2020, 6, 2, 23, 59, 59, 999999), ticks=3, kinds=("S",)), dict(unit="TICK", q=3, lo=_D + (9, 30), hi=_D + (11, 30), ticks=3, prices=True)]
_T = [dict(unit="HOUR", q=1, lo=_D + (9, 30), hi=_D + (11, 30), ticks=4), dict(unit="HOUR", q=12, lo=_D + (9,), hi=_D + (11, 59), ticks=6, kinds=("C", "H")),
      dict(unit="TICK", q=2, lo=_D + (9, 30), hi=_D + (11, 30), ticks=6, kinds=("P", "C")), dict(unit="MINUTE", q=30, lo=_D + (9, 20), hi=_D + (11, 40), ticks=4, m=2),
      dict(unit="DAY", q=1, lo=_D, hi=(2020, 6, 3, 23, 59, 59, 999999), ticks=4, kinds=("S",)), dict(unit="TICK", q=3, lo=_D + (9, 30), hi=_D + (11, 30), ticks=5, prices=True)]
HARNESSES = [H(hours, _Q, _T, covers=["mixed frame", "closed frame", "open frame", "filler"],
               bounds="3-4 (thorough 6) ticks at any microseconds of up to 2 (3) days around a market open from 10:00 to 11:00, frames of hours, half hours, days and 2-3 ticks, "
                      "candles, Heikin-Ashi candles, pivots and moving averages with and without market_open_only")]
