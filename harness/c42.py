"""C42 Repeated and inner ticks change nothing but counts."""
from fractions import Fraction

from symx.h import H
from harness.common import *
from harness.twins import World, TINY
from harness.c20 import ATTRS


def feed(ctx, L, w, dt, b, a):
    w.ep.on_new_tick(ctx.tick(dt, ctx.cents(b), ctx.cents(a)))


def repeated(ctx, steps, unit, q, refs, lo, hi, smax, times=None, closed=None, m=100, most=2, trade=True, ops=("tick",), qmax=3, late=False):
    """one epic gets some ticks again: at the same instant, or later in the same period (late)"""
    L = ctx.lib()
    A, B = World(ctx, unit, q, m, refs, closed), World(ctx, unit, q, m, refs, closed)
    worlds = (A, B)
    prev = None
    for n in range(steps):
        op = ctx.choice("op%d" % n, ops) if n and len(ops) > 1 else "tick"
        if op == "tick":
            prev, again = moment(ctx, n, times, prev), 0
            b = ctx.int("b%d" % n, lo, hi)
            a = b + (ctx.int("s%d" % n, 0, smax) if smax else 0)
            for w in worlds:
                feed(ctx, L, w, prev, b, a)
        else:
            for w in worlds:
                if op == "sweep":
                    w.st.close_opened_trades()
                elif w is A or buy is not None:
                    if w is A:
                        buy, k = bool(ctx.pyint("buy%d" % n, 0, 1)), ctx.int("q%d" % n, 1, qmax)
                    w.trades.append(w.st.open_trade(epic=w.ep, direction=direction(ctx, buy), quantity=k, ref="t%d" % n))
        if op == "tick" and trade and n == 0:
            buy = bool(ctx.pyint("buy", 0, 1))
            for w in worlds:
                w.trades.append(w.st.open_trade(epic=w.ep, direction=direction(ctx, buy), quantity=3, ref="t"))
        extra = ctx.pyint("extra%d" % n, 0, most)
        for k in range(extra):
            # `late`: a second later, which is in the same period in the configurations that ask for it
            again += 1
            feed(ctx, L, B, later(prev, seconds=again) if late else prev, b, a)
            ctx.cover("repeated")
        same_values(ctx, A, B, refs)
        ctx.observe("n%d" % n, [A.st.result(), B.st.result(), len(A.fs.frames), [t.max_result for t in B.trades]])


def same_values(ctx, A, B, refs, trades=True):
    ctx.check("market state", bool(A.ep.market_open) == bool(B.ep.market_open))
    ctx.check("opening and closing of the market", [x[0] for x in A.st.calls if x[0] in ("open", "close")] == [x[0] for x in B.st.calls if x[0] in ("open", "close")])
    ctx.check("last tick", ctx.And(ctx.near(A.ep.last_tick.bid, B.ep.last_tick.bid), ctx.near(A.ep.last_tick.ask, B.ep.last_tick.ask)))
    for a, b in zip(A.trades, B.trades) if trades else ():
        ctx.check("trades", ctx.And(ctx.near(a.result, b.result), ctx.near(a.max_result, b.max_result), ctx.near(a.min_result, b.min_result),
                                    ctx.eq(a.opened_quantities, b.opened_quantities), ctx.near(a.opened_result, b.opened_result), ctx.near(a.closed_result, b.closed_result)))
        ctx.check("closes", len(a.closes) == len(b.closes))
        ctx.cover("trade")
    ctx.check("number of frames", len(A.fs.frames) == len(B.fs.frames))
    for f, g in zip(A.fs.frames, B.fs.frames):
        ctx.check("period", f.period_start == g.period_start and f.period_end == g.period_end)
        for n in ("first_tick", "high_tick", "low_tick", "last_tick"):
            ctx.check("ticks of a frame", ctx.near(getattr(f, n).value, getattr(g, n).value))
        for r in refs:
            x, y = f[r], g[r]
            vals = [(getattr(x, n), getattr(y, n)) for n in ATTRS[r]]
            if r == "S":
                vals += [(x.get_value(n), y.get_value(n)) for n in (1, 2)]
            if r in "CH":
                vals += [(x.close, y.close)]
                ctx.check("colour", x.color == y.color)
            for v, w in vals:
                ctx.check("an indicator value is missing in both", (v is None) == (w is None))
                if v is not None:
                    ctx.check("indicator value", ctx.near(v, w))
                    ctx.cover("indicator")


def inner(ctx, steps, unit, q, refs, lo, hi, times, extra):
    """one epic gets, between two ticks of a frame, further ticks within the range of what the frame has seen"""
    L = ctx.lib()
    A, B = World(ctx, unit, q, 100, refs, None), World(ctx, unit, q, 100, refs, None)
    span = None
    for n in range(steps):
        dt = moment(ctx, n, times, None)
        b = ctx.int("b%d" % n, lo, hi)
        if n and times[n] // q == times[n - 1] // q:
            for k in range(ctx.pyint("extra%d" % n, 0, extra)):
                p = ctx.int("in%d.%d" % (n, k), lo, hi)
                ctx.assume(ctx.le(span[0], ctx.N(p)))
                ctx.assume(ctx.le(ctx.N(p), span[1]))
                feed(ctx, L, B, moment(ctx, n, times, None), p, p)
                ctx.cover("inner")
            span = span[0].min(ctx.N(b)), span[1].max(ctx.N(b))
        else:
            span = ctx.N(b), ctx.N(b)
        for w in (A, B):
            feed(ctx, L, w, dt, b, b)
        same_values(ctx, A, B, refs)
        ctx.observe("n%d" % n, len(A.fs.frames))


_Q = [dict(steps=3, unit="SECOND", q=5, refs=("C", "P"), lo=-10 ** 6, hi=10 ** 6, smax=6, times=(0, 1, 6), trade=False), dict(steps=3, unit="SECOND", q=5, refs=(), lo=-10 ** 6, hi=10 ** 6, smax=6, times=(0, 1, 6)),
      dict(steps=4, unit="SECOND", q=5, refs=("O", "S"), lo=-300, hi=300, smax=0, times=(0, 1, 6, 21), most=1, trade=False),
      dict(steps=3, unit="SECOND", q=5, refs=("H",), lo=-300, hi=300, smax=0, times=(0, 6, 12), most=1, trade=False),
      dict(steps=4, unit="SECOND", q=1, refs=("R",), lo=-30, hi=30, smax=0, times=(0, 1, 2, 3), most=1, trade=False),
      dict(steps=3, unit="SECOND", q=5, refs=("C", "P"), lo=-300, hi=300, smax=0, times=("any", 15), closed=4, most=1, trade=False),
      dict(steps=3, unit="MINUTE", q=1, refs=("C", "S"), lo=-300, hi=300, smax=0, times=(0, 30, 70), closed=35, late=True),
      dict(steps=4, unit="HOUR", q=1, refs=(), lo=-60, hi=60, smax=0, times=(0, 10, 20, 30), ops=("tick", "open", "sweep"), trade=False, most=1),
      dict(steps=3, unit="DAY", q=1, refs=("C",), lo=-60, hi=60, smax=2, times=(0, 10, 86400), ops=("tick", "open"), trade=True, most=1, late=True)]
_T = [dict(steps=5, unit="SECOND", q=5, refs=("C", "P", "O", "S"), lo=-10 ** 6, hi=10 ** 6, smax=6, times=(0, 1, 6, 7, 21), most=2),
      dict(steps=4, unit="SECOND", q=5, refs=("H",), lo=-300, hi=300, smax=0, times=(0, 6, 12, 13), most=1, trade=False),
      dict(steps=5, unit="SECOND", q=1, refs=("R",), lo=-30, hi=30, smax=0, times=(0, 1, 2, 3, 4), most=1, trade=False),
      dict(steps=4, unit="SECOND", q=5, refs=("C", "P"), lo=-300, hi=300, smax=4, times=("any", 20), closed=4, most=1),
      dict(steps=5, unit="HOUR", q=1, refs=(), lo=-60, hi=60, smax=4, times=(0, 10, 20, 30, 40), ops=("tick", "open", "sweep"), trade=False, most=1)]
_IQ = [dict(steps=4, unit="SECOND", q=5, refs=("C", "P"), lo=-10 ** 6, hi=10 ** 6, times=(0, 1, 2, 6), extra=2),
       dict(steps=4, unit="SECOND", q=5, refs=("O", "S"), lo=-300, hi=300, times=(0, 1, 6, 7), extra=1),
       dict(steps=4, unit="SECOND", q=5, refs=("H",), lo=-300, hi=300, times=(0, 1, 6, 7), extra=1),
       dict(steps=4, unit="SECOND", q=2, refs=("R",), lo=-30, hi=30, times=(0, 1, 2, 4), extra=1)]
_IT = [dict(steps=5, unit="SECOND", q=5, refs=("C", "P", "O", "S"), lo=-10 ** 6, hi=10 ** 6, times=(0, 1, 2, 6, 7), extra=2),
       dict(steps=5, unit="SECOND", q=5, refs=("H",), lo=-300, hi=300, times=(0, 1, 2, 6, 7), extra=1)]
HARNESSES = [H(repeated, _Q, _T, covers=["repeated", "trade", "indicator"], path_s=60,
               bounds="3-4 (thorough 4-5) ticks and operations, each followed by up to two repetitions of the last tick at the same instant or seconds later in the same period; frames of seconds, minutes, hours and days, ticks at given "
                      "times or at any microseconds of 15 seconds, market open or closed, prices of +-10 000.00 or less on the cent grid"),
             H(inner, _IQ, _IT, covers=["inner", "indicator"], path_s=60,
               bounds="4 (thorough 5) ticks in one or two frames, up to two further ticks of any prices within the frame's range before any tick but the first of a frame")]
