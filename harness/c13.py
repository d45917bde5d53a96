"""C13 A strategy callback sees a state that already includes the tick."""
from symx.h import H
from harness.common import *


def inside(ctx, ticks, frames, act, hours=False, prices=True, nstrat=2, kinds=("tick",), span=10, held=False):
    import arrow
    import datetime
    L = ctx.lib()

    class CountValue(L.BaseIndicatorValue):
        def __init__(self, *a, **k):
            L.BaseIndicatorValue.__init__(self, *a, **k)
            self.n = 1

        def on_new_tick(self, tick, market_open):
            L.BaseIndicatorValue.on_new_tick(self, tick, market_open)
            self.n += 1

    # hours: the market opens in the middle of the span; hours="close": it closes there
    kw = {}
    if hours == "close":
        kw = dict(open_time=datetime.time(8), close_time=datetime.time(10, 0, span // 2))
    elif hours:
        kw = dict(open_time=datetime.time(10, 0, span // 2), close_time=datetime.time(12, 0))
    ep = epic(ctx, **kw)
    for unit, q in frames:
        fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="%s%d" % (unit, q))
        fs.add_indicator(L.CandleSet(ref="C"))
        fs.add_indicator(L.BaseIndicator(value_class=CountValue, ref="N"))
        ep.add_frame_set(fs)
    cur = {}
    trades = []

    def look(st, what, e):
        t, inst, is_open = cur["t"], cur["inst"], cur["open"]
        ctx.check("last tick in a callback", e.last_tick is t and e is ep)
        ctx.check("market state in a callback", ctx.Iff(is_open, bool(e.market_open)))
        for fs in e.frame_sets.values():
            f = fs.current
            ctx.check("the current frame includes the tick", f is not None and f.last_tick is t and f is e.get_frame(fs.ref))
            v = e.get_indicator_value(fs.ref, "C")
            ctx.check("the indicators include the tick", v is not None and v.last_tick is t)
            n = e.get_indicator_value(fs.ref, "N")
            ctx.check("an indicator got every tick of its frame once", ctx.eq(n.n, f.nb_ticks))
            if fs.unit == L.Unit.TICK:
                ctx.check("a tick frame set got every tick once", sum(x.nb_ticks for x in fs.frames) == cur["n"])
        for tr in trades:
            if not tr.closed:
                ctx.check("open trades are marked at the tick", ctx.near(tr.current_close_value, side(ctx, is_buy(ctx, tr), t)[1]))
                ctx.check("result in a callback",
                          ctx.near(tr.opened_result, pnl(ctx, is_buy(ctx, tr), ctx.N(tr.open_value), side(ctx, is_buy(ctx, tr), t)[1]) * tr.opened_quantities))
        if act and st.ref == "S0" and what in kinds:
            op = ctx.choice("op%d%s" % (cur["n"], what), ("none", "buy", "sell", "close"))
            if op in ("buy", "sell"):
                tr = st.open_trade(epic=e, direction=direction(ctx, op == "buy"), quantity=2, ref="t%d" % len(trades))
                o, c = side(ctx, op == "buy", t)
                ctx.check("a trade opened in a callback is priced and dated at the tick",
                          ctx.And(ctx.near(tr.open_value, o), ctx.near(tr.current_close_value, c), ctx.eq(ctx.instant(tr.datetime), inst)))
                if tr in st.trades:
                    trades.append(tr)
                ctx.cover("opened")
            elif op == "close":
                for tr in list(st.get_trades(open_only=True)):
                    cl = st.close_trade(trade=tr, quantity=1)
                    ctx.check("a close made in a callback is priced and dated at the tick",
                              ctx.And(ctx.near(cl.close_value, side(ctx, is_buy(ctx, tr), t)[1]), ctx.eq(ctx.instant(cl.datetime), inst)))
                    ctx.cover("closed")

    class Rec(L.BaseStrategy):
        def on_market_open(self, epic):
            look(self, "open", epic)

        def on_market_close(self, epic):
            look(self, "close", epic)

        def on_every_tick_market_open(self, epic):
            look(self, "tick_open", epic)

        def on_every_tick(self, epic):
            cur["called"] += 1
            look(self, "tick", epic)

    sts = [Rec(ref="S%d" % i) for i in range(nstrat)]
    for s in sts:
        ep.add_strategy(s)
    prev = None
    for n in range(ticks):
        if span == "any":
            dt = paced(ctx, "t%d" % n, prev and dt, "any")
        elif span:
            dt = ctx.dt("t%d" % n, (2020, 6, 1, 10), (2020, 6, 1, 10, 0, span), utc())
        else:
            dt = at(10, 0, n * 2)
        inst = ctx.instant(dt)
        if prev is not None:
            ctx.assume(ctx.ge(inst, prev))
        prev = inst
        t = cent_tick(ctx, "p%d" % n, dt, -2000, 2000, 100) if prices else ctx.tick(dt, 10.0 + n, 11.0 + n)
        is_open = True
        if hours:
            tod, edge = ctx.mod(inst, DAY_US), 10 * HOUR_US + (span // 2) * 10 ** 6
            is_open = ctx.le(tod, edge) if hours == "close" else ctx.ge(tod, edge)
        cur.update(t=t, inst=inst, open=is_open, n=n + 1, called=0)
        ep.on_new_tick(t)
        ctx.check("every strategy was called", cur["called"] == nstrat)
        if held and not n:
            # trades held over the change of the market state
            trades += [sts[0].open_trade(epic=ep, direction=direction(ctx, b), quantity=3, ref="h%d" % b) for b in (1,)]
            trades += [sts[-1].open_trade(epic=ep, direction=direction(ctx, 1), quantity=2, ref="h2")]
        if held == "idle" and not n:
            # of a stopped and a paused strategy, one not attached and none at all
            idle = [L.BaseStrategy(ref="I%d" % i) for i in range(3)]
            idle[0].stopped, idle[1].paused_until = True, arrow.get(at(23))
            ep.add_strategy(idle[0])
            ep.add_strategy(idle[1])
            trades += [s.open_trade(epic=ep, direction=direction(ctx, i % 2), quantity=1, ref="h2") for i, s in enumerate(idle)]
            trades.append(ep.open_trade(direction=direction(ctx, 0), quantity=1))
    ctx.observe("frames", [len(fs.frames) for fs in ep.frame_sets.values()])


_F = (("TICK", 2), ("SECOND", 5), ("MINUTE", 1))
_Q = [dict(ticks=3, frames=_F, act=False), dict(ticks=3, frames=(("SECOND", 2),), act=False, hours=True, prices=False),
      dict(ticks=3, frames=(("TICK", 1),), act=True, span=0, prices=False), dict(ticks=2, frames=(("SECOND", 5),), act=True, hours=True, prices=False,
                                                                       kinds=("open", "tick_open")),
      dict(ticks=2, frames=(("TICK", 2),), act=True, span=0, nstrat=1)]
_Q += [dict(ticks=3, frames=(("SECOND", 2), ("TICK", 2)), act=False, hours=h, held=True) for h in ("open", "close")]
_Q += [dict(ticks=3, frames=(("SECOND", 2), ("TICK", 2)), act=False, hours=h, held="idle", prices=False) for h in (False, "open", "close")]
_Q += [dict(ticks=2, frames=tuple(("TICK", q) for q in range(1, 13)), act=False, prices=False), dict(ticks=2, frames=(("SECOND", 2), ("MINUTE", 1), ("HOUR", 1), ("DAY", 1), ("TICK", 2)), act=False, prices=False)]
_T0 = [dict(ticks=4, frames=(("SECOND", 2), ("TICK", 2)), act=False, hours=h, held=True) for h in ("open", "close")]
_Q += [dict(ticks=3, frames=(("TICK", 1),), act=True, span="any", nstrat=1, kinds=("tick_open",))]
_T = [dict(ticks=4, frames=(("TICK", 1),), act=True, span="any", nstrat=1, kinds=("tick_open",)),
      dict(ticks=4, frames=_F, act=False), dict(ticks=4, frames=(("SECOND", 2),), act=False, hours=True, prices=False),
      dict(ticks=4, frames=(("TICK", 1),), act=True, span=0, prices=False),
      dict(ticks=3, frames=(("SECOND", 5),), act=True, hours=True, prices=False, kinds=("open", "tick_open", "tick")),
      dict(ticks=3, frames=(("TICK", 2),), act=True, span=0, nstrat=1)]
_T += _T0
HARNESSES = [H(inside, _Q, _T, covers=["opened", "closed"],
               bounds="2-3 (thorough 4) ticks at any microseconds of 10 s, prices within +-20.00 on the cent grid, three frame sets with a candle and a counting "
                      "indicator, two strategies, one of which may open, hold over the opening or closing of the market, or partly close trades (quantity 2) in any callback; trades of stopped, paused, unattached and no strategies are held too")]
