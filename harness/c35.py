"""C35 Trading from a callback equals trading right after the tick."""
from symx.h import H
from harness.common import *


def outcome(t):
    return [t.open_value, t.result, t.max_result, t.min_result, t.opened_result, t.closed_result, t.current_close_value]


class World:
    def __init__(self, ctx, inside, nstrat, kind, frames):
        L = self.L = ctx.lib()
        self.ctx, self.inside, self.kind = ctx, inside, kind
        me = self

        class Rec(L.BaseStrategy):
            def on_every_tick(self, epic):
                if me.inside and me.kind == "tick":
                    me.act(self)

            def on_every_tick_market_open(self, epic):
                if me.inside and me.kind == "tick_open":
                    me.act(self)
        self.ep = epic(ctx)
        if frames:
            self.ep.add_frame_set(L.FrameSet(unit=L.Unit.TICK, unit_quantity=2, ref="F"))
        self.sts = [Rec(ref="S%d" % i) for i in range(nstrat)]
        for s in self.sts:
            self.ep.add_strategy(s)
        self.ops = {}
        self.trades = []

    def act(self, s):
        op, q, k = self.ops.get(s.ref, ("none", 0, 0))
        mine = [t for t in self.trades if t.strategy is s and not t.closed]
        if op in ("buy", "sell"):
            t = s.open_trade(epic=self.ep, direction=direction(self.ctx, op == "buy"), quantity=q, ref="t")
            self.trades.append(t)
        elif op == "close" and mine:
            s.close_trade(trade=mine[k % len(mine)], quantity=q)
        elif op == "all":
            s.close_opened_trades()

    def tick(self, dt, bid, ask, ops):
        self.ops = ops
        self.ep.on_new_tick(self.ctx.tick(dt, bid, ask))
        if not self.inside:
            for s in self.sts:
                self.act(s)


def equal(ctx, ticks, nstrat, ops, qmax, lo, hi, kind="tick", frames=False, pace="steady"):
    dt = None
    a, b = World(ctx, True, nstrat, kind, frames), World(ctx, False, nstrat, kind, frames)
    for n in range(ticks):
        bid, ask = ctx.prices("p%d" % n, lo, hi, 10)
        dt = paced(ctx, "t%d" % n, dt, pace)
        todo = {}
        if n < ticks - 1:
            for s in range(nstrat):
                op = ctx.choice("op%d.%d" % (n, s), ops)
                if op != "none":
                    todo["S%d" % s] = (op, ctx.int("q%d.%d" % (n, s), 1, qmax) if op != "all" else 0, n)
        for w in (a, b):
            w.tick(dt, bid, ask, todo)
        ctx.check("the same trades", len(a.trades) == len(b.trades) and len(a.ep.trade_provider.trades) == len(b.ep.trade_provider.trades))
        for s, t in zip(a.sts, b.sts):
            ctx.check("the strategies hold the same trades", [any(x is y for y in s.trades) for x in a.trades] == [any(x is y for y in t.trades) for x in b.trades])
            ctx.check("the same result of a strategy", ctx.near(s.result(), t.result()))
        for x, y in zip(a.trades, b.trades):
            ctx.check("the same quantities", ctx.And(ctx.eq(x.opened_quantities, y.opened_quantities), ctx.eq(x.closed_quantities, y.closed_quantities),
                                                    ctx.eq(x.open_quantity, y.open_quantity)))
            ctx.check("the same values", ctx.And(*[ctx.near(u, v) for u, v in zip(outcome(x), outcome(y))]))
            ctx.check("the same date", same_instant(ctx, x.datetime, y.datetime))
            ctx.check("the same closes", len(x.closes) == len(y.closes) and ctx.And(*[ctx.And(ctx.near(c.close_value, d.close_value), ctx.eq(c.quantity, d.quantity),
                                                                                               same_instant(ctx, c.datetime, d.datetime)) for c, d in zip(x.closes, y.closes)]))
            if x.closes:
                ctx.cover("closed")
        if a.trades:
            ctx.cover("opened")
    ctx.observe("r", [s.result() for s in a.sts])


_O = ("none", "buy", "sell", "close", "all")
_Q = [dict(ticks=3, nstrat=1, ops=_O, qmax=5, lo=-100, hi=100), dict(ticks=3, nstrat=2, ops=("none", "buy", "sell"), qmax=3, lo=0, hi=50),
      dict(ticks=3, nstrat=1, ops=("buy", "sell", "all"), qmax=5, lo=0, hi=100, kind="tick_open", frames=True)]
_Q += [dict(ticks=3, nstrat=1, ops=("none", "buy", "close"), qmax=3, lo=-50, hi=50, pace=p) for p in ("same", "any")]
_T = [dict(ticks=3, nstrat=1, ops=_O, qmax=5, lo=-100, hi=100, pace=p) for p in ("same", "any")] + [dict(ticks=4, nstrat=1, ops=_O, qmax=5, lo=-100, hi=100), dict(ticks=3, nstrat=2, ops=_O, qmax=3, lo=0, hi=50),
      dict(ticks=4, nstrat=1, ops=("buy", "sell", "all"), qmax=5, lo=0, hi=100, kind="tick_open", frames=True)]
HARNESSES = [H(equal, _Q, _T, covers=["opened", "closed"],
               bounds="3 (thorough 4) ticks of any prices within +-1.00, ticks a second apart, at the same instant or at any microseconds, one or two strategies each opening a BUY or SELL of 1-5, closing part of a trade or closing all its trades "
                      "at every tick but the last, inside on_every_tick or on_every_tick_market_open")]
