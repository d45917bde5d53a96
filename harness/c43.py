"""C43 A failed call changes nothing else."""
from symx.h import H
from harness.common import *
from harness.c12 import recorder
from harness.c20 import make
from harness.c42 import same_values


class Broken(Exception):
    pass


class World:
    def __init__(self, ctx, unit, q, refs, closed, nstrat):
        L = ctx.lib()
        self.ctx = ctx
        self.ep = market(ctx, closed)
        self.fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F")
        for i in make(ctx, L, refs):
            self.fs.add_indicator(i)
        self.ep.add_frame_set(self.fs)
        Rec = recorder(L)
        self.sts = [Rec(ref="S%d" % i) for i in range(nstrat)]
        for s in self.sts:
            self.ep.add_strategy(s)
        self.st = self.sts[0]
        self.trades = []
        self.fails = None    # (index of the strategy, callback) of this tick
        self.failed = False
        for i, s in enumerate(self.sts):
            s.act = self.act(i)

    def act(self, i):
        def do(st, what, ep):
            if i == 0 and self.fresh and len(self.trades) < 2:
                # a trade opened in a callback stays, whatever fails afterwards
                self.trades.append(st.open_trade(epic=ep, direction=direction(self.ctx, True), quantity=2, ref="c%d" % len(self.trades)))
            self.fresh = self.fresh and i != 0
            if self.fails == (i, what):
                self.failed = True
                raise Broken(what)
        return do


def faults(ctx, steps, ops, kinds, unit="SECOND", q=2, refs=("C",), closed=None, nstrat=2, lo=-300, hi=300, smax=4, qmax=3, once=True, gap=1):
    """two worlds; in the second one a call fails after every step, or a callback within it"""
    import datetime
    L = ctx.lib()
    A, B = World(ctx, unit, q, refs, closed, nstrat), World(ctx, unit, q, refs, closed, nstrat)
    now = None
    done = False
    for n in range(steps):
        op = ctx.choice("op%d" % n, ops) if n and len(ops) > 1 else "tick"
        kind = "none" if once and done else ctx.choice("fault%d" % n, kinds)
        done = done or kind != "none"
        before = [len(s.calls) for s in B.sts], [len(s.calls) for s in A.sts]
        if op == "tick":
            now = later(at(10), seconds=n * gap)
            bid, ask = ctx.prices("t%d" % n, lo, hi, smax)
            where = None
            if kind == "callback":
                where = ctx.pyint("who%d" % n, 0, nstrat - 1), ctx.choice("what%d" % n, ("open", "close", "tick_open", "tick"))
            for w in (A, B):
                w.fails, w.failed, w.fresh = where if w is B else None, False, True
                t = ctx.tick(now, bid, ask)
                try:
                    w.ep.on_new_tick(t)
                    ctx.check("a failure reaches the feeder", not w.failed)
                except Broken:
                    ctx.check("only a failing callback raises", w.failed)
                    ctx.cover("failing callback")
                ctx.check("the tick counts", w.ep.last_tick is t)
        elif op == "open":
            buy, k = bool(ctx.pyint("buy%d" % n, 0, 1)), ctx.int("q%d" % n, 1, qmax)
            for w in (A, B):
                w.trades.append(w.sts[-1].open_trade(epic=w.ep, direction=direction(ctx, buy), quantity=k, ref="t%d" % n))
        else:
            for w in (A, B):
                if w.trades and not w.trades[0].closed:
                    w.st.close_trade(w.trades[0], quantity=1)
        for i, (a, b) in enumerate(zip(A.sts, B.sts)):
            x, y = [c[0] for c in a.calls[before[1][i]:]], [c[0] for c in b.calls[before[0][i]:]]
            who = B.fails[0] if op == "tick" and B.failed else nstrat
            if i < who:
                ctx.check("callbacks of the strategies before", x == y)
            else:
                ctx.check("callbacks up to the failure", y == (x[:x.index(B.fails[1]) + 1] if i == who else []))
        if kind != "callback" and kind != "none":
            broken(ctx, B, kind, now)
            ctx.cover(kind)
        for i in range(nstrat):
            ctx.check("trades of a strategy", [t.ref for t in A.sts[i].trades] == [t.ref for t in B.sts[i].trades])
            ctx.check("result of a strategy", ctx.near(A.sts[i].result(), B.sts[i].result()))
            ctx.check("a strategy's state", (A.sts[i].stopped, A.sts[i].paused_until) == (B.sts[i].stopped, B.sts[i].paused_until))
        ctx.check("registered trades", [t.ref for t in A.ep.trade_provider.trades] == [t.ref for t in B.ep.trade_provider.trades])
        ctx.check("requests", len(A.ep.trade_provider.threads) == len(B.ep.trade_provider.threads))
        ctx.check("counts", [f.nb_ticks for f in A.fs.frames] == [f.nb_ticks for f in B.fs.frames])
        ctx.check("parts", (list(A.ep.frame_sets), list(A.ep.strategies), A.ep.timezone) == (list(B.ep.frame_sets), list(B.ep.strategies), B.ep.timezone))
        A.st.calls, B.st.calls, keep = [], [], (A.st.calls, B.st.calls)
        same_values(ctx, A, B, refs)
        A.st.calls, B.st.calls = keep
        ctx.observe("n%d" % n, [A.st.result(), B.st.result(), len(B.fs.frames)])


def broken(ctx, w, kind, now):
    """one call that has to be refused"""
    import arrow
    import datetime
    from estrade.exceptions import EpicException, TickException, TimeException, TimeFrameException, TradeException
    L = ctx.lib()
    ep, st = w.ep, w.st
    D = direction(ctx, False)
    if kind == "direction":
        ctx.check("an unknown direction is refused", ctx.raises(TradeException, st.open_trade, epic=ep, direction="up", quantity=1, ref="x"))
        ctx.check("an unknown direction is refused", ctx.raises(TradeException, ep.open_trade, direction=None, quantity=1, ref="x"))
    elif kind == "argument":
        ctx.check("an unknown argument is refused", ctx.raises(Exception, st.open_trade, epic=ep, direction=D, quantity=9, ref="x", stop=3))
        ctx.check("a missing quantity is refused", ctx.raises(Exception, ep.open_trade, direction=D, strategy=st, ref="x"))
        ctx.check("a reference of no epic is refused", ctx.raises(Exception, st.open_trade, epic=None, direction=D, quantity=1))
    elif kind == "close":
        for t in w.trades:
            if not t.closed:
                ctx.check("a close with an unknown argument is refused", ctx.raises(Exception, st.close_trade, t, value=3))
                ctx.check("a close without timezone is refused", ctx.raises(TimeException, t.close, close_value=1.0, datetime=datetime.datetime(2020, 6, 1, 12), quantity=1))
    elif kind == "tick":
        ctx.check("an older tick is refused", ctx.raises(EpicException, ep.on_new_tick, ctx.tick(later(now, microseconds=-1), 999.0, 999.5)))
        ctx.check("a tick with an invalid spread is refused", ctx.raises(TickException, ctx.tick, later(now, seconds=9), 9.5, 9.0))
    else:
        ctx.check("a second frame set is refused", ctx.raises(EpicException, ep.add_frame_set, L.FrameSet(unit=L.Unit.TICK, unit_quantity=1, ref="F")))
        ctx.check("a second strategy is refused", ctx.raises(EpicException, ep.add_strategy, L.BaseStrategy(ref="S0")))
        ctx.check("an invalid frame set is refused", ctx.raises(TimeFrameException, L.FrameSet, unit=L.Unit.MINUTE, unit_quantity=7))

        def zone(z):
            ep.timezone = z
        ctx.check("an unknown zone is refused", ctx.raises(EpicException, zone, "Mars/Olympus"))
        ctx.check("an unknown frame set has no frame", ctx.raises(Exception, ep.get_frame, "Z"))


_K = ("none", "direction", "argument", "close", "tick", "setting")
_Q = [dict(steps=3, ops=("tick", "open", "close"), kinds=_K, lo=-30, hi=30, smax=0), dict(steps=3, ops=("tick",), kinds=("none", "callback"), refs=("C", "P")),
      dict(steps=3, ops=("tick",), kinds=("none", "callback"), closed=1, refs=("C",), smax=0), dict(steps=3, ops=("tick", "open"), kinds=("none", "callback"), unit="TICK", q=2, refs=("S",), nstrat=1, smax=0),
      dict(steps=3, ops=("tick", "open"), kinds=("argument", "close", "tick"), nstrat=1, lo=-30, hi=30, smax=2, refs=(), once=False),
      dict(steps=3, ops=("tick",), kinds=("none", "tick", "callback"), unit="TICK", q=3, nstrat=1, refs=(), lo=0, hi=9, smax=0, gap=30000),
      dict(steps=3, ops=("tick",), kinds=("none", "callback"), nstrat=3, closed=2, refs=(), lo=0, hi=9, smax=0),
      dict(steps=2, ops=("tick",), kinds=("callback",), nstrat=2, closed=1, refs=("C",), smax=0, once=False)]
_T = [dict(steps=3, ops=("tick", "open", "close"), kinds=_K), dict(steps=4, ops=("tick",), kinds=("none", "callback"), refs=("C", "P")),
      dict(steps=4, ops=("tick",), kinds=("none", "callback"), closed=2, refs=("C",), smax=0), dict(steps=4, ops=("tick", "open", "close"), kinds=("direction", "callback"), unit="TICK", q=2, refs=("S",), nstrat=2, smax=0),
      dict(steps=4, ops=("tick", "open"), kinds=("argument", "close", "tick"), nstrat=1, lo=-30, hi=30, smax=2, refs=(), once=False)]
HARNESSES = [H(faults, _Q, _T, covers=["failing callback", "direction", "argument", "close", "tick", "setting", "trade", "indicator"],
               bounds="two copies of an epic with 1-3 strategies (the first opens trades in its callbacks), frames of 2 seconds or 2 ticks and candles, pivots or averages; 2-3 (thorough 3-4) ticks, openings and closes in an order chosen by "
                      "the solver; in one copy after each step orders, closes, ticks or settings that are refused, or any callback of any strategy raising, once or after every step; prices of +-3.00 on the cent grid, market open or opening after a while")]
