"""C07 Every trade and close reaches the provider exactly once, on any schedule."""
from symx.h import H
from harness.common import *


def _providers(ctx):
    from estrade.trade_provider import BaseTradeProvider, TradeProviderBacktests

    class Live(BaseTradeProvider):
        def open_trade_request(self, trade):
            self.opened.append(trade)
            return trade

        def close_trade_request(self, trade_close):
            self.closed.append(trade_close)
            return trade_close

    class Back(TradeProviderBacktests):
        def open_trade_request(self, trade):
            self.opened.append(trade)
            return super().open_trade_request(trade)

        def close_trade_request(self, trade_close):
            self.closed.append(trade_close)
            return super().close_trade_request(trade_close)
    return Live, Back


class World:
    def __init__(self, ctx, cls, tag):
        L = ctx.lib()
        self.tp = cls()
        self.tp.opened, self.tp.closed = [], []
        self.ep = epic(ctx, "E" + tag, trade_provider=self.tp)
        self.st = L.BaseStrategy(ref="S" + tag)
        self.ep.add_strategy(self.st)
        self.trades = []

    def state(self):
        return [(t.opened_quantities, t.closed_quantities, t.result) for t in self.trades]


def given_status(ctx, name):
    S = ctx.lib().TransactionStatus
    st = ctx.choice(name, list(S) + [None])
    if st is None:
        return {}
    ctx.cover("a given status")
    return {"status": st}


def requests(ctx, live, steps, ops, qmax, halt=False, status=False, ref=None):
    L = ctx.lib()
    Live, Back = _providers(ctx)
    sched = ctx.threads()
    w = World(ctx, Live if live else Back, "a")
    twin = World(ctx, Live if live else Back, "b")
    if halt:
        twin.st.stopped = halted(ctx, "halt", w.st).stopped
        twin.st.paused_until = w.st.paused_until
        ctx.cover("halted")
    now = at(10)

    def settle():
        # the twin's threads run at once
        for t in [t for t in sched.pending if t not in mine]:
            t.execute()
    mine = []

    def both(f):
        r = []
        for x in (w, twin):
            known = list(sched.pending)
            r.append(f(x))
            new = [t for t in sched.pending if t not in known]
            if x is w:
                mine.extend(new)
            else:
                settle()
        return r

    both(lambda x: x.ep.on_new_tick(ctx.tick(now, 100.0, 100.5 if "tick" in ops else 100.0)))
    made = []
    for i in range(steps):
        op = ctx.choice("op%d" % i, ops)
        if op == "tick":
            both(lambda x: x.ep.on_new_tick(ctx.tick(later(now, seconds=i + 1), 101.0 + i, 101.25 + i)))
        elif op == "run":
            todo = [t for t in mine if t in sched.pending]
            if not todo:
                return
            todo[ctx.pyint("k%d" % i, 0, len(todo) - 1)].execute()
            ctx.cover("a request runs in between")
        elif op == "open":
            buy, q = ctx.bool("buy%d" % i), ctx.int("q%d" % i, 1, qmax)

            kw = given_status(ctx, "st%d" % i) if status else {}

            def op_(x):
                t = x.st.open_trade(epic=x.ep, direction=direction(ctx, buy), quantity=q, ref=ref or "t%d" % i, **kw)
                if any(y is t for y in x.tp.trades):
                    x.trades.append(t)
                return t
            t = both(op_)[0]
            if any(y is t for y in w.tp.trades):
                ctx.cover("opened")
            else:
                ctx.cover("netted away")
        else:
            cand = [k for k, t in enumerate(w.trades) if not t.closed]
            if not cand:
                return
            k = cand[ctx.pyint("c%d" % i, 0, len(cand) - 1)]
            kw = {} if ctx.bool("all%d" % i) else {"quantity": ctx.int("cq%d" % i, 1, qmax)}
            if status:
                kw.update(given_status(ctx, "st%d" % i))
            if op == "close":
                both(lambda x: x.ep.close_trade(trade=x.trades[k], **kw))
            else:
                both(lambda x: x.st.close_trade(x.trades[k], **kw))
        pend = [t for t in mine if t in sched.pending]
        ctx.check("alive exactly while a request is unfinished", bool(w.tp.is_alive) == bool(pend))
        for (a, b, r), (a2, b2, r2) in zip(w.state(), twin.state()):
            ctx.check("quantities and results do not depend on the schedule",
                      ctx.And(ctx.eq(a, a2), ctx.eq(b, b2), ctx.near(r, r2)))
        ctx.observe("n%d" % i, [len(w.tp.opened), len(w.tp.closed), len(pend)])
    k = 0
    while True:
        todo = [t for t in mine if t in sched.pending]
        if not todo:
            break
        if len(todo) > 1:
            k += 1
            todo[ctx.pyint("end%d" % k, 0, 1) * (len(todo) - 1)].execute()
        else:
            todo[0].execute()
        ctx.cover("requests run late")
    ctx.check("finished", not w.tp.is_alive)
    for t in mine:
        ctx.check("no request fails", t.error is None)
    ctx.check("registered trades are the provider's", len(w.tp.trades) == len(w.trades) and all(a is b for a, b in zip(w.tp.trades, w.trades)))
    ctx.check("the strategy's trades are the same", len(w.st.trades) == len(w.trades) and all(a is b for a, b in zip(w.st.trades, w.trades)))
    ctx.check("one open request per registered trade", len(w.tp.opened) == len(w.trades) and
              all(sum(x is t for x in w.tp.opened) == 1 for t in w.trades))
    closes = [c for t in w.trades for c in t.closes]
    ctx.check("one close request per close", len(w.tp.closed) == len(closes) and
              all(sum(x is c for x in w.tp.closed) == 1 for c in closes))
    if not live:
        conf = ctx.lib().TransactionStatus.CONFIRMED
        ctx.check("trades confirmed", all(t.status == conf for t in w.trades))
        ctx.check("closes confirmed", all(c.status == conf for c in closes))


def backlog(ctx, live, n):
    """the provider is alive as long as any of many requests is unfinished, whichever"""
    Live, Back = _providers(ctx)
    sched = ctx.threads()
    w = World(ctx, Live if live else Back, "a")
    w.ep.on_new_tick(ctx.tick(at(10), 100.0, 100.5))
    for i in range(n):
        if i % 3 == 2:
            w.st.close_trade(w.trades[-1], quantity=1)
        else:
            w.trades.append(w.st.open_trade(epic=w.ep, direction=direction(ctx, True), quantity=3, ref="t%d" % i))
    k = ctx.pyint("last", 0, n - 1)
    todo = list(sched.pending)
    ctx.check("one request per trade and close", len(todo) == n)
    if ctx.bool("backwards"):
        todo.reverse()
    late = todo.pop(k)
    for t in todo + [late]:
        ctx.check("alive while a request is unfinished", bool(w.tp.is_alive))
        t.execute()
    ctx.check("finished", not w.tp.is_alive)
    ctx.check("every trade and close requested once", len(w.tp.opened) == len(w.trades) and all(a in w.tp.opened for a in w.trades) and
              len(w.tp.closed) == n - len(w.trades))
    ctx.cover("backlog")


_O = ["open", "close", "sclose", "run"]
_Q = [dict(live=True, steps=3, ops=_O, qmax=4), dict(live=False, steps=4, ops=["open", "close", "run"], qmax=4),
      dict(live=False, steps=3, ops=_O + ["tick"], qmax=4), dict(live=True, steps=3, ops=["open", "close"], qmax=3, ref="same"), dict(live=False, steps=3, ops=["open", "close"], qmax=3, ref="same"), dict(live=True, steps=2, ops=_O, qmax=3, halt=True), dict(live=False, steps=2, ops=_O, qmax=3, halt=True)] + [dict(live=l, steps=2, ops=["open", "close"], qmax=2, status=True) for l in (True, False)]
_T = [dict(live=True, steps=5, ops=_O, qmax=6), dict(live=False, steps=5, ops=_O, qmax=6), dict(live=False, steps=4, ops=_O + ["tick"], qmax=6)]
HARNESSES = [H(requests, _Q, _T, odd=(0, 1), covers=["a request runs in between", "opened", "netted away", "requests run late", "halted", "a given status"],
               bounds="3-4 (thorough 4-5) openings, closes, ticks and request executions in an order chosen by the solver; threads run whole, at "
                      "any later point (all orders at request granularity); quantities 1..4 (6), trades and closes made with any initial status, in two configurations all trades with the same reference"),
             H(backlog, [dict(live=l, n=64) for l in (True, False)], [dict(live=l, n=150) for l in (True, False)], covers=["backlog"],
               bounds="64 (thorough 150) unfinished requests, run in order or backwards but for one chosen by the solver, run last")]
