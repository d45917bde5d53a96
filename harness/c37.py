"""C37 Live trade providers decide statuses and never net."""
from symx.h import H
from harness.common import *


def live(ctx, steps, qmax, ops, fails, lo, hi, when, halt=False):
    L = ctx.lib()
    S = L.TransactionStatus
    from estrade.trade_provider import BaseTradeProvider
    answers = (S.PENDING, S.CONFIRMED, "fail") if fails else (S.PENDING, S.CONFIRMED)

    late = when == "end"
    noted = fails or late   # the requests also write to the metadata

    class Live(BaseTradeProvider):
        def _answer(self, x, n):
            a = self.plan[id(x)] = ctx.choice("answer%d" % n, answers)
            if a == "fail":
                ctx.cover("request fails")
                raise ValueError("refused by the broker")
            x.status = a
            if noted:
                x.meta["broker"] = n

        def open_trade_request(self, trade):
            self.asked.append(trade)
            self._answer(trade, len(self.asked))
            return trade

        def close_trade_request(self, trade_close):
            self.asked.append(trade_close)
            self._answer(trade_close, len(self.asked))
            return trade_close
    if when == "start":
        sched = ctx.threads("now")
        ctx.cover("request over before open_trade returns")
    else:
        sched = ctx.threads()
    tp = Live(ref="live")
    tp.asked, tp.plan = [], {}
    ep = epic(ctx, trade_provider=tp)
    sts = [L.BaseStrategy(ref="S%d" % i) for i in range(2)]
    for i, s in enumerate(sts):
        if halt:
            halted(ctx, "halt%d" % i, s)
            ctx.cover("halted")
        ep.add_strategy(s)
    now = at(10)
    last = cent_tick(ctx, "t", now, lo, hi, 20)
    ep.on_new_tick(last)
    book, items = [], []   # [trade, buy, open quantity, fill price, strategy index]

    def settle():
        for t in list(sched.pending):
            t.execute()
    for n in range(steps):
        op = ctx.choice("op%d" % n, ops)
        if op == "open":
            buy, q = ctx.bool("buy%d" % n), ctx.int("q%d" % n, 1, qmax)
            s = ctx.pyint("s%d" % n, 0, 1) if book else 0
            t = sts[s].open_trade(epic=ep, direction=direction(ctx, buy), quantity=q, ref="t%d" % n)
            book.append([t, buy, ctx.N(q), side(ctx, buy, last)[0], s])
            items.append(t)
            if any(b != buy for _, b, _, _, _ in book[:-1]):
                ctx.cover("both directions")
        elif op == "tick":
            last = cent_tick(ctx, "t%d" % n, later(now, seconds=n + 1), lo, hi, 20)
            ep.on_new_tick(last)
        else:
            if not book:
                return
            k = ctx.pyint("k%d" % n, 0, len(book) - 1)
            if book[k][0].closed:
                return
            q = ctx.int("cq%d" % n, 1, qmax)
            items.append(ep.close_trade(trade=book[k][0], quantity=q))
            book[k][2] = book[k][2] - ctx.N(q).min(book[k][2])
        if not late:
            settle()
        ctx.check("every opened trade is registered", len(tp.trades) == len(book) and all(a is b[0] for a, b in zip(tp.trades, book)))
        for i, s in enumerate(sts):
            mine = [b[0] for b in book if b[4] == i]
            ctx.check("every opened trade is listed by its strategy", len(s.trades) == len(mine) and all(a is b for a, b in zip(s.trades, mine)))
        for t, buy, left, price, _ in book:
            ctx.check("no other trade is closed or resized", ctx.And(ctx.eq(t.opened_quantities, left), ctx.near(t.open_value, price)))
            ctx.check("open trades are marked at the last tick", ctx.Or(t.closed, ctx.near(t.current_close_value, side(ctx, buy, last)[1])))
        ctx.observe("n%d" % n, [len(tp.opened_trades), [t[0].result for t in book]])
    if late:
        for x in items:
            ctx.check("the status is kept until the request runs", x.status == S.CREATED)
    settle()
    ctx.check("every request was made once", len(tp.asked) == len(items) and all(sum(a is x for a in tp.asked) == 1 for x in items))
    for x in items:
        a = tp.plan[id(x)]
        ctx.check("the status is the one set by the request", x.status == (S.CREATED if a == "fail" else a))
        ctx.check("the metadata is the one set by the request", x.meta == ({} if a == "fail" or not noted else {"broker": next(i for i, y in enumerate(tp.asked) if y is x) + 1}))
    ctx.check("no request is left", not tp.is_alive)


def base(ctx, lo, hi):
    """the base class makes no request by itself"""
    L = ctx.lib()
    from estrade.trade_provider import BaseTradeProvider
    tp = BaseTradeProvider()
    tr = L.Trade(direction=direction(ctx, ctx.bool("buy")), quantity=ctx.int("q", 1, 9), open_value=ctx.cents(ctx.int("v", lo, hi)), open_datetime=at(10), epic=epic(ctx))
    ctx.check("no request by default", ctx.raises(NotImplementedError, tp.open_trade_request, tr))
    cl = tr.close(close_value=1.0, datetime=at(11))
    ctx.check("no close request by default", ctx.raises(NotImplementedError, tp.close_trade_request, cl))
    ctx.cover("base")


_O = ("open", "tick", "close")
HARNESSES = [H(live, [dict(steps=3, qmax=5, ops=_O, fails=f, lo=-50, hi=50, when=w) for f in (False, True) for w in ("start", "op", "end")] + [dict(steps=2, qmax=5, ops=("open", "tick"), fails=False, lo=-50, hi=50, when=w, halt=True) for w in ("start", "end")],
               [dict(steps=4, qmax=7, ops=_O, fails=f, lo=-10 ** 4, hi=10 ** 4, when=w) for f in (False, True) for w in ("start", "op", "end")], odd=(0, 1), covers=["both directions", "request fails", "request over before open_trade returns", "halted"],
               bounds="3 (thorough 4) openings, partial closes and ticks of two strategies (active, stopped or paused) in any order, any quantities 1-5 (7), every request answering PENDING, CONFIRMED or failing, "
                      "while the opening or the close is still being made, right after it, or after everything else"),
             H(base, [dict(lo=-100, hi=100)], [dict(lo=-10 ** 6, hi=10 ** 6)], covers=["base"], bounds="one trade of any quantity up to 9")]
