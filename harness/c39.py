"""C39 Netting neither makes nor loses money."""
from symx.h import H
from harness.common import *


def ledger(ctx, steps, ops, nstrat=1, neps=1, qmax=6, lo=0, hi=0, smax=0, sizes=None, pace="steady", via="strategy", many=0):
    """every strategy's result is the money its orders brought in plus the value of what it still holds"""
    L = ctx.lib()
    from estrade.trade_provider import TradeProviderBacktests
    tp = TradeProviderBacktests()
    eps = [epic(ctx, "E%d" % i, trade_provider=tp) for i in range(neps)]
    sts = [L.BaseStrategy(ref="S%d" % i) for i in range(nstrat)]
    for e in eps:
        for s in sts:
            e.add_strategy(s)
    zero = ctx.N(0)
    cash = {(i, j): zero for i in range(nstrat) for j in range(neps)}
    held = dict(cash)
    now, last = None, [None] * neps

    def tick(n):
        nonlocal now
        now = paced(ctx, "n%d" % n, now, pace)
        for j, e in enumerate(eps):
            if hi > lo:
                last[j] = cent_tick(ctx, "t%d.%d" % (n, j), now, lo, hi, smax)
            else:
                bid = (100.0, 103.25, 98.5, 101.75, 97.0, 104.5)[(n + 3 * j) % 6]
                last[j] = ctx.tick(now, bid, bid + 0.25 * (n % 3))
            e.on_new_tick(last[j])

    def trade_at(i, j, buy, q):
        a, b = ctx.N(last[j].ask), ctx.N(last[j].bid)
        cash[i, j] = cash[i, j] - a * q if buy else cash[i, j] + b * q
        held[i, j] = held[i, j] + q if buy else held[i, j] - q

    def qty(name):
        return sizes[ctx.pyint(name, 0, len(sizes) - 1)] if sizes else ctx.int(name, 1, qmax)
    tick(0)
    if many:
        # one trade closed many times, unit by unit, before the free steps
        t = sts[0].open_trade(epic=eps[0], direction=direction(ctx, True), quantity=many + 4, ref="long")
        trade_at(0, 0, True, ctx.N(many + 4))
        for k in range(many):
            now = later(now, seconds=1)
            for j, e in enumerate(eps):
                last[j] = ctx.tick(now, 100.5 + 0.25 * k, 100.75 + 0.25 * k)
                e.on_new_tick(last[j])
            sts[0].close_trade(t, quantity=1)
            trade_at(0, 0, False, ctx.N(1))
        ctx.cover("many closes")
    for n in range(1, steps + 1):
        op = ctx.choice("op%d" % n, ops) if len(ops) > 1 else ops[0]
        i = ctx.pyint("s%d" % n, 0, nstrat - 1) if nstrat > 1 else 0
        j = ctx.pyint("e%d" % n, 0, neps - 1) if neps > 1 else 0
        if op == "order":
            buy, q = ctx.bool("buy%d" % n), qty("q%d" % n)
            if via == "strategy":
                sts[i].open_trade(epic=eps[j], direction=direction(ctx, buy), quantity=q, ref="t%d" % n)
            else:
                eps[j].open_trade(strategy=sts[i], direction=direction(ctx, buy), quantity=q, ref="t%d" % n)
            trade_at(i, j, buy, ctx.N(q))
            ctx.cover("order")
        elif op == "tick":
            tick(n)
        elif op == "close all":
            sts[i].close_opened_trades()
            for k in range(neps):
                if ctx.fork(ctx.gt(held[i, k], 0)):
                    trade_at(i, k, False, held[i, k])
                elif ctx.fork(ctx.lt(held[i, k], 0)):
                    trade_at(i, k, True, -held[i, k])
                ctx.check("nothing is held", ctx.eq(held[i, k], 0))
            ctx.cover("close all")
        else:
            cand = [t for t in sts[i].trades if t.epic is eps[j] and not t.closed]
            if not cand:
                return
            t = cand[ctx.pyint("k%d" % n, 0, len(cand) - 1)]
            q = qty("q%d" % n)
            took = ctx.N(q).min(ctx.N(t.opened_quantities))
            buy = is_buy(ctx, t)
            sts[i].close_trade(t, quantity=q)
            trade_at(i, j, not buy, took)
            ctx.cover("partial close")
        total = zero
        for i in range(nstrat):
            due = zero
            for j in range(neps):
                h = held[i, j]
                a, b = ctx.N(last[j].ask), ctx.N(last[j].bid)
                worth = cash[i, j] + (h * b if ctx.fork(ctx.gt(h, 0)) else h * a)
                if ctx.fork(ctx.eq(h, 0)):
                    ctx.cover("flat again")
                ctx.check("result on an epic", ctx.near(sts[i].result(sts[i].get_trades(epics=[eps[j]])), worth))
                due = due + worth
            ctx.check("a strategy's result is the money of its orders plus the value of its position", ctx.near(sts[i].result(), due))
            total = total + due
        ctx.check("the provider's trades bring the same money in all", ctx.near(sum((ctx.N(t.result) for t in tp.trades), zero), total))
        ctx.observe("r%d" % n, [s.result() for s in sts])


_A = ("order", "tick", "close", "close all")
_Q = [dict(steps=4, ops=("order", "tick"), qmax=6), dict(steps=3, ops=_A, qmax=6),
      dict(steps=3, ops=("order",), qmax=10 ** 6, via="epic"),
      dict(steps=3, ops=("order",), nstrat=2, neps=2, qmax=4), dict(steps=3, ops=("order", "close all"), neps=2, qmax=4, pace="same"),
      dict(steps=4, ops=("order", "tick"), sizes=(1, 3), lo=-10 ** 4, hi=10 ** 4, smax=50),
      dict(steps=3, ops=_A, sizes=(1, 2), lo=-200, hi=200, smax=20),
      dict(steps=3, ops=("order", "tick"), qmax=4, lo=-40, hi=40, smax=5), dict(steps=2, ops=_A, qmax=6, many=40), dict(steps=2, ops=("order", "tick"), sizes=(1, 3), lo=-10 ** 4, hi=10 ** 4, smax=50, many=12)]
_T = [dict(steps=6, ops=("order", "tick"), qmax=6), dict(steps=5, ops=_A, qmax=6), dict(steps=5, ops=("order",), qmax=10 ** 6, via="epic"),
      dict(steps=4, ops=_A, nstrat=2, neps=2, qmax=4), dict(steps=5, ops=("order", "tick"), sizes=(1, 3), lo=-10 ** 4, hi=10 ** 4, smax=50),
      dict(steps=4, ops=_A, sizes=(1, 2, 5), lo=-BIG, hi=BIG, smax=200), dict(steps=4, ops=("order", "tick"), qmax=4, lo=-400, hi=400, smax=5)]
HARNESSES = [H(ledger, _Q, _T, odd=(1, 3), covers=["order", "partial close", "close all", "flat again", "many closes"],
               bounds="3-4 (thorough 4-6) orders, ticks, partial closes and closes of everything by one or two strategies on one or two epics in an order chosen by the solver; "
                      "any quantities (1..6 or up to a million) at given prices, given quantities at any prices of +-100.00 (thorough +-100 000.00), or both in small ranges, also after 12 or 40 partial closes of one trade; cent grid")]
