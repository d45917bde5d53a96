"""C06 Epics sharing a trade provider or a strategy do not disturb each other."""
from symx.h import H
from harness.common import *


def snap(ctx, t):
    return (t.result, t.max_result, t.min_result, t.current_close_value, t.opened_quantities, len(t.closes))


def same(ctx, a, b):
    return ctx.And(*[ctx.near(x, y) for x, y in zip(a[:4], b[:4])], ctx.eq(a[4], b[4]), a[5] == b[5])


def isolation(ctx, share_provider, share_strategy, steps, ops, lo, hi, same_ref=False, pace=1):
    L = ctx.lib()
    from estrade.trade_provider import TradeProviderBacktests
    tp = TradeProviderBacktests()
    eps = [epic(ctx, "E0", trade_provider=tp), epic(ctx, "E0" if same_ref else "E1", trade_provider=tp if share_provider else TradeProviderBacktests())]
    if share_strategy:
        s = L.BaseStrategy(ref="S")
        sts = [s, s]
    else:
        sts = [L.BaseStrategy(ref="S0"), L.BaseStrategy(ref="S0" if same_ref else "S1")]
    for e, s in zip(eps, sts):
        e.add_strategy(s)
    now = at(10)
    last = []
    for i, e in enumerate(eps):
        tk = cent_tick(ctx, "a%d" % i, now, lo, hi, 20)
        e.on_new_tick(tk)
        last.append(tk)
    trades = []
    for i, e in enumerate(eps):
        buy = ctx.bool("buy%d" % i)
        q = ctx.int("q%d" % i, 1, 5)
        before = [snap(ctx, t) for _, t, _, _ in trades]
        t = sts[i].open_trade(epic=e, direction=direction(ctx, buy), quantity=q, ref="t%d" % i)
        for (j, o, _, _), b in zip(trades, before):
            ctx.check("opening on one epic leaves the other's trade alone", same(ctx, snap(ctx, o), b))
        ctx.check("the new trade is opened in full", ctx.eq(t.opened_quantities, q))
        ctx.check("the new trade is registered", any(x is t for x in e.trade_provider.trades))
        trades.append((i, t, buy, last[i]))
    opened_at = list(last)
    left = [ctx.N(t.open_quantity) for _, t, _, _ in trades]
    newer = [[], []]   # (direction, open quantity) of later trades of each epic
    for n in range(steps):
        i = ctx.pyint("e%d" % n, 0, 1)
        op = ctx.choice("op%d" % n, ops)
        o = trades[1 - i][1]
        before = snap(ctx, o)
        mine = trades[i][1]
        if op == "both":
            # one and the same tick for both epics
            last = [cent_tick(ctx, "b%d" % n, later(now, seconds=(n + 1) * pace), lo, hi, 20)] * 2
            for e in eps:
                e.on_new_tick(last[0])
            ctx.cover("one tick for both")
        elif op == "tick":
            last[i] = cent_tick(ctx, "b%d" % n, later(now, seconds=(n + 1) * pace), lo, hi, 20)
            eps[i].on_new_tick(last[i])
            ctx.cover("tick")
        elif op == "close":
            eps[i].close_trade(trade=mine)
            left[i] = ctx.N(0)
            ctx.cover("close")
        elif op == "open":
            buy = ctx.bool("nb%d" % n)
            q = ctx.int("nq%d" % n, 1, 7)
            sts[i].open_trade(epic=eps[i], direction=direction(ctx, buy), quantity=q, ref="n%d" % n)
            rem = ctx.N(q)
            for r in reversed(newer[i]):
                if r[0] != buy:
                    c = rem.min(r[1])
                    rem, r[1] = rem - c, r[1] - c
            if buy != trades[i][2]:
                c = left[i].min(rem)
                rem, left[i] = rem - c, left[i] - c
            newer[i].append([buy, rem])
            ctx.cover("open")
        else:
            # a strategy closes one of its trades, whatever the epic
            sts[i].close_trade(mine)
            left[i] = ctx.N(0)
        if op != "both":
            ctx.check("the other epic's trade is undisturbed by %s" % op, same(ctx, snap(ctx, o), before))
        for j in range(2):
            _, t, buy, _ = trades[j]
            op_, _ = side(ctx, buy, opened_at[j])
            _, cl = side(ctx, buy, last[j])
            ctx.check("quantity depends on the own epic only", ctx.eq(t.opened_quantities, left[j]))
            ctx.check("valuation depends on the own epic only", ctx.Implies(ctx.gt(left[j], 0), ctx.near(t.current_close_value, cl)))
            ctx.check("own epic's fill", ctx.near(t.open_value, op_))
        ctx.observe("r%d" % n, [trades[0][1].result, trades[1][1].result])


_S = [(True, True), (True, False), (False, True)]
_Q = [dict(share_provider=p, share_strategy=s, steps=2, ops=["tick", "close", "open"], lo=-40, hi=40) for p, s in _S] + \
     [dict(share_provider=True, share_strategy=s, steps=2, ops=["tick", "close", "open"], lo=-40, hi=40, same_ref=True) for s in (True, False)]
_Q += [dict(share_provider=p, share_strategy=s, steps=2, ops=["both", "open"], lo=-40, hi=40) for p, s in _S]
_Q += [dict(share_provider=p, share_strategy=s, steps=1, ops=["tick", "open"], lo=-40, hi=40, pace=0, same_ref=r) for p, s in _S for r in (False, True)]
_T = [dict(share_provider=p, share_strategy=s, steps=3, ops=["both", "tick", "open"], lo=-1000, hi=1000) for p, s in _S] + [dict(share_provider=p, share_strategy=s, steps=3, ops=["tick", "close", "open", "sclose"], lo=-1000, hi=1000) for p, s in _S] + \
     [dict(share_provider=True, share_strategy=s, steps=3, ops=["tick", "close", "open", "sclose"], lo=-1000, hi=1000, same_ref=True) for s in (True, False)]
HARNESSES = [H(isolation, _Q, _T, odd=(0, 3), covers=["tick", "close", "open", "one tick for both"],
               bounds="two epics sharing provider and/or strategy, one trade each, then 2 (thorough 3) ticks (also the same for both)/closes/openings on epics chosen by the "
                      "solver; quantities 1..7, prices +-0.40 (thorough +-10.00); with references that differ or are equal")]
