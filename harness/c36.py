"""C36 Trades handled with explicit prices follow exactly these prices."""
from symx.h import H
from fractions import Fraction

from harness.common import *

NANO, CENTS = Fraction(1, 10 ** 9), Fraction(8, 200) + Fraction(1, 10 ** 6)


def by_hand(ctx, buy, steps, how, given, qmax, lo, hi, ops):
    L = ctx.lib()
    ep = epic(ctx)
    st = L.BaseStrategy(ref="S")
    ep.add_strategy(st)
    other = ctx.tick(at(9), 7777.0, 7778.0)
    ep.on_new_tick(other)
    last = other
    q = ctx.int("q", 1, qmax)
    dt = at(10)
    if how == "values":
        o = ctx.int("open", lo, hi)
        kw = {}
        mark = ctx.N(o) / 100
        if given:
            c = ctx.int("close", lo, hi)
            kw, mark = dict(current_close_value=ctx.cents(c)), ctx.N(c) / 100
        tr = L.Trade(direction=direction(ctx, buy), quantity=q, open_value=ctx.cents(o), open_datetime=dt, epic=ep, strategy=st, ref="t", **kw)
        op = ctx.N(o) / 100
    else:
        tk = cent_tick(ctx, "t0", dt, lo, hi, 50)
        tr = L.Trade.open_from_tick(tk, ep, direction=direction(ctx, buy), quantity=q, strategy=st, ref="t")
        op, mark = side(ctx, buy, tk)
    ctx.check("opened at the given value", ctx.near(tr.open_value, op))
    ctx.check("opened at the given date", same_instant(ctx, tr.datetime, dt))
    ctx.check("a trade made by hand is not registered", len(ep.trade_provider.trades) == 0 and len(st.trades) == 0)
    left, closed = ctx.N(q), ctx.N(0)
    first = pnl(ctx, buy, op, mark) * left
    top = bottom = first
    closes = []
    for i in range(steps):
        when = later(dt, seconds=i + 1)
        what = ctx.choice("op%d" % i, ops)
        was_open = not tr.closed
        if what == "epic tick":
            # the trade is not registered: ticks of its epic do not reach it
            last = cent_tick(ctx, "e%d" % i, when, lo, hi, 50)
            ep.on_new_tick(last)
        elif what == "update":
            v = ctx.int("v%d" % i, lo, hi)
            tr.update(ctx.cents(v))
            if was_open:
                mark = ctx.N(v) / 100
                r = closed + pnl(ctx, buy, op, mark) * left
                top, bottom = top.max(r), bottom.min(r)
            ctx.cover("update" if was_open else "update after the end")
        elif what in ("tick", "update epic"):
            if what == "tick":
                tk = cent_tick(ctx, "t%d" % (i + 1), when, lo, hi, 50)
                tr.update_from_tick(tk)
            else:
                tk = last
                tr.update_from_epic()
            if was_open:
                mark = side(ctx, buy, tk)[1]
                r = closed + pnl(ctx, buy, op, mark) * left
                top, bottom = top.max(r), bottom.min(r)
        else:
            if not was_open:
                return
            kw = {} if ctx.bool("all%d" % i) else {"quantity": ctx.int("cq%d" % i, 1, qmax + 2)}
            if i % 2:
                when = later(dt, seconds=-i)   # explicit dates need not follow each other
            if what == "close":
                v = ctx.int("cv%d" % i, lo, hi)
                price = ctx.N(v) / 100
                c = tr.close(close_value=ctx.cents(v), datetime=when, **kw)
            else:
                if what == "close tick":
                    tk = cent_tick(ctx, "ct%d" % i, when, lo, hi, 50)
                else:
                    tk = last   # the epic's tick, whatever happened in between
                when = tk.datetime
                mark = price = side(ctx, buy, tk)[1]
                r = closed + pnl(ctx, buy, op, mark) * left
                top, bottom = top.max(r), bottom.min(r)
                c = tr.close_from_epic(**kw) if what == "close epic" else tr.close_from_tick(tk, **kw)
            took = ctx.N(kw["quantity"]).min(left) if kw else left
            left = left - took
            closed = closed + pnl(ctx, buy, op, price) * took
            closes.append((c, took, price, when))
            ctx.cover("close")
        for c, took, price, w in closes:
            ctx.check("a close keeps its quantity, price and date", ctx.And(ctx.eq(c.quantity, took), ctx.near(c.close_value, price), same_instant(ctx, c.datetime, w)))
            ctx.check("a close's result", ctx.And(ctx.near(c.result, pnl(ctx, buy, op, price) * took), ctx.near(c.result_avg, pnl(ctx, buy, op, price))))
        ctx.check("the closes are listed in order", len(tr.closes) == len(closes) and all(a is b[0] for a, b in zip(tr.closes, closes)))
        ctx.check("quantities", ctx.And(ctx.eq(tr.opened_quantities, left), ctx.eq(ctx.N(tr.closed_quantities) + left, q)))
        ctx.check("result of the given prices", ctx.near(tr.result, closed + pnl(ctx, buy, op, mark) * left))
        ctx.check("closed part", ctx.near(tr.closed_result, closed))
        ctx.check("open part", ctx.near(tr.opened_result, pnl(ctx, buy, op, mark) * left))
        ctx.check("extremes of the given prices", ctx.And(ctx.near(tr.max_result, top), ctx.near(tr.min_result, bottom)))
        ctx.check("still not registered", len(ep.trade_provider.trades) == 0 and len(st.trades) == 0)
        ctx.observe("r%d" % i, tr.result)


def fine(ctx, buy, den, lo, hi):
    """prices finer than a cent are kept as they are; results count cents per unit"""
    L = ctx.lib()
    ep, st = epic(ctx), L.BaseStrategy(ref="S")
    ep.add_strategy(st)
    ep.on_new_tick(ctx.tick(at(9), 7777.0, 7778.0))
    k = [ctx.int("p%d" % i, lo, hi) for i in range(4)]
    q, n = ctx.int("q", 2, 6), ctx.int("n", 1, 8)
    p = [ctx.cents(x, den) for x in k]
    P = [ctx.N(x) / (100 * den) for x in k]
    tr = L.Trade(direction=direction(ctx, buy), quantity=q, open_value=p[0], open_datetime=at(10), epic=ep, strategy=st, ref="t")
    ctx.check("opened at the given value", ctx.And(ctx.near(tr.open_value, P[0], NANO), ctx.near(tr.current_close_value, P[0], NANO), ctx.near(tr.result, 0)))
    tr.update(p[1])
    ctx.check("marked at the given value", ctx.near(tr.current_close_value, P[1], NANO))
    ctx.check("result to the cent per unit", ctx.near(tr.result, pnl(ctx, buy, P[0], P[1]) * ctx.N(q), CENTS))
    c = tr.close(close_value=p[2], datetime=at(11), quantity=n)
    took = ctx.N(n).min(ctx.N(q))
    ctx.check("closed at the given value", ctx.And(ctx.near(c.close_value, P[2], NANO), ctx.eq(c.quantity, took)))
    ctx.check("a close's result to the cent per unit", ctx.near(c.result, pnl(ctx, buy, P[0], P[2]) * took, CENTS))
    if not tr.closed:
        d = tr.close_from_tick(ctx.tick(at(12), p[3], p[3]))
        ctx.check("closed at the tick", ctx.And(ctx.near(d.close_value, P[3], NANO), ctx.eq(d.quantity, ctx.N(q) - took)))
        ctx.cover("two closes")
    ctx.check("fill price does not move", ctx.near(tr.open_value, P[0], NANO))
    ctx.check("all closed", tr.closed and len(ep.trade_provider.trades) == 0)
    ctx.observe("r", tr.result)


_O = ("update", "tick", "close", "close tick")
_Q = [dict(buy=b, steps=2, how=h, given=g, qmax=5, lo=-200, hi=200, ops=_O + ("epic tick",)) for b in (True, False) for h, g in (("values", False), ("values", True), ("tick", True))]
_Q += [dict(buy=b, steps=3, how="values", given=True, qmax=5, lo=-10, hi=50, ops=("update", "close")) for b in (True, False)]
_Q += [dict(buy=b, steps=3, how="values", given=True, qmax=4, lo=-10, hi=50, ops=o) for b in (True, False) for o in (("update", "close epic", "close again"), ("update", "update epic", "epic tick", "close epic"))]
_T = [dict(buy=b, steps=3, how=h, given=g, qmax=7, lo=-BIG, hi=BIG, ops=_O + ("epic tick",)) for b in (True, False) for h, g in (("values", False), ("values", True), ("tick", True))]
_T += [dict(buy=b, steps=4, how="values", given=True, qmax=5, lo=-10, hi=50, ops=("update", "close")) for b in (True, False)]
HARNESSES = [H(by_hand, _Q, _T, odd=(0, 3), covers=["update", "update after the end", "close"],
               bounds="one trade of quantity 1-5 (thorough 7) opened with explicit values or from a foreign tick, then 2-3 (thorough 3-4) updates, closes (at explicit prices, foreign ticks or the epic's tick) and epic ticks in an order chosen by the solver, "
                      "prices within +-2.00 (thorough +-100 000.00)"),
             H(fine, [dict(buy=b, den=1000, lo=-300000, hi=300000) for b in (True, False)], [dict(buy=b, den=d, lo=-10 ** 9, hi=10 ** 9) for b in (True, False) for d in (10, 1000)], covers=["two closes"],
               bounds="prices of five decimals within +-3 (thorough three or five decimals, +-10 000 and more), a trade of 2-6 closed in one or two parts")]
