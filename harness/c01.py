"""C01 Trades fill and are marked at the correct side of the market."""
from symx.h import H
from fractions import Fraction

from harness.common import *

TINY, HALF = Fraction(1, 10 ** 6), Fraction(1, 200)


def open_one(ctx, how, ep, st, buy, q):
    L = ctx.lib()
    d = direction(ctx, buy)
    if how == "epic":
        return ep.open_trade(direction=d, quantity=q, ref="t")
    if how == "strategy":
        return st.open_trade(epic=ep, direction=d, quantity=q, ref="t")
    return L.Trade.open_from_epic(epic=ep, direction=d, quantity=q, ref="t")


def tol(ctx, den, q):
    """results count cents per unit: with finer prices they are rounded"""
    return TINY if den == 1 else 20 * HALF + TINY


def fill(ctx, buy, how, lo, hi, later_ticks, pace="steady", den=1, smax=1000, opens=None, shut=None):
    """fill at the last accepted tick, marks after every later tick"""
    L = ctx.lib()
    ep, st = market(ctx, opens, shut), L.BaseStrategy(ref="S")
    ep.add_strategy(st)
    now = None
    if how == "strategy":
        now = paced(ctx, "pre", now, pace)
        ep.on_new_tick(cent_tick(ctx, "t_pre", now, lo, hi, smax, 0, den))
    now = paced(ctx, "t0", now, pace)
    tick = cent_tick(ctx, "t0", now, lo, hi, smax, 0, den)
    ep.on_new_tick(tick)
    q = ctx.int("q", 1, 20)
    tr = open_one(ctx, how, ep, st, buy, q)
    op, cl = side(ctx, buy, tick)
    ctx.check("filled at ask (BUY) / bid (SELL)", ctx.near(tr.open_value, op))
    ctx.check("marked at bid (BUY) / ask (SELL)", ctx.near(tr.current_close_value, cl))
    ctx.check("dated at the tick", same_instant(ctx, tr.datetime, tick.datetime))
    ctx.check("direction kept", tr.direction == direction(ctx, buy))
    spread = ctx.N(tick.ask) - ctx.N(tick.bid)
    ctx.check("initial result is minus spread x quantity", ctx.near(tr.result, -(spread * ctx.N(q)), tol(ctx, den, q)))
    ctx.observe("result0", tr.result)
    for i in range(later_ticks):
        now = paced(ctx, "t%d" % (i + 1), now, pace)
        tk = cent_tick(ctx, "t%d" % (i + 1), now, lo, hi, smax, 0, den)
        ep.on_new_tick(tk)
        if how == "bare":
            tr.update_from_epic()
        _, cl = side(ctx, buy, tk)
        ctx.check("close price follows the tick", ctx.near(tr.current_close_value, cl))
        ctx.check("fill price does not move", ctx.near(tr.open_value, op))
        ctx.check("result is the marked difference times the quantity",
                  ctx.near(tr.result, pnl(ctx, buy, op, cl) * ctx.N(q), tol(ctx, den, q)))
        ctx.observe("result%d" % (i + 1), tr.result)
        ctx.cover("marked")


def _cfg(ticks):
    return [dict(buy=b, how=h, lo=lo, hi=hi, later_ticks=ticks) for b in (True, False) for h in ("epic", "strategy", "bare")
            for lo, hi in ((-BIG, BIG), (-30, 30))] + \
           [dict(buy=b, how="strategy", lo=-BIG, hi=BIG, later_ticks=ticks, pace=p) for b in (True, False) for p in ("same", "any")] + \
           [dict(buy=b, how="epic", lo=-BIG, hi=BIG, later_ticks=ticks, den=1000, smax=9) for b in (True, False)] + \
           [dict(buy=b, how="epic", lo=-BIG, hi=BIG, later_ticks=ticks, smax=10 ** 6) for b in (True, False)] + \
           [dict(buy=b, how=h, lo=-BIG, hi=BIG, later_ticks=ticks, pace="any", opens=1, shut=2) for b in (True, False) for h in ("epic", "strategy")]


HARNESSES = [
    H(fill, _cfg(2), _cfg(3), odd=(0, 2, 6, 8), covers=["marked"],
      bounds="one trade, 2 (thorough 3) later ticks, bid in +-100 000.00 (and densely around 0) on the cent grid, spread 0..10.00 (0..10 000.00 in two configurations), or with five decimals and spreads up to 0.00009, "
             "quantity 1..20, ticks a second apart, at the same instant or at any microseconds of 3 s, also around the opening and the close of the market"),
]
