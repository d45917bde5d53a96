"""C02 Trade quantities are conserved by any sequence of closes."""
from symx.h import H
from harness.common import *
from harness.trades import Story, OPS


def closes(ctx, buy, ops, steps, qmax=20, fixed_first=0):
    s = Story(ctx, buy, qmax, -500, 500, 20, fixed=True)
    tr = s.tr
    total = ctx.N(s.q)
    for n in range(fixed_first):
        s.ep.close_trade(trade=tr, quantity=1)
        s.left = s.left - s.left.min(ctx.N(1))
        ctx.check("a close of one", ctx.And(len(tr.closes) == n + 1, ctx.eq(tr.opened_quantities, s.left), ctx.eq(tr.closed_quantities, total - s.left)))
        ctx.cover("many closes")
    for i in range(steps):
        before = list(tr.closes)
        op, c = s.step(i, ops)
        if c is not None:
            took = s.closes[-1][0]
            ctx.check("a close takes the requested quantity, or all, never more than open", ctx.eq(c.quantity, took))
            ctx.check("the close is recorded once", len(tr.closes) == len(before) + 1 and tr.closes[-1] is c and c.trade is tr)
            ctx.cover("close")
        else:
            ctx.check("a tick records no close", len(tr.closes) == len(before))
        ctx.check("earlier closes are kept", all(a is b for a, b in zip(before, tr.closes)))
        closed = ctx.Sum(ctx.N(x.quantity) for x in tr.closes)
        ctx.check("closed quantity is the sum of the closes", ctx.eq(tr.closed_quantities, closed))
        ctx.check("opened + closed is the quantity opened with", ctx.eq(ctx.N(tr.opened_quantities) + ctx.N(tr.closed_quantities), total))
        ctx.check("the original quantity does not move", ctx.eq(tr.open_quantity, total))
        ctx.check("opened quantity is what is left", ctx.eq(tr.opened_quantities, s.left))
        ctx.check("opened quantity is never negative", ctx.ge(tr.opened_quantities, 0))
        ctx.check("closed exactly when nothing is left", ctx.Iff(bool(tr.closed), ctx.eq(s.left, 0)))
        ctx.observe("left%d" % i, tr.opened_quantities)
        if tr.closed:
            ctx.cover("entirely closed")


_Q = [dict(buy=b, ops=list(OPS), steps=3) for b in (True, False)] + [dict(buy=True, ops=["epic"], steps=4)]
_Q += [dict(buy=b, ops=list(OPS), steps=2, qmax=10 ** 9) for b in (True, False)] + [dict(buy=True, ops=["epic", "strategy"], steps=2, qmax=30, fixed_first=12)]
_T = [dict(buy=b, ops=list(OPS), steps=4) for b in (True, False)] + [dict(buy=True, ops=["epic"], steps=7)]
_T += [dict(buy=b, ops=list(OPS), steps=3, qmax=10 ** 12) for b in (True, False)] + [dict(buy=True, ops=["epic", "strategy"], steps=3, qmax=100, fixed_first=60)]

HARNESSES = [H(closes, _Q, _T, odd=(0, 1), covers=["close", "entirely closed", "many closes"],
               bounds="one trade of quantity 1..20, 3 (thorough 4) operations of any kind (tick, close by epic, strategy, trade, explicit "
                      "value, tick) and 4 (thorough 7) closes by the epic, each close of 1..23 or everything; 2 (3) operations on quantities up to 10^9 (10^12); 2 (3) closes after 12 (60) closes of one")]
