"""C04 A trade's min/max results are the running extremes of its result."""
from symx.h import H
from harness.common import *
from harness.trades import Story, OPS


class Track:
    def __init__(self, ctx, first):
        self.ctx = ctx
        self.hi = self.lo = ctx.N(first)

    def see(self, r):
        self.hi = self.hi.max(r)
        self.lo = self.lo.min(r)

    def check(self, tr):
        c = self.ctx
        c.check("maximum result", c.near(tr.max_result, self.hi))
        c.check("minimum result", c.near(tr.min_result, self.lo))


def extremes(ctx, buy, ops, steps, wide, pace="steady"):
    lo, hi = (-10 ** 6, 10 ** 6) if wide else (-30, 30)
    s = Story(ctx, buy, 8, lo, hi, 500 if wide else 5, pace=pace)
    tr = s.tr
    w = Track(ctx, pnl(ctx, buy, s.open, s.mark()) * ctx.N(s.q))
    w.check(tr)
    closed = ctx.N(0)
    for i in range(steps):
        was_open = not tr.closed
        op, c = s.step(i, ops)
        if c is not None:
            took, price, _, _ = s.closes[-1]
            closed = closed + pnl(ctx, buy, s.open, price) * took
        if op == "tick" and was_open:
            w.see(closed + pnl(ctx, buy, s.open, s.mark()) * s.left)
            ctx.cover("tick while open")
        if op == "tick" and not was_open:
            ctx.cover("tick after the end")
        w.check(tr)
        ctx.observe("max%d" % i, tr.max_result)
        ctx.observe("min%d" % i, tr.min_result)


def remainder(ctx, buy, lo, hi, ticks):
    """a trade that first nets an opposite one is tracked for the quantity actually opened"""
    L = ctx.lib()
    ep, st = epic(ctx), L.BaseStrategy(ref="S")
    ep.add_strategy(st)
    now = at(10)
    ep.on_new_tick(cent_tick(ctx, "t0", now, lo, hi, 30))
    q1, q2 = ctx.int("q1", 1, 6), ctx.int("q2", 1, 9)
    st.open_trade(epic=ep, direction=direction(ctx, not buy), quantity=q1, ref="old")
    tk = cent_tick(ctx, "t1", later(now, seconds=1), lo, hi, 30)
    ep.on_new_tick(tk)
    tr = st.open_trade(epic=ep, direction=direction(ctx, buy), quantity=q2, ref="new")
    if not ctx.fork(ctx.gt(q2, q1)):
        return
    left = ctx.N(q2) - ctx.N(q1)
    op, cl = side(ctx, buy, tk)
    w = Track(ctx, pnl(ctx, buy, op, cl) * left)
    w.check(tr)
    ctx.cover("remainder opened")
    for i in range(ticks):
        tk = cent_tick(ctx, "t%d" % (i + 2), later(now, seconds=i + 2), lo, hi, 30)
        ep.on_new_tick(tk)
        w.see(pnl(ctx, buy, op, side(ctx, buy, tk)[1]) * left)
        w.check(tr)
        ctx.observe("max%d" % i, tr.max_result)


_B = (True, False)
_Q = [dict(buy=b, ops=["tick", "epic"], steps=3, wide=b) for b in _B] + [dict(buy=b, ops=["tick", "strategy", "trade"], steps=2,
                                                                                         wide=True) for b in _B]
_Q += [dict(buy=b, ops=["tick", "direct"], steps=3 if b else 2, wide=False) for b in _B]
_Q += [dict(buy=b, ops=["tick", "epic"], steps=3, wide=False, pace=p) for b in _B for p in ("same", "any")]
_T = [dict(buy=b, ops=["tick", "epic"], steps=4, wide=True, pace=p) for b in _B for p in ("same", "any")] + [dict(buy=b, ops=["tick", "direct"], steps=4, wide=w) for b in _B for w in _B] + [dict(buy=b, ops=["tick", "epic"], steps=5, wide=w) for b in _B for w in _B] + [dict(buy=b, ops=["tick", "strategy", "trade", "from_tick"],
                                                                                         steps=4, wide=True) for b in _B]
HARNESSES = [
    H(extremes, _Q, _T, odd=(0, 1), covers=["tick while open", "tick after the end"],
      bounds="one trade of quantity 1..8, 3 (thorough 5) ticks/closes, prices +-10 000.00 and +-0.30 on the cent grid, ticks a second apart, at the same instant or at any microseconds"),
    H(remainder, [dict(buy=b, lo=-200, hi=200, ticks=1) for b in _B], [dict(buy=b, lo=-1000, hi=1000, ticks=2) for b in _B],
      covers=["remainder opened"], bounds="one opposite trade of 1..6 netted by a trade of 1..9, 1 (thorough 2) later ticks"),
]
