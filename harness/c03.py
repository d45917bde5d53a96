"""C03 A trade's result is the exact sum of its closed and open parts."""
from fractions import Fraction

from symx.h import H
from harness.common import *
from harness.trades import Story, OPS


def parts(ctx, buy, ops, steps, den, wide, averages=False, pace="steady", qmax=12, before=0):
    lo, hi = (-10 ** 6, 10 ** 6) if wide is True else (-wide, wide) if wide else (-40, 40)
    s = Story(ctx, buy, qmax, lo, hi, 500 if wide else 5, den, pace=pace, before=before)
    tr = s.tr
    half = Fraction(0) if den == 1 else Fraction(1, 200)
    ended = None
    for i in range(steps):
        op, c = s.step(i, ops)
        if c is not None:
            took, price, when, _ = s.closes[-1]
            if ended is None:
                ctx.check("the close is priced at the last tick", ctx.near(c.close_value, price))
                ctx.check("the close is dated at the last tick", same_instant(ctx, c.datetime, when))
            else:
                # closing a closed trade records an empty close, whose price is meaningless
                ctx.check("an empty close", ctx.eq(c.quantity, 0))
                s.closes.pop()
        exp_closed = ctx.N(0)
        for took, price, when, cl in s.closes:
            part = pnl(ctx, buy, s.open, price) * took
            ctx.check("closes never change", ctx.And(ctx.near(cl.close_value, price), same_instant(ctx, cl.datetime, when),
                                                     ctx.eq(cl.quantity, took)))
            tol = Fraction(1, 10 ** 6) if den == 1 else ctx.N(took) * half + Fraction(1, 100)
            ctx.check("a close's result", ctx.And(ctx.le(ctx.N(cl.result) - part, tol), ctx.le(part - ctx.N(cl.result), tol)))
            exp_closed = exp_closed + part
        exp_open = pnl(ctx, buy, s.open, s.mark()) * s.left
        tol = Fraction(1, 10 ** 6) if den == 1 else ctx.N(s.q) * half + Fraction(1, 100) * (len(s.closes) + 1)
        for label, got, exp in (("closed result", tr.closed_result, exp_closed), ("open result", tr.opened_result, exp_open),
                                ("result", tr.result, exp_closed + exp_open)):
            ctx.check(label, ctx.And(ctx.le(ctx.N(got) - exp, tol), ctx.le(exp - ctx.N(got), tol)))
        if averages:
            e = Fraction(5001, 10 ** 6)
            q, cq = ctx.N(s.q), ctx.N(s.q) - s.left
            r = exp_closed + exp_open
            a = ctx.N(tr.result_avg) * q
            ctx.check("average result", ctx.And(ctx.le(a - r, q * e), ctx.le(r - a, q * e)))
            if s.closes:
                a = ctx.N(tr.closed_result_avg) * cq
                ctx.check("average closed result", ctx.And(ctx.le(a - exp_closed, cq * e), ctx.le(exp_closed - a, cq * e)))
            ctx.check("average open result", ctx.Implies(ctx.gt(s.left, 0), ctx.near(tr.opened_result_avg, pnl(ctx, buy, s.open, s.mark()))))
            ctx.check("no open average once closed", ctx.Implies(ctx.eq(s.left, 0), ctx.near(tr.opened_result_avg, 0)))
            ctx.cover("averages")
        if ended is not None:
            ctx.check("a closed trade's result is final", ctx.near(tr.result, ended))
            ctx.cover("tick after the end")
        elif tr.closed:
            ended = tr.result
        ctx.observe("result%d" % i, tr.result)


_B = (True, False)
_Q = [dict(buy=b, ops=list(OPS), steps=2, den=1, wide=True) for b in _B] + \
     [dict(buy=b, ops=["tick", "epic"], steps=3, den=1, wide=w) for b in _B for w in _B] + \
     [dict(buy=b, ops=["epic", "tick"], steps=2, den=1, wide=w, averages=True) for b in _B for w in _B] + \
     [dict(buy=b, ops=["tick", "strategy"], steps=2, den=10, wide=False) for b in _B]
_Q += [dict(buy=b, ops=["tick", "epic"], steps=2, den=1, wide=False, pace=p) for b in _B for p in ("same", "any")]
_Q += [dict(buy=b, ops=["epic", "tick"], steps=2, den=1, wide=w, qmax=q) for b in _B for w, q in ((400, 10 ** 5), (10 ** 8, 3))]
_Q += [dict(buy=b, ops=["epic", "tick"], steps=2, den=1, wide=False, before=25 if b else 9) for b in _B]
_T = [dict(buy=b, ops=["tick", "epic"], steps=3, den=1, wide=True, pace=p) for b in _B for p in ("same", "any")] + \
     [dict(buy=b, ops=list(OPS), steps=3, den=1, wide=True) for b in _B] + \
     [dict(buy=b, ops=["tick", "epic"], steps=5, den=1, wide=w) for b in _B for w in _B] + \
     [dict(buy=b, ops=["epic", "tick"], steps=3, den=1, wide=w, averages=True) for b in _B for w in _B] + \
     [dict(buy=b, ops=["tick", "strategy"], steps=3, den=10, wide=False) for b in _B]

HARNESSES = [H(parts, _Q, _T, odd=(0, 1, 2), covers=["averages", "tick after the end"],
               bounds="one trade of quantity 1..12 (or 1..100 000 with prices of +-4.00, or 1..3 with prices of +-1 000 000.00), up to 3 (thorough 5) ticks/closes (also after 9 or 25 closes of one unit each), prices +-10 000.00 and +-0.40 on the cent grid, ticks a second apart, at the same instant or at any microseconds, "
                      "one configuration on the 1/1000 grid with the rounding tolerance of a cent per part and half a cent per unit")]
