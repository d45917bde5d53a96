"""C05 Backtest netting closes exactly the opposite quantity, newest first."""
from symx.h import H
from harness.common import *


class Book:
    """Reference model of the netting."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.rows = []      # [trade, strategy index, buy, open quantity, price of the close expected, ncloses]

    def open(self, tr, si, buy, q, price):
        ctx = self.ctx
        rem = ctx.N(q)
        for r in reversed(self.rows):
            if r[1] == si and r[2] != buy:
                if not ctx.fork(ctx.And(ctx.gt(rem, 0), ctx.gt(r[3], 0))):
                    continue
                c = rem.min(r[3])
                r[3] = r[3] - c
                rem = rem - c
                r[5].append((c, price))
        self.rows.append([tr, si, buy, rem, None, []])
        return rem


def netting(ctx, opens, nstrat, qmax, partial, via, anon=False, same_ref=False, pace="steady", halt=False, flat=False, direct=None, head=0):
    L = ctx.lib()
    ep = epic(ctx)
    sts = [L.BaseStrategy(ref="S" if same_ref else "S%d" % i) for i in range(nstrat)]
    for i, s in enumerate(sts if halt else ()):
        halted(ctx, "halt%d" % i, s)
        ctx.cover("halted")
    for s in sts[:1] if same_ref else sts:
        ep.add_strategy(s)
    if anon:
        # trades opened without a strategy form a book of their own
        sts = sts + [None]
        nstrat += 1
    now = None
    book = Book(ctx)
    for i in range(head + opens):
        if not i or pace != "one tick":
            bid, ask = (100.0, 100.0) if flat else (100.0 + i, 100.5 + i)
            now = paced(ctx, "k%d" % i, now, pace)
            ep.on_new_tick(ctx.tick(now, bid, ask))
        if partial and i == partial:
            # close a part of the newest open trade before the next opening
            r = book.rows[-1]
            if ctx.fork(ctx.gt(r[3], 0)):
                pq = ctx.int("pq", 1, qmax)
                if direct == "close":
                    r[0].close(close_value=50.0, datetime=now, quantity=pq)
                elif direct == "epic":
                    r[0].close_from_epic(quantity=pq)
                elif direct == "tick":
                    r[0].close_from_tick(ep.last_tick, quantity=pq)
                else:
                    ep.close_trade(trade=r[0], quantity=pq)
                c = ctx.N(pq).min(r[3])
                r[3] = r[3] - c
                r[5].append((c, None))
                ctx.cover("partly closed before")
        si = ctx.pyint("s%d" % i, 0, nstrat - 1) if nstrat > 1 else 0
        # the first `head` orders are known ones of one direction
        buy = True if i < head else ctx.bool("buy%d" % i)
        q = i % 3 + 1 if i < head else ctx.int("q%d" % i, 1, qmax)
        net = [sum_net(ctx, book, k) for k in range(nstrat)]
        if via == "epic":
            tr = ep.open_trade(strategy=sts[si], direction=direction(ctx, buy), quantity=q, ref="t%d" % i)
        else:
            tr = sts[si].open_trade(epic=ep, direction=direction(ctx, buy), quantity=q, ref="t%d" % i)
        # an opposite BUY closes a SELL at the ask, an opposite SELL closes a BUY at the bid
        rem = book.open(tr, si, buy, q, ask if buy else bid)
        ctx.check("only the remainder is opened", ctx.eq(tr.open_quantity, rem))
        registered = any(x is tr for x in ep.trade_provider.trades)
        ctx.check("registered exactly when something remains", ctx.Iff(registered, ctx.gt(rem, 0)))
        ctx.check("registered with its strategy only", all(any(x is tr for x in s.trades) == (registered and j == si)
                                                           for j, s in enumerate(sts) if s is not None))
        ctx.check("the trade keeps its strategy", tr.strategy is sts[si])
        if registered:
            ctx.cover("opened")
        else:
            ctx.cover("netted away")
        for j, r in enumerate(book.rows):
            t = r[0]
            live = any(x is t for x in ep.trade_provider.trades)
            if live:
                ctx.check("open quantity of every trade", ctx.eq(t.opened_quantities, r[3]))
                exp = [c for c in r[5]]
                ctx.check("number of closes of every trade", len(t.closes) == len(exp))
                for c, (cq, price) in zip(t.closes, exp):
                    ctx.check("netted quantity", ctx.eq(c.quantity, cq))
                    if price is not None:
                        ctx.check("netted at the current price", ctx.near(c.close_value, price))
        for k in range(nstrat):
            now_net = sum_real_net(ctx, ep, sts[k])
            delta = (ctx.N(q) if buy else -ctx.N(q)) if k == si else ctx.N(0)
            ctx.check("net position moves by the opened quantity", ctx.eq(now_net, net[k] + delta))
            dirs = {is_buy(ctx, t) for t in trades_of(ep, sts[k]) if not t.closed}
            ctx.check("never open in both directions", len(dirs) <= 1)
        ctx.observe("open%d" % i, [t.opened_quantities for t in ep.trade_provider.trades])


def sum_net(ctx, book, k):
    s = ctx.N(0)
    for r in book.rows:
        if r[1] == k:
            s = s + r[3] if r[2] else s - r[3]
    return s


def trades_of(ep, st):
    return [t for t in ep.trade_provider.trades if t.strategy is None] if st is None else st.trades


def sum_real_net(ctx, ep, st):
    s = ctx.N(0)
    for t in trades_of(ep, st):
        s = s + ctx.N(t.opened_quantities) if is_buy(ctx, t) else s - ctx.N(t.opened_quantities)
    return s


_Q = [dict(opens=4, nstrat=1, qmax=8, partial=0, via="strategy"), dict(opens=3, nstrat=2, qmax=6, partial=0, via="epic"),
      dict(opens=3, nstrat=1, qmax=6, partial=2, via="strategy"),
      dict(opens=3, nstrat=1, qmax=5, partial=0, via="epic", anon=True), dict(opens=3, nstrat=2, qmax=4, partial=0, via="strategy", same_ref=True)]
_Q += [dict(opens=3, nstrat=1, qmax=5, partial=0, via="strategy", pace=p) for p in ("one tick", "same", "any")]
_Q += [dict(opens=2, nstrat=2, qmax=4, partial=0, via=v, halt=True) for v in ("strategy", "epic")] + [dict(opens=3, nstrat=1, qmax=10 ** 6, partial=0, via="epic")]
_Q += [dict(opens=3, nstrat=1, qmax=5, partial=0, via="strategy", flat=True)] + [dict(opens=3, nstrat=1, qmax=4, partial=0, via="strategy", flat=True, pace=p) for p in ("one tick", "same")] + [dict(opens=3, nstrat=1, qmax=5, partial=2, via="epic", direct=d) for d in ("close", "epic", "tick")]
_Q += [dict(opens=2, nstrat=1, qmax=40, partial=0, via="strategy", head=14), dict(opens=1, nstrat=1, qmax=150, partial=0, via="epic", head=60)]
_T = [dict(opens=2, nstrat=1, qmax=150, partial=0, via="strategy", head=60), dict(opens=3, nstrat=2, qmax=6, partial=0, via="strategy", halt=True)] + [dict(opens=4, nstrat=1, qmax=8, partial=0, via="strategy", pace=p) for p in ("one tick", "same", "any")] + [dict(opens=5, nstrat=1, qmax=12, partial=0, via="strategy"), dict(opens=4, nstrat=2, qmax=8, partial=0, via="epic"),
      dict(opens=4, nstrat=1, qmax=8, partial=3, via="strategy"), dict(opens=4, nstrat=1, qmax=8, partial=2, via="epic"),
      dict(opens=4, nstrat=3, qmax=3, partial=0, via="strategy"), dict(opens=4, nstrat=1, qmax=6, partial=2, via="epic", anon=True), dict(opens=4, nstrat=2, qmax=6, partial=0, via="strategy", same_ref=True)]
HARNESSES = [H(netting, _Q, _T, odd=(1, 2), covers=["opened", "netted away", "partly closed before", "halted"],
               bounds="up to 4 (thorough 5) openings in directions and for strategies (or none) chosen by the solver, quantities 1..8 (12) or up to a million, strategies active, stopped or paused, all at one tick or at later ones at the same, any or later instants, optionally a "
                      "partial close in between, made by the epic or on the trade itself; 1-2 openings after 14 or 60 known ones; fixed prices, rising or constant without a spread; strategies with different or equal references")]
