"""C08 Trade listings return exactly the matching trades, newest first."""
from symx.h import H
from harness.common import *


def listing(ctx, ntr, closes, filt, same_ref=False, few=False, halt=False, direct=None, watch=False):
    L = ctx.lib()
    import arrow
    from estrade.trade_provider import TradeProviderBacktests
    tp = TradeProviderBacktests()
    eps = [epic(ctx, "E" if same_ref else "E%d" % i, trade_provider=tp) for i in range(2)]
    sts = [L.BaseStrategy(ref="S" if same_ref else "S%d" % i) for i in range(2)]
    for i, s in enumerate(sts if halt else ()):
        halted(ctx, "halt%d" % i, s)
        ctx.cover("halted")
    for e in eps:
        for s in sts[:1] if same_ref else sts:
            e.add_strategy(s)
    now = at(10)
    rows = []     # trade, epic, strategy, datetime, open quantity
    # gaps of 0 seconds give trades opened at the same instant
    when = now
    for i in range(ntr):
        gap = ctx.pyint("gap%d" % i, 0, 1) if i and filt == "dates" and not few else i % 3 if few else 1
        when = later(when, seconds=gap)
        ei = ctx.pyint("e%d" % i, 0, 1) if filt == "epics" else i % 2
        si = ctx.pyint("s%d" % i, 0, 1) if not few else i * 5 % 7 % 2
        # without a filter on dates, the clocks of the two epics need not agree
        eps[ei].on_new_tick(ctx.tick(later(when, hours=-ei) if filt != "dates" else when, 100.0, 100.5))
        q = ctx.int("q%d" % i, 1, 6) if not few else 3
        t = sts[si].open_trade(epic=eps[ei], direction=L.TradeDirection.BUY, quantity=q, ref="t%d" % i)
        rows.append([t, ei, si, when, ctx.N(q)])
    for j in range(closes):
        k = ctx.pyint("c%d" % j, 0, ntr - 1) if not few or j else ntr // 2
        cq = ctx.int("cq%d" % j, 1, 6)
        r = rows[k]
        if not ctx.fork(ctx.gt(r[4], 0)):
            return
        if watch:
            # a listing taken before does not stick
            list(tp.opened_trades), [list(s.get_trades(open_only=True)) for s in sts]
        if direct == "close":
            r[0].close(close_value=50.0, datetime=when, quantity=cq)
        elif direct == "epic":
            r[0].close_from_epic(quantity=cq)
        elif direct == "tick":
            r[0].close_from_tick(r[0].epic.last_tick, quantity=cq)
        else:
            r[0].epic.close_trade(trade=r[0], quantity=cq)
        r[4] = r[4] - r[4].min(ctx.N(cq))
    is_open = [ctx.fork(ctx.gt(r[4], 0)) for r in rows]
    if not all(is_open):
        ctx.cover("some closed")

    def same(a, b):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))

    def expect(f):
        return [r[0] for k, r in reversed(list(enumerate(rows))) if f(k, r)]

    ctx.check("opened trades of the provider", same(list(tp.opened_trades), expect(lambda k, r: is_open[k])))
    for si, st in enumerate(sts):
        ctx.check("all trades of a strategy", same(list(st.get_trades()), expect(lambda k, r: r[2] == si)))
        ctx.check("open trades of a strategy", same(list(st.get_trades(open_only=True)), expect(lambda k, r: r[2] == si and is_open[k])))
        if filt == "epics":
            for sub in ([], [0], [1], [0, 1]):
                for oo in (False, True):
                    ctx.check("trades of epics", same(list(st.get_trades(epics=[eps[e] for e in sub], open_only=oo)), expect(
                        lambda k, r: r[2] == si and r[1] in sub and (is_open[k] or not oo))))
    if filt == "dates":
        d = ctx.dt("after", (2020, 6, 1, 9, 59, 58, 0), (2020, 6, 1, 10, 0, 40 if few else 8, 0), utc())
        a = arrow.get(d)
        if not few and ctx.bool("zoned"):
            a = a.to("Europe/Paris")
        oo = ctx.bool("oo")
        si = ctx.pyint("fs", 0, 1)
        got = list(sts[si].get_trades(open_only=oo, only_after=a))
        exp = expect(lambda k, r: r[2] == si and (is_open[k] or not oo) and ctx.fork(ctx.ge(ctx.instant(r[3]), ctx.us(d))))
        ctx.check("trades opened at or after a date", same(got, exp))
        ctx.cover("date filter")
        if exp and len(exp) < len([r for r in rows if r[2] == si]):
            ctx.cover("date filter keeps a part")
    if filt == "close":
        si = ctx.pyint("cs", 0, 1)
        before = [(r[0].opened_quantities, len(r[0].closes)) for r in rows]
        sts[si].close_opened_trades()
        for k, r in enumerate(rows):
            if r[2] == si:
                ctx.check("all closed", ctx.eq(r[0].opened_quantities, 0))
                ctx.check("closed once", len(r[0].closes) == before[k][1] + (1 if is_open[k] else 0))
                ctx.check("all is closed, not more", ctx.eq(r[0].closed_quantities, r[0].open_quantity))
                ctx.cover("closed by the strategy")
            else:
                ctx.check("other strategies untouched", ctx.And(ctx.eq(r[0].opened_quantities, before[k][0]), len(r[0].closes) == before[k][1]))
                ctx.cover("left alone")
        ctx.check("nothing left open", list(sts[si].get_trades(open_only=True)) == [])


_Q = [dict(ntr=3, closes=1, filt="epics"), dict(ntr=3, closes=1, filt="dates"), dict(ntr=4, closes=1, filt="close"), dict(ntr=3, closes=0, filt="epics", same_ref=True),
      dict(ntr=3, closes=1, filt="close", same_ref=True)]
_Q += [dict(ntr=2, closes=0, filt=f, halt=True) for f in ("epics", "close", "dates")] + [dict(ntr=26, closes=2, filt="close", few=True), dict(ntr=20, closes=1, filt="dates", few=True), dict(ntr=220, closes=1, filt="close", few=True)]
_Q += [dict(ntr=2, closes=2, filt="epics", direct=d, watch=True) for d in ("close", "epic", "tick", None)]
_T = [dict(ntr=5, closes=1, filt="epics"), dict(ntr=4, closes=2, filt="dates"), dict(ntr=5, closes=2, filt="close"), dict(ntr=4, closes=1, filt="epics", same_ref=True),
      dict(ntr=4, closes=1, filt="close", same_ref=True)]
HARNESSES = [H(listing, _Q, _T, odd=(0, 1, 2), covers=["some closed", "date filter", "date filter keeps a part", "closed by the strategy", "left alone", "halted"],
               bounds="3-4 (thorough 4-5) trades over two epics and two strategies chosen by the solver (active, stopped or paused), opened in chronological order with equal "
                      "dates included, or 20-26 given ones, quantities 1..6, 1 (2) partial or full closes made by the epic or on the trade itself, every date to the microsecond in a 10 s window; also with epics and strategies of equal references")]
