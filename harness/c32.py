"""C32 Objects keep what they are given and share no state."""
from symx.h import H
from harness.common import *


def transactions(ctx, entry, given, nmax, lo, hi, zn="UTC"):
    """trades and closes: reference, metadata, status, strategy, epic, date"""
    L = ctx.lib()
    S = L.TransactionStatus
    from estrade.trade_provider import BaseTradeProvider

    class Live(BaseTradeProvider):
        def open_trade_request(self, trade):
            return trade

        def close_trade_request(self, trade_close):
            return trade_close
    ep = epic(ctx, "E", trade_provider=Live(ref="L"), timezone=zn)
    st = L.BaseStrategy(ref="S")
    ep.add_strategy(st)
    dt = ctx.dt("t", (2020, 6, 1), (2020, 6, 30), utc())
    ep.on_new_tick(cent_tick(ctx, "p", dt, lo, hi, 100))
    made = []
    buy, mine = ctx.bool("buy"), ctx.bool("own") if entry == "epic" else None
    for n in range(2):
        kw = {}
        if given:
            meta = {"n": n}
            i = ctx.pyint("status", 0, len(S) - 1) if not n else i + 1
            status = list(S)[i % len(S)]
            kw = dict(ref=" t%d\t" % n, meta=meta, status=status)
        q = ctx.int("q%d" % n, 1, nmax)
        d = direction(ctx, buy != (n and entry != "strategy"))
        if entry == "epic":
            own = st if mine != bool(n) else None
            tr = ep.open_trade(direction=d, quantity=q, **dict(kw, **({"strategy": own} if own else {})))
        elif entry == "strategy":
            own = st
            tr = st.open_trade(epic=ep, direction=d, quantity=q, **kw)
        else:
            own = None
            tr = L.Trade(direction=d, quantity=q, open_value=ctx.cents(ctx.int("v%d" % n, lo, hi)), open_datetime=dt, epic=ep, **kw)
        ctx.check("epic and strategy", tr.epic is ep and tr.strategy is own)
        ctx.check("direction and quantity", ctx.And(tr.direction == d, ctx.eq(tr.open_quantity, q), ctx.eq(tr.opened_quantities, q)))
        ctx.check("the instant is kept", same_instant(ctx, tr.datetime, dt))
        if given:
            ctx.check("reference, metadata and status of a trade", tr.ref == " t%d\t" % n and tr.meta == {"n": n} and tr.status == status)
        else:
            ctx.check("defaults of a trade", isinstance(tr.ref, str) and tr.ref != "" and tr.meta == {} and tr.status == S.CREATED)
            tr.meta["seen"] = n
        ckw = {}
        if given:
            cst = list(S)[(i + 2) % len(S)]
            ckw = dict(ref="C %d " % n, meta={"c": n}, status=cst)
        cq = ctx.int("cq%d" % n, 1, nmax)
        if entry == "epic":
            cl = ep.close_trade(trade=tr, quantity=cq, **ckw)
        elif entry == "strategy":
            cl = st.close_trade(trade=tr, quantity=cq, **ckw)
        else:
            cl = tr.close(close_value=1.0, datetime=dt, quantity=cq, **ckw)
        ctx.check("a close belongs to its trade", cl.trade is tr and len(tr.closes) == 1 and tr.closes[0] is cl)
        ctx.check("the instant of a close is kept", same_instant(ctx, cl.datetime, dt))
        if given:
            ctx.check("reference, metadata and status of a close", cl.ref == "C %d " % n and cl.meta == {"c": n} and cl.status == cst)
        else:
            ctx.check("defaults of a close", isinstance(cl.ref, str) and cl.ref != "" and cl.meta == {} and cl.status == S.CREATED)
            cl.meta["closed"] = n
        made.append((tr, cl))
        row(ctx, tr, own)
        ctx.cover("made")
    (a, ca), (b, cb) = made
    if not given:
        ctx.check("metadata is not shared", a.meta == {"seen": 0} and b.meta == {"seen": 1} and ca.meta == {"closed": 0} and cb.meta == {"closed": 1})
    # a later state
    ep.on_new_tick(cent_tick(ctx, "p2", later(dt, seconds=5), lo, hi, 100))
    for t, c in made:
        row(ctx, t, t.strategy)
        if given:
            ctx.check("kept afterwards", t.ref == " t%d\t" % made.index((t, c)) and c.ref == "C %d " % made.index((t, c)))
    ctx.observe("r", [a.result, b.result])


def row(ctx, tr, own):
    d = tr.asdict()
    ctx.check("keys of a trade's dictionary", set(d) == {"ref", "status", "epic", "strategy", "open_date", "direction", "open_quantity", "open_value", "closed_quantities", "result"})
    ctx.check("names in a trade's dictionary", d["ref"] == tr.ref and d["status"] == tr.status and d["epic"] == "E" and d["direction"] == tr.direction)
    ctx.check("the strategy in a trade's dictionary", d["strategy"] == ("S" if own is not None else "undefined"))
    ctx.check("numbers in a trade's dictionary", ctx.And(ctx.eq(d["open_quantity"], tr.open_quantity), ctx.near(d["open_value"], tr.open_value),
                                                        ctx.eq(d["closed_quantities"], ctx.Sum([ctx.N(c.quantity) for c in tr.closes])), ctx.near(d["result"], tr.result)))


DATES = (("UTC", (2020, 6, 1, 9, 5, 7, 1), "2020-06-01 09:05:07"), ("UTC", (1999, 12, 31, 23, 59, 59, 999999), "1999-12-31 23:59:59"),
         ("Asia/Tokyo", (2020, 2, 29, 20, 0, 0), "2020-03-01 05:00:00"), ("America/New_York", (2021, 1, 1, 0, 30, 0), "2020-12-31 19:30:00"),
         ("Europe/Paris", (2020, 3, 29, 1, 15, 0), "2020-03-29 03:15:00"))


def dates(ctx, lo, hi):
    """dates in dictionaries are the epic's wall clock"""
    L = ctx.lib()
    zn, u, text = ctx.choice("date", DATES)
    ep = epic(ctx, "E", timezone=zn)
    st = L.BaseStrategy(ref="S")
    ep.add_strategy(st)
    dt = at(*(u[3:]), day=u[:3])
    meta = {"id": 4}
    bid, ask = ctx.prices("p", lo, hi, 50)
    t = L.Tick(datetime=dt, bid=bid, ask=ask, meta=meta)
    t2 = L.Tick(datetime=dt, bid=bid, ask=ask)
    t2.meta["x"] = 1
    ctx.check("metadata of ticks", t.meta == {"id": 4} and L.Tick(datetime=dt, bid=bid, ask=ask).meta == {})
    ep.on_new_tick(t)
    ctx.check("the prices of a tick are kept", ctx.And(ctx.near(t.bid, bid), ctx.near(t.ask, ask)))
    d, s = t.asdict(), t.asdict(datetime_to_str=True)
    for x in (d, s):
        ctx.check("a tick's dictionary", set(x) == {"datetime", "bid", "ask", "spread", "value"} and
                  ctx.fork(ctx.And(ctx.near(x["bid"], t.bid), ctx.near(x["ask"], t.ask), ctx.near(x["spread"], t.spread), ctx.near(x["value"], t.value))))
    ctx.check("the date of a tick's dictionary", same_instant(ctx, d["datetime"], dt) and s["datetime"] == text)
    tr = st.open_trade(epic=ep, direction=direction(ctx, ctx.bool("buy")), quantity=1, ref="t")
    ctx.check("the date of a trade's dictionary", tr.asdict()["open_date"] == text)
    ctx.cover("date")
    ctx.observe("d", [s["datetime"], tr.asdict()["open_date"]])


def separate(ctx, lo, hi):
    """two objects made alike share no state"""
    import datetime
    L = ctx.lib()
    a, b = L.Epic(ref="a"), L.Epic(ref="b")
    ctx.check("separate providers", a.trade_provider is not b.trade_provider)
    day = ctx.pyint("day", 0, 6)
    dt = ctx.dt("t", (2020, 6, 1), (2020, 6, 7, 23, 59, 59, 999999), utc())
    what = ctx.choice("what", ("holidays", "trade days", "nothing"))
    if what == "holidays":
        a.holidays.append(datetime.date(2020, 6, 1 + day))
    elif what == "trade days":
        a.trade_days.append(day)
    sa, sb = L.BaseStrategy(ref="s"), L.BaseStrategy(ref="s")
    a.add_strategy(sa)
    b.add_strategy(sb)
    fa, fb = (L.FrameSet(unit=L.Unit.HOUR, unit_quantity=1, ref="f") for _ in range(2))
    a.add_frame_set(fa)
    b.add_frame_set(fb)
    fa.add_indicator(L.CandleSet(ref="c"))
    ctx.check("nothing is shared", list(b.strategies) == ["s"] and b.strategies["s"] is sb and b.frame_sets["f"] is fb and not fb.indicators and list(sb.epics) == ["b"])
    for e in (a, b):
        e.on_new_tick(ctx.tick(dt, 10.0, 11.0))
    ctx.check("frames are not shared", len(fa.frames) == 1 and len(fb.frames) == 1 and fa.frames[0] is not fb.frames[0] and not fb.frames[0].indicators)
    tod, wd = ctx.tod(dt), ctx.mod(ctx.us(dt) - DAY_US, 7 * DAY_US)
    hours = ctx.And(ctx.le(9 * HOUR_US + 30 * 60 * 10 ** 6, tod), ctx.le(tod, 17 * HOUR_US + 30 * 60 * 10 ** 6))
    weekday = ctx.lt(wd, 5 * DAY_US)
    ctx.check("default hours and days", ctx.Iff(ctx.And(hours, weekday), bool(b.market_open)))
    mine = ctx.And(ctx.le(day * DAY_US, wd), ctx.lt(wd, (day + 1) * DAY_US))
    if what == "holidays":
        ctx.check("own holidays", ctx.Iff(ctx.And(hours, weekday, ctx.Not(mine)), bool(a.market_open)))
    elif what == "trade days":
        ctx.check("own trading days", ctx.Iff(ctx.And(hours, ctx.Or(weekday, mine)), bool(a.market_open)))
    ta = sa.open_trade(epic=a, direction=direction(ctx, True), quantity=2, ref="x")
    ctx.check("trades are not shared", not sb.trades and not b.trade_provider.trades and sa.trades == [ta])
    tb = sb.open_trade(epic=b, direction=direction(ctx, False), quantity=1, ref="x")
    ctx.check("closes are not shared", ta.opened_quantities == 2 and tb.opened_quantities == 1)
    ta.close_from_epic(quantity=1)
    ctx.check("closes are separate lists", len(ta.closes) == 1 and not tb.closes)
    ctx.cover(what)
    ctx.observe("open", [a.market_open, b.market_open])


NAMES = ("a", " a ", "A", "a\tb\n", "0", "\u00e9\u6f22", "x" * 40, ".", "None")


def names(ctx, lo, hi):
    """references of epics, strategies, frame sets, indicators, providers and transactions are kept as given"""
    L = ctx.lib()
    ref = ctx.choice("ref", NAMES)
    other = ctx.choice("other", NAMES)
    ep, st = epic(ctx, ref, trade_provider=L.TradeProviderBacktests(ref=ref)), L.BaseStrategy(ref=ref)
    fs, ind = L.FrameSet(unit=L.Unit.TICK, unit_quantity=2, ref=ref), L.CandleSet(ref=ref)
    fs.add_indicator(ind)
    ep.add_strategy(st)
    ep.add_frame_set(fs)
    if other != ref:
        ep.add_strategy(L.BaseStrategy(ref=other))
        ep.add_frame_set(L.FrameSet(unit=L.Unit.TICK, unit_quantity=1, ref=other))
        fs.add_indicator(L.CandleSet(ref=other))
    for x in (ep, st, fs, ind, ep.trade_provider):
        ctx.check("a reference is kept as given", x.ref == ref)
    ctx.check("found by its reference", ep.strategies[ref] is st and ep.frame_sets[ref] is fs and fs.indicators[ref] is ind and st.epics[ref] is ep)
    ctx.check("other references are others", len(ep.strategies) == len(ep.frame_sets) == len(fs.indicators) == (1 if other == ref else 2))
    ep.on_new_tick(cent_tick(ctx, "p", at(10), lo, hi, 50))
    ctx.check("the value of an indicator is found by its reference", fs.frames[0][ref] is not None and fs.frames[0][ref].indicator is ind)
    ctx.check("an unknown reference has no value", fs.frames[0]["zz"] is None)
    t = st.open_trade(epic=ep, direction=direction(ctx, ctx.bool("buy")), quantity=ctx.int("q", 1, 4), ref=ref)
    c = ep.close_trade(trade=t, quantity=1, ref=other)
    ctx.check("a transaction's reference is kept as given", t.ref == ref and c.ref == other)
    row = t.asdict()
    ctx.check("references in a dictionary are those given", row["ref"] == ref and row["epic"] == ref and row["strategy"] == ref)
    ctx.cover("named")
    ctx.observe("names", [x.ref for x in (ep, st, fs, ind, t, c)])


def ticks_of(ctx, epics, lo, hi):
    """a tick provider knows its epics by reference"""
    L = ctx.lib()

    class Feed(L.BaseTickProvider):
        def run(self):
            for i, p in enumerate(self.prices):
                e = self.get_epic_by_ref("E%d" % self.order[i])
                e.on_new_tick(ctx.tick(later(at(10), seconds=i), p, p))
                yield e.last_tick
    eps = [epic(ctx, "E%d" % i) for i in range(epics)]
    f = Feed(eps)
    f.order = [ctx.pyint("o%d" % i, 0, epics - 1) for i in range(3)]
    f.prices = [ctx.cents(ctx.int("p%d" % i, lo, hi)) for i in range(3)]
    ctx.check("an unknown reference gives nothing", f.get_epic_by_ref("E%d" % epics) is None and f.get_epic_by_ref("") is None)
    for i, e in enumerate(eps):
        ctx.check("an epic is found by its reference", f.get_epic_by_ref("E%d" % i) is e)
    got = list(f.run())
    ctx.check("every tick is given", len(got) == 3 and ctx.fork(ctx.And(*[ctx.near(t.bid, p) for t, p in zip(got, f.prices)])))
    for i, e in enumerate(eps):
        mine = [t for t, o in zip(got, f.order) if o == i]
        ctx.check("every tick reaches its epic", (e.last_tick is mine[-1]) if mine else e.last_tick.bid == 0)
    g = L.BaseTickProvider(eps[:1])
    ctx.check("tick providers are separate", g.get_epic_by_ref("E1") is None and g.get_epic_by_ref("E0") is eps[0] and f.get_epic_by_ref("E1") is eps[1])
    ctx.check("the base provider cannot run", ctx.raises(NotImplementedError, g.run))
    ctx.cover("fed")
    ctx.observe("n", len(got))


_B = 10 ** 5
HARNESSES = [H(transactions, [dict(entry=e, given=g, nmax=4, lo=-100, hi=100) for e in ("epic", "strategy", "bare") for g in (False, True)],
               [dict(entry=e, given=g, nmax=6, lo=-_B, hi=_B, zn=z) for e in ("epic", "strategy", "bare") for g in (False, True) for z in ("UTC", "Asia/Tokyo")], covers=["made"],
               bounds="two trades and two closes through the epic, the strategy or the classes, with and without reference, metadata and any status, any quantities 1-4 (thorough 6), prices "
                      "within +-1.00 (1 000.00), at any microsecond of June 2020, then one more tick"),
             H(dates, [dict(lo=-100, hi=100)], [dict(lo=-_B, hi=_B)], covers=["date"], bounds="5 dates around days, years and offset changes in 4 zones, any prices within +-1.00 (thorough 1 000.00)"),
             H(separate, [dict(lo=0, hi=100)], [dict(lo=0, hi=_B)], covers=["holidays", "trade days", "nothing"], bounds="two epics, strategies and frame sets made with the defaults, any microsecond of a week, any day"),
             H(names, [dict(lo=-100, hi=100)], [dict(lo=-_B, hi=_B)], covers=["named"], bounds="any two of 9 references (blanks, control characters, other scripts, letter cases, digits), any prices of a tick, any quantity 1-4"),
             H(ticks_of, [dict(epics=2, lo=-100, hi=100)], [dict(epics=3, lo=-_B, hi=_B)], covers=["fed"], bounds="3 ticks of any prices fed to two (thorough three) epics in any order")]
