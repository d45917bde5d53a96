"""C11 Market open state follows hours, trading days and holidays."""
from symx.h import H
from harness.common import *

TZ = {"UTC": "UTC", "Paris": "Europe/Paris", "NY": "America/New_York", "Tokyo": "Asia/Tokyo"}


def sym_time(ctx, name, res="us"):
    import datetime
    h, m = ctx.int(name + ".h", 0, 23), ctx.int(name + ".mi", 0, 59)
    s = ctx.int(name + ".s", 0, 59) if res != "min" else 0
    u = ctx.int(name + ".us", 0, 999999) if res == "us" else 0
    return datetime.time(h, m, s, u)


def expected_open(ctx, wall, open_us, close_us, days, holidays):
    tod = ctx.mod(wall, DAY_US)
    day = False
    for k in range(7):
        day = ctx.Or(day, ctx.And(weekday_is(ctx, wall, k), ctx.Or(*[ctx.eq(d, k) for d in days])))
    hol = False
    for o in holidays:
        hol = ctx.Or(hol, ctx.And(ctx.ge(wall, o * DAY_US), ctx.lt(wall, (o + 1) * DAY_US)))
    return ctx.And(ctx.le(open_us, tod), ctx.le(tod, close_us), day, ctx.Not(hol))


def market(ctx, tz, lo, hi, ticks, ndays, nhol, hours, years=(2020, 2020), subset=False, listed=0, listed_years=(2020,)):
    import datetime
    L = ctx.lib()
    kw = {}
    if hours == "sym":
        kw["open_time"], kw["close_time"] = sym_time(ctx, "open"), sym_time(ctx, "close")
    elif hours == "given":
        kw["open_time"], kw["close_time"] = datetime.time(9, 0, 0), datetime.time(17, 30, 0)
    open_us, close_us = (9 * 60 + 30) * 60 * 10 ** 6, (17 * 60 + 30) * 60 * 10 ** 6
    if kw:
        open_us, close_us = ctx.tod(kw["open_time"]), ctx.tod(kw["close_time"])
    days = [0, 1, 2, 3, 4]
    if subset:
        days = [k for k in range(7) if ctx.bool("day%d" % k)]
        if not days:
            raise_infeasible(ctx)
        kw["trade_days"] = days
    elif ndays:
        days = [ctx.int("d%d" % i, 0, 6) for i in range(ndays)]
        kw["trade_days"] = days
    hols = []
    if nhol:
        kw["holidays"] = []
        for i in range(nhol):
            y, m, d = ctx.ymd("hol%d" % i, *years)
            kw["holidays"].append(datetime.date(y, m, d))
            hols.append(ctx.ordinal(kw["holidays"][-1]))
    if listed:
        # many fixed holidays, all over the year
        kw["holidays"] = [datetime.date(listed_years[i % len(listed_years)], 1 + 12 * i // listed, 1 + 5 * i % 28) for i in range(listed)]
        hols = [d.toordinal() for d in kw["holidays"]]
        ctx.cover("many holidays")
    ep = L.Epic(ref="E", timezone=TZ[tz], **kw)
    ctx.check("closed before the first tick", ep.market_open is False)
    prev = None
    a, b = rng_us(lo, hi)
    for i in range(ticks):
        dt = ctx.dt("t%d" % i, lo, hi, utc(), "us")
        inst = ctx.instant(dt)
        if prev is not None:
            ctx.assume(ctx.ge(inst, prev))
        prev = inst
        ep.on_new_tick(ctx.tick(dt, 10.0, 10.0))
        exp = expected_open(ctx, local_us(ctx, inst, TZ[tz], a, b), open_us, close_us, days, hols)
        got = ep.market_open
        ctx.check("market open iff in hours, on a trading day, not on a holiday", ctx.Iff(exp, bool(got)))
        ctx.check("is_market_open agrees", ctx.Iff(exp, bool(ep.is_market_open())))
        ctx.cover("open" if got else "closed")
        ctx.observe("open%d" % i, bool(got))


def raise_infeasible(ctx):
    ctx.assume(False)


_Y = ((2020, 1, 2), (2020, 12, 30, 23, 59, 59, 999999))
_YY = ((2019, 1, 2), (2021, 12, 30, 23, 59, 59, 999999))
_W = ((2020, 6, 1), (2020, 6, 8, 23, 59, 59, 999999))


def _c(tz, r, ticks=1, ndays=0, nhol=0, hours="default", **k):
    return dict(tz=tz, lo=r[0], hi=r[1], ticks=ticks, ndays=ndays, nhol=nhol, hours=hours, **k)


_Q = [_c("UTC", _Y), _c("UTC", _Y, hours="sym"), _c("UTC", _Y, nhol=2, hours="given"), _c("Paris", _Y, hours="sym"), _c("NY", _Y),
      _c("Tokyo", _Y, nhol=1, hours="sym"), _c("UTC", _W, ndays=2, hours="sym"), _c("UTC", _W, subset=True), _c("UTC", _W, ticks=2, hours="sym"),
      _c("Paris", _Y, nhol=1), _c("UTC", _Y, listed=40, subset=False), _c("NY", _Y, listed=15, ndays=7),
      _c("UTC", _YY, listed=24, listed_years=(2019, 2020, 2021, 2022)), _c("Paris", _Y, listed=12, listed_years=(2018, 2019, 2021)), _c("UTC", _Y, nhol=1, hours="given", years=(2019, 2021))]
_T = [_c(z, _YY, nhol=2, hours="sym", years=(2019, 2021)) for z in TZ] + \
     [_c(z, _W, subset=True, nhol=1, hours="sym") for z in TZ] + \
     [_c(z, _Y, ndays=3, hours="sym") for z in TZ] + [_c(z, _Y, ticks=3, hours="given", nhol=1) for z in TZ]

HARNESSES = [H(market, _Q, _T, covers=["open", "closed", "many holidays"],
               bounds="1-2 (thorough 3) ticks at any microsecond of 2020 (thorough 2019-2021), any opening and closing times to the microsecond, all subsets "
                      "of trading days, up to 2 arbitrary holidays or 15 and 40 given ones, epics in UTC, Tokyo, Paris and New York; empty trade_days (falls back to the default "
                      "days) is outside")]
