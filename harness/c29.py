"""C29 A tick's spread and value are consistent and bad ticks are refused."""
import decimal
import fractions

from symx.h import H
from harness.common import *


def grid(ctx, lo, hi, kind):
    """cent-grid prices, floats or whole numbers"""
    L = ctx.lib()
    b, a = ctx.int("bid", lo, hi), ctx.int("ask", lo, hi)
    if kind == "int":
        pb, pa, unit = b, a, 100
    elif kind == "mixed":
        pb, pa, unit = ctx.cents(b), a, None
    else:
        pb, pa, unit = ctx.cents(b), ctx.cents(a), 1
    B, A = ctx.N(pb), ctx.N(pa)
    box = []
    refused = ctx.raises(L.TickException, lambda: box.append(ctx.tick(at(10), pb, pa)))
    ctx.check("accepted iff bid <= ask", ctx.Iff(ctx.le(B, A), not refused))
    ctx.cover("refused" if refused else "accepted")
    if refused:
        return
    t = box[0]
    ctx.check("bid and ask are kept", ctx.And(ctx.near(t.bid, B), ctx.near(t.ask, A)))
    s, v = ctx.N(t.spread), ctx.N(t.value)
    ctx.check("spread is ask - bid to the cent", ctx.near(s, A - B))
    ctx.check("spread is not negative", ctx.ge(s, 0))
    ctx.check("value is between bid and ask", ctx.And(ctx.ge(v, B, tol=1e-9), ctx.le(v, A, tol=1e-9)))
    ctx.check("value is within half a cent of the mid-point", ctx.near(v * 2, A + B, 0.01 + 1e-9))
    d = t.asdict()
    ctx.check("dictionary", ctx.And(ctx.near(d["bid"], B), ctx.near(d["ask"], A), ctx.near(d["spread"], s), ctx.near(d["value"], v)))
    ctx.observe("s", [t.spread, t.value])


def fine(ctx, lo, hi, den):
    """prices with more decimals"""
    L = ctx.lib()
    b, a = ctx.int("bid", lo, hi), ctx.int("ask", lo, hi)
    pb, pa = ctx.cents(b, den), ctx.cents(a, den)
    box = []
    refused = ctx.raises(L.TickException, lambda: box.append(ctx.tick(at(10), pb, pa)))
    ctx.check("accepted iff bid <= ask", ctx.Iff(ctx.le(b, a), not refused))
    if refused:
        return
    t = box[0]
    B, A = ctx.N(pb), ctx.N(pa)
    ctx.check("spread within a cent", ctx.near(t.spread, A - B, 0.01 + 1e-9))
    ctx.check("value within a cent of the mid-point", ctx.near(ctx.N(t.value) * 2, A + B, 0.02 + 1e-9))
    ctx.cover("fine")
    ctx.observe("s", [t.spread, t.value])


BAD = ("1.0", None, [1.0], (1,), {}, b"1", 1j, decimal.Decimal("1.5"), fractions.Fraction(3, 2))


def types(ctx, lo, hi):
    import datetime
    L = ctx.lib()
    k = ctx.int("price", lo, hi)
    good = ctx.cents(k)
    i, j = ctx.int("bid type", 0, len(BAD)), ctx.int("ask type", 0, len(BAD))
    pick = lambda n: good if ctx.fork(ctx.eq(n, len(BAD))) else BAD[next(x for x in range(len(BAD)) if ctx.fork(ctx.eq(n, x)))]
    pb, pa = pick(i), pick(j)
    naive = ctx.dt("naive", (2020, 1, 1), (2020, 12, 31, 23, 59, 59, 999999), None)
    dates = (at(10), naive, "2020-06-01", None, datetime.date(2020, 6, 1), 1590000000, at(10, tz=zone("Europe/Paris")), datetime.time(10, tzinfo=utc()))
    which = ctx.choice("date", range(7))
    dt = dates[which]
    ok_dt = which in (0, 6)
    box = []
    try:
        box.append(ctx.tick(dt, pb, pa))
        got = None
    except L.TickException:
        got = "tick"
    except L.TimeException:
        got = "time"
    ok_p = pb is good and pa is good
    ctx.check("accepted iff numbers and a date with a timezone", (got is None) == (ok_dt and ok_p))
    if got is not None:
        ctx.check("the time exception for the date, the tick exception for the prices", not (got == "time" and ok_dt) and not (got == "tick" and ok_p))
        ctx.cover("refused " + got)
    else:
        ctx.cover("accepted")
        ctx.check("the instant is kept", same_instant(ctx, box[0].datetime, dt))


def later_prices(ctx, lo, hi):
    """any tick, any instant and timezone: the date is kept"""
    zn = ctx.choice("zone", ("UTC", "Europe/Paris", "Asia/Tokyo"))
    dt = ctx.dt("t", (2020, 1, 1), (2020, 12, 31), utc() if zn == "UTC" else zone(zn))
    b, a = ctx.prices("p", lo, hi, 100)
    t = ctx.tick(dt, b, a)
    ctx.check("the instant is kept", same_instant(ctx, t.datetime, dt))
    ctx.check("the UTC date is the same instant", same_instant(ctx, t.datetime_utc, dt))
    ctx.cover("kept")


_B = 10 ** 8
HARNESSES = [
    H(grid, [dict(lo=-_B, hi=_B, kind=k) for k in ("float", "int")] + [dict(lo=-10 ** 6, hi=10 ** 6, kind="mixed")], [dict(lo=-10 ** 11, hi=10 ** 11, kind=k) for k in ("float", "int", "mixed")],
      covers=["refused", "accepted"], bounds="every pair of prices of the cent grid within +-1 000 000.00 (thorough +-10^9), as floats, ints or a mix"),
    H(fine, [dict(lo=-10 ** 6, hi=10 ** 6, den=d) for d in (10, 1000)], [dict(lo=-10 ** 9, hi=10 ** 9, den=d) for d in (10, 100, 1000, 10000)], covers=["fine"],
      bounds="every pair of prices with 3 and 5 (thorough 3-6) decimals"),
    H(types, [dict(lo=-100, hi=100)], [dict(lo=-_B, hi=_B)], covers=["refused tick", "refused time", "accepted"], bounds="a symbolic price or one of 9 other objects for bid and ask, 7 kinds of dates"),
    H(later_prices, [dict(lo=-100, hi=100)], [dict(lo=-_B, hi=_B)], covers=["kept"], bounds="any microsecond of 2020 in three zones"),
]
