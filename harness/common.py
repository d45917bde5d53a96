"""Shared pieces of the harnesses: building epics, ticks and strategies through the public API."""
import itertools

D0 = (2020, 6, 1)  # a Monday
BIG = 10 ** 7      # 100 000.00 in cents


def real_dt():
    import datetime
    return datetime


def at(h=10, m=0, s=0, us=0, day=D0, tz=None):
    """aware concrete datetime"""
    import datetime
    import pytz
    return datetime.datetime(day[0], day[1], day[2], h, m, s, us, tzinfo=tz or pytz.UTC)


def later(dt, **kw):
    import datetime
    return dt + datetime.timedelta(**kw)


def zone(name):
    from dateutil import tz
    z = tz.gettz(name)
    assert z is not None, name
    return z


def utc():
    import pytz
    return pytz.UTC


class EveryDay(list):
    """all seven weekdays, without a case split per weekday"""

    def __contains__(self, x):
        return True


def epic(ctx, ref="E", **kw):
    L = ctx.lib()
    import datetime
    odd = getattr(ctx, "world", None) == "odd"
    if odd:
        # a market that is closed all along, another zone, frames and indicators around, stopped strategies that trade without being attached
        kw.setdefault("open_time", datetime.time(23, 59, 59, 999998))
        kw.setdefault("timezone", "Asia/Tokyo")
    kw.setdefault("open_time", datetime.time(0, 0))
    kw.setdefault("close_time", datetime.time(23, 59, 59, 999999))
    kw.setdefault("trade_days", EveryDay(range(7)))
    ep = L.Epic(ref=ref, **kw)
    if odd:
        fs = L.FrameSet(unit=L.Unit.TICK, unit_quantity=2, ref="around", max_frames_in_memory=2)
        fs.add_indicator(L.CandleSet(ref="around"))
        ep.add_frame_set(fs)
        ep.add_strategy = lambda strategy: setattr(strategy, "stopped", True)
    return ep


def cent_tick(ctx, name, dt, lo=-BIG, hi=BIG, smax=1000, smin=0, den=1):
    """prices in cents, or in 1 / den of a cent"""
    if den > 1:
        b, s = ctx.int(name + ".bid", lo, hi), ctx.int(name + ".spr", smin, smax)
        return ctx.tick(dt, ctx.cents(b, den), ctx.cents(b + s, den))
    bid, ask = ctx.prices(name, lo, hi, smax, smin)
    return ctx.tick(dt, bid, ask)


def value_tick(ctx, name, dt, lo, hi):
    """tick whose bid, ask and value are the same symbolic price"""
    k = ctx.int(name, lo, hi)
    p = ctx.cents(k)
    return ctx.tick(dt, p, p)


def val(ctx, tick):
    return ctx.N(tick.value)


class Counter:
    def __init__(self):
        self.n = 0

    def __call__(self, base):
        self.n += 1
        return "%s%d" % (base, self.n)


def direction(ctx, d):
    L = ctx.lib()
    return L.TradeDirection.BUY if d in ("BUY", 1, True) else L.TradeDirection.SELL


def is_buy(ctx, trade):
    return trade.direction == ctx.lib().TradeDirection.BUY


def side(ctx, buy, tick):
    """(open price, close price) at a tick as spec values"""
    b, a = ctx.N(tick.bid), ctx.N(tick.ask)
    return (a, b) if buy else (b, a)


def pnl(ctx, buy, open_price, close_price):
    d = close_price - open_price
    return d if buy else -d


def same_instant(ctx, a, b):
    return ctx.eq(ctx.instant(a), ctx.instant(b))


# ------------------------------------------------------------------ independent calendar oracle
DAY_US = 86400 * 10 ** 6
HOUR_US = 3600 * 10 ** 6


def naive_us(*a):
    """microseconds of a naive date (y, m, d, h, mi, s, us) on the scale of ctx.us / ctx.instant (ordinal days)"""
    import datetime
    d = datetime.date(*a[:3]).toordinal() * DAY_US
    h, mi, s, us = (list(a[3:]) + [0, 0, 0, 0])[:4]
    return d + ((h * 60 + mi) * 60 + s) * 10 ** 6 + us


# UTC instants of the offset changes of 2019-2021 and the offsets (hours) around them
ZONE_CHANGES = {
    "UTC": (0, []),
    "Asia/Tokyo": (9, []),
    "Europe/Paris": (1, [((2019, 3, 31, 1), 2), ((2019, 10, 27, 1), 1), ((2020, 3, 29, 1), 2), ((2020, 10, 25, 1), 1),
                         ((2021, 3, 28, 1), 2), ((2021, 10, 31, 1), 1)]),
    "Europe/London": (0, [((2019, 3, 31, 1), 1), ((2019, 10, 27, 1), 0), ((2020, 3, 29, 1), 1), ((2020, 10, 25, 1), 0),
                          ((2021, 3, 28, 1), 1), ((2021, 10, 31, 1), 0)]),
    "America/New_York": (-5, [((2019, 3, 10, 7), -4), ((2019, 11, 3, 6), -5), ((2020, 3, 8, 7), -4), ((2020, 11, 1, 6), -5),
                              ((2021, 3, 14, 7), -4), ((2021, 11, 7, 6), -5)]),
}


def local_us(ctx, instant, zone_name, lo=None, hi=None):
    """wall clock of a UTC instant in a zone, from the table above (2019-2021); lo/hi: UTC range of the instant"""
    off, changes = ZONE_CHANGES[zone_name]
    r = ctx.N(instant) + off * HOUR_US
    for when, o in changes:
        w = naive_us(*when)
        if hi is not None and w > hi:
            break
        if lo is not None and w <= lo:
            r = ctx.N(instant) + o * HOUR_US
            continue
        r = ctx.Ite(ctx.ge(instant, w), ctx.N(instant) + o * HOUR_US, r)
    return r


def rng_us(lo, hi):
    return naive_us(*lo), naive_us(*hi)


def weekday_is(ctx, wall, k):
    """is the wall clock (microseconds) on weekday k (Monday = 0)?  ordinal 1 is a Monday"""
    m = ctx.mod(ctx.N(wall) - DAY_US, 7 * DAY_US)
    return ctx.And(ctx.ge(m, k * DAY_US), ctx.lt(m, (k + 1) * DAY_US))


# ------------------------------------------------------------------ moments of ticks
def moment(ctx, n, times, prev, day=D0):
    """datetime of tick n: fixed seconds after 10:00 (times), or any microsecond of the `times[1]` seconds after 10:00, not before prev"""
    if times is None:
        return later(at(10), seconds=n)
    if times[0] != "any":
        return later(at(10), seconds=times[n])
    import datetime
    d, s = divmod(10 * 3600 + times[1] - 1, 86400)
    end = datetime.date(*day) + datetime.timedelta(days=d)
    dt = ctx.dt("at%d" % n, day + (10,), (end.year, end.month, end.day, s // 3600, s // 60 % 60, s % 60, 999999), utc())
    if prev is not None:
        ctx.assume(ctx.ge(ctx.us(dt), ctx.us(prev)))
    return dt


def paced(ctx, name, prev, pace="steady", start=None, span=3):
    """datetime of the tick after prev (None: the first one): a second later, the same instant ("same"), or any microsecond not before prev ("any")"""
    start = start or at(10)
    if pace == "any":
        dt = ctx.dt("at.%s" % name, (start.year, start.month, start.day, start.hour), (start.year, start.month, start.day, start.hour, 0, span), utc())
        if prev is not None:
            ctx.assume(ctx.ge(ctx.us(dt), ctx.us(prev)))
        return dt
    if prev is None or pace == "same":
        return start
    return later(prev, seconds=1)


def frames_later(ctx, prev, dt, k_us, most=400):
    """number of period starts between two datetimes (forks), periods of k_us microseconds aligned on the day"""
    a, b = ctx.us(prev), ctx.us(dt)
    d = (b - ctx.mod(b, k_us)) - (a - ctx.mod(a, k_us))
    for j in range(most):
        if ctx.fork(ctx.eq(d, j * k_us)):
            return j
    raise AssertionError("too many frames between two ticks")


def market(ctx, closed, shut=None):
    """epic whose market opens `closed` seconds after 10:00 (None: always open) and closes `shut` seconds after 10:00"""
    import datetime
    k = {} if closed is None else dict(open_time=datetime.time(10, closed // 60, closed % 60))
    if shut is not None:
        k["close_time"] = datetime.time(10, shut // 60, shut % 60)
    return epic(ctx, **k)


def halted(ctx, name, st):
    """the strategy as it is, stopped, or paused until any time: it trades all the same"""
    import arrow
    k = ctx.choice(name, ("active", "stopped", "paused"))
    if k == "stopped":
        st.stopped = True
    elif k == "paused":
        st.paused_until = arrow.get(ctx.dt(name + ".until", (2020, 6, 1), (2020, 6, 3), utc()))
    return st
