"""Not a property: the stand-ins against the real datetime, arrow, pytz and floats.  Every path's observations are replayed on the real
interpreter (tools/selftest.py --full)."""
from symx.h import H
from harness.common import *

ZONES = ("UTC", "Europe/Paris", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "America/St_Johns")


def fields(d):
    return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.weekday(), d.isoweekday(), d.toordinal()]


def dates(ctx, zone, lo, hi):
    import arrow
    dt = ctx.dt("d", lo, hi, utc())
    a = arrow.get(dt).to(zone)
    ctx.observe("fields", fields(a) + list(a.isocalendar()))
    ctx.observe("text", [a.strftime("%Y-%m-%d"), a.strftime("%d/%m/%y %j"), str(a.date()), a.date().isoformat()])
    ctx.observe("stamp", [a.timestamp, a.utcoffset().total_seconds(), (a - arrow.get("2020-01-01")).total_seconds(), a.fold])


def floors(ctx, zone, lo, hi):
    import arrow
    a = arrow.get(ctx.dt("d", lo, hi, utc())).to(zone)
    for u in ("second", "minute", "hour", "day", "week", "month", "quarter", "year"):
        f = a.floor(u)
        ctx.observe("floor " + u, [f] + fields(f))
        ctx.check("a floor is not later", ctx.le(ctx.us(f), ctx.us(a)) if u not in ("second", "minute", "hour", "day") else True)
    ctx.observe("ceil", [a.ceil("day"), a.ceil("month")])


def shifts(ctx, zone, lo, hi):
    import arrow
    a = arrow.get(ctx.dt("d", lo, hi, utc())).to(zone)
    n = ctx.pyint("n", -13, 13)
    for k in ("seconds", "minutes", "hours", "days", "weeks", "months", "years"):
        s = a.shift(**{k: n})
        ctx.observe("shift " + k, [s] + fields(s))


def arithmetic(ctx, zone, lo, hi):
    import arrow
    import datetime
    from datetime import timedelta
    a = arrow.get(ctx.dt("d", lo, hi, utc())).to(zone)
    b = arrow.get(ctx.dt("e", lo, hi, utc()))
    s = ctx.int("s", -90000, 90000)
    ctx.observe("plus", [a + timedelta(seconds=s, microseconds=7), a - timedelta(days=1, seconds=s), a.replace(hour=3, minute=0, second=0, microsecond=0),
                         a.replace(month=1, day=1), a.replace(tzinfo="Asia/Tokyo")])
    d = a - b
    ctx.observe("delta", [d.days, d.seconds, d.microseconds, d.total_seconds(), d // timedelta(minutes=7), (d % timedelta(hours=1)).total_seconds(), abs(d).total_seconds()])
    ctx.observe("order", [a < b, a <= b, a == b, a > b, max(a, b), min(a, b)])
    ctx.observe("parts", [a.date() < b.date(), a.date() == b.date(), a.time() < datetime.time(12, 30), a.time() >= b.time(), (a.date() - b.date()).days])
    ctx.observe("sorted", [x for x in sorted([a, b, arrow.get("2020-06-01T10:00:00")])])
    ctx.observe("made", [arrow.Arrow(a.year, a.month, 1, tzinfo=a.tzinfo), arrow.get(a.datetime), datetime.datetime.combine(a.date(), datetime.time(1, 2)).hour])


def floats(ctx, lo, hi):
    x, y = ctx.cents(ctx.int("x", lo, hi)), ctx.cents(ctx.int("y", lo, hi))
    k = ctx.int("k", 1, 9)
    ctx.observe("ops", [x + y, x - y, x * k, -x, abs(x), round(x + y, 2), round(x - y, 2), max(x, y), min(x, y), x < y, x == y, x * 0.5, 2 * x - y])
    ctx.observe("sums", [sum([x, y, x]), round(sum([x, y, x]), 2), round((x + y) / 2, 3), round(x * k, 2)])
    ctx.observe("ints", [int(x), round(x), x // 1, bool(x), x > 0 and y > 0, float(k)])


def ties(ctx, lo, hi):
    x, y = ctx.cents(ctx.int("x", lo, hi)), ctx.cents(ctx.int("y", lo, hi))
    ctx.observe("halves", [round((x + y) / 2, 2), round(x / 4, 2), round((x + y) / 3, 2)])


def integers(ctx, lo, hi):
    i, j = ctx.int("i", lo, hi), ctx.int("j", 1, 9)
    ctx.observe("ops", [i + j, i - j, i * 3, i // 7, i % 7, -i, abs(i), divmod(i, 5)[0], divmod(i, 5)[1], i // -4, i % -4, max(i, j), min(i, j), int(i), float(i), i / 4, i < j, i == j,
                        bool(i), i * j, round(i), j in (1, 2, 3), sum([i, j])])
    k = ctx.pyint("k", 0, 4)
    ctx.observe("containers", [list(range(10))[-k - 1], {0: "a", 1: "b"}.get(k), sorted([i, j, 0]), [z for z in (i, j, k) if z > 2], "abcdef"[k:], len([0] * k), "%d-%05d" % (j, k)])


def decimals(ctx, lo, hi):
    import decimal
    x, y = ctx.cents(ctx.int("x", lo, hi)), ctx.cents(ctx.int("y", lo, hi))
    D, fl = decimal.Decimal, float
    if type(x) is not float:
        from symx import loader, sdecimal
        D, fl = sdecimal.Decimal, loader.float_shim
    a, b = D(str(x)), D(str(y))
    ctx.observe("ops", [fl(a + b), fl(a - b), fl(a * 3), fl(-a), fl(abs(b)), a < b, a == b, fl(max(a, b)), bool(a)])
    ctx.observe("halves", [fl(((a + b) / 2).quantize(D("0.01"))), fl((a / 4).quantize(D("0.01"), rounding=decimal.ROUND_HALF_UP)), fl(round((a + b) / 3, 2)), fl((a / 8).quantize(D("0.1"), rounding=decimal.ROUND_FLOOR)),
                           round(a), fl(b.quantize(D("1"), rounding=decimal.ROUND_DOWN)), fl((b / 8).quantize(D("0.01"), rounding=decimal.ROUND_HALF_DOWN))])
    ctx.observe("text", [fl("{:.1f}".format(x * 2)), fl(f"{x + y:.2f}"), fl(str(a))])


_R = [((2020, 2, 27), (2020, 3, 2, 12)), ((2019, 12, 30), (2020, 1, 7)), ((2020, 3, 28), (2020, 3, 30)), ((2020, 10, 24, 12), (2020, 10, 26))]
_D = [dict(zone=z, lo=a, hi=b) for z in ZONES for a, b in _R]
HARNESSES = [H(dates, _D), H(floors, _D), H(shifts, _D[::3]), H(arithmetic, _D[::5]), H(floats, [dict(lo=-500, hi=500), dict(lo=-10 ** 6, hi=10 ** 6)]),
             H(ties, [dict(lo=-50, hi=50)]), H(decimals, [dict(lo=-50, hi=50), dict(lo=-10 ** 6, hi=10 ** 6)]), H(integers, [dict(lo=-30, hi=30), dict(lo=-10 ** 9, hi=10 ** 9)])]
