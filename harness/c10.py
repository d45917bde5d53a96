"""C10 Ticks are accepted in chronological order and rejected ticks leave no trace."""
from symx.h import H
from harness.common import *

ZONES = {"UTC": None, "Paris": "Europe/Paris", "NY": "America/New_York", "Tokyo": "Asia/Tokyo"}


def tz(name):
    return utc() if name == "UTC" else zone(ZONES[name])


def snapshot(ep, st, trades):
    """everything a tick may change, as a list of comparable pieces"""
    s = [ep.last_tick, ep.last_tick.datetime, ep.market_open, list(st.calls), len(ep.trade_provider.trades)]
    for fs in ep.frame_sets.values():
        s.append(len(fs.frames))
        for f in fs.frames:
            s += [f, f.first_tick, f.last_tick, f.high_tick, f.low_tick, f.nb_ticks, f.next_frame, f.previous_frame]
            for v in f.indicators.values():
                s += [v, v.first_tick, v.last_tick, v.high_tick, v.low_tick] if v is not None else [None]
    for t in trades:
        s += [t.current_close_value, t.max_result, t.min_result, len(t.closes)]
    return s


def unchanged(ctx, a, b):
    if len(a) != len(b):
        return False
    r = True
    for x, y in zip(a, b):
        if x is y:
            continue
        if isinstance(x, (bool, list)) or isinstance(y, (bool, list)):
            r = ctx.And(r, x == y)
        elif hasattr(x, "_datetime") and hasattr(y, "_datetime"):
            r = ctx.And(r, same_instant(ctx, x, y))
        elif isinstance(x, (int, float)) and isinstance(y, (int, float)):
            r = ctx.And(r, ctx.near(x, y))
        else:
            return False
    return r


def order(ctx, epic_tz, tick_tzs, lo, hi, state, res, flat=False):
    L = ctx.lib()
    ep = epic(ctx, timezone=ZONES[epic_tz] or "UTC")

    class Rec(L.BaseStrategy):
        def __init__(self, **k):
            L.BaseStrategy.__init__(self, **k)
            self.calls = []

        def on_every_tick(self, e):
            self.calls.append(e.last_tick)

    st = Rec(ref="S")
    ep.add_strategy(st)
    if state:
        import datetime
        ep.open_time, ep.close_time = datetime.time(9, 0), datetime.time(17, 0)
        fs = L.FrameSet(unit=L.Unit.TICK, unit_quantity=2, ref="T")
        fs.add_indicator(L.CandleSet(ref="C"))
        ep.add_frame_set(fs)
    last = None
    trades = []
    for i, z in enumerate(tick_tzs):
        dt = ctx.dt("t%d" % i, lo, hi, tz(z), res)
        t = ctx.tick(dt, 10.0 + i * (not flat), 10.5 + i * (not flat))
        now = ctx.instant(t.datetime)
        before = snapshot(ep, st, trades)
        rejected = ctx.raises(L.EpicException, ep.on_new_tick, t)
        ok = True if last is None else ctx.ge(now, last)
        ctx.check("accepted iff not before the last accepted tick", ctx.Iff(ok, not rejected))
        if rejected:
            ctx.check("a rejected tick leaves no trace", unchanged(ctx, before, snapshot(ep, st, trades)))
            ctx.cover("rejected")
            if i == len(tick_tzs) - 1:
                ctx.cover("rejected last")
        else:
            ctx.check("an accepted tick is the last tick", ep.last_tick is t)
            ctx.check("an accepted tick keeps its instant", ctx.eq(ctx.instant(t.datetime), now))
            ctx.check("the strategy is called once", len(st.calls) == len(before[3]) + 1 and st.calls[-1] is t)
            last = now
            if state and not trades:
                trades.append(st.open_trade(epic=ep, direction=L.TradeDirection.BUY, quantity=2, ref="t"))
        ctx.observe("rejected%d" % i, rejected)


_U = ((2020, 6, 1), (2020, 6, 3, 23, 59, 59, 999999))
_AUT = ((2020, 10, 24, 22), (2020, 10, 25, 3, 59, 59, 999999))       # UTC range around the end of DST in Paris (01:00 UTC)
_AUTL = ((2020, 10, 25, 0), (2020, 10, 25, 4, 59, 59, 999999))
_SPR = ((2020, 3, 29, 0), (2020, 3, 29, 3, 59, 59, 999999))
_NY = ((2020, 11, 1, 4), (2020, 11, 1, 8, 59, 59, 999999))


def _c(epic_tz, tzs, r, state=False, res="us", **k):
    return dict(epic_tz=epic_tz, tick_tzs=tzs, lo=r[0], hi=r[1], state=state, res=res, **k)


_Q = [_c("UTC", ["UTC"] * 3, _U, True), _c("UTC", ["UTC"] * 4, _U), _c("UTC", ["UTC"] * 3, _U, True, flat=True), _c("Tokyo", ["UTC"] * 2, _U, flat=True), _c("Paris", ["UTC"] * 3, _AUT), _c("Paris", ["UTC", "UTC"], _AUT, True),
      _c("Paris", ["UTC", "Tokyo", "UTC"], _AUT), _c("Paris", ["UTC"] * 3, _SPR), _c("NY", ["UTC"] * 2, _NY),
      _c("UTC", ["Paris", "UTC", "Paris"], _AUTL), _c("Tokyo", ["UTC", "Tokyo", "UTC"], _U)]
_T = [_c("UTC", ["UTC"] * 5, _U, True), _c("UTC", ["UTC"] * 6, _U), _c("UTC", ["UTC"] * 5, _U, True, flat=True), _c("Paris", ["UTC"] * 4, _AUT, True), _c("Paris", ["UTC"] * 5, _AUT),
      _c("Paris", ["UTC", "Tokyo", "UTC", "Tokyo"], _AUT), _c("Paris", ["UTC"] * 4, _SPR, True), _c("NY", ["UTC"] * 4, _NY, True),
      _c("UTC", ["Paris", "UTC", "Paris", "UTC"], _AUTL), _c("Paris", ["Paris", "UTC", "Paris", "UTC"], _AUTL),
      _c("Tokyo", ["UTC", "Tokyo", "UTC", "Tokyo"], _U)]

HARNESSES = [H(order, _Q, _T, covers=["rejected", "rejected last"],
               bounds="up to 4 (thorough 6) ticks at any microsecond of 3 days (UTC, Tokyo) or of the hours around both daylight saving changes of "
                      "Europe/Paris and the autumn one of America/New_York in 2020; prices all different or all equal; frames, candle, trade and strategy attached in some "
                      "configurations; local wall clocks in the repeated hour are read as its first occurrence")]
