"""C12 Strategies get exactly the right callbacks for every tick."""
from symx.h import H
from harness.common import *

NINE, FIVE = 9 * HOUR_US, 17 * HOUR_US


def recorder(L):
    class Rec(L.BaseStrategy):
        def __init__(self, **k):
            L.BaseStrategy.__init__(self, **k)
            self.calls = []
            self.act = None

        def _got(self, what, epic):
            self.calls.append((what, epic, epic.last_tick))
            if self.act:
                self.act(self, what, epic)

        def on_market_open(self, epic):
            self._got("open", epic)

        def on_market_close(self, epic):
            self._got("close", epic)

        def on_every_tick_market_open(self, epic):
            self._got("tick_open", epic)

        def on_every_tick(self, epic):
            self._got("tick", epic)
    return Rec


def callbacks(ctx, ticks, strategies, epics=1, changes=False, acting=False, tz="UTC", days=2, hi_price=None):
    """strategies: tuple of kinds: active | stopped | paused | choice"""
    import arrow
    import datetime
    L = ctx.lib()
    Rec = recorder(L)
    lo, hi = (2020, 6, 1, 0), (2020, 6, days, 23, 59, 59, 999999)
    eps = [epic(ctx, "E%d" % i, open_time=datetime.time(9, 0), close_time=datetime.time(17, 0), timezone=tz) for i in range(epics)]
    sts, until, stopped = [], [], []
    for i, kind in enumerate(strategies):
        s = Rec(ref="S%d" % i)
        for e in eps:
            e.add_strategy(s)
        if kind == "choice":
            kind = ctx.choice("kind%d" % i, ("active", "stopped", "paused"))
        p = None
        if kind == "paused":
            d = ctx.dt("until%d" % i, lo, hi, utc())
            s.paused_until = arrow.get(d)
            p = ctx.instant(d)
        if kind == "both":
            s.paused_until, p = arrow.get(at(18)), None
        s.stopped = kind in ("stopped", "both")
        if acting and i == 0:
            def act(st, what, e, n=[0]):
                if acting in ("stop", "pause"):
                    # the first strategy acts on the others within the tick
                    n[0] += what == "tick"
                    if what == "tick" and n[0] == 2:
                        for o in range(1, len(sts)):
                            if acting == "stop":
                                sts[o].stopped, stopped[o] = True, True
                            else:
                                sts[o].paused_until, until[o] = arrow.get(halt), ctx.instant(halt)
                        ctx.cover("changed within a tick")
                elif what == "tick" and n[0] == 0:
                    n[0] = 1
                    st.open_trade(epic=e, direction=L.TradeDirection.BUY, quantity=1, ref="a")
                elif what == "tick" and n[0] == 1:
                    n[0] = 2
                    st.close_opened_trades()
            s.act = act
        sts.append(s)
        until.append(p)
        stopped.append(s.stopped)
    halt = ctx.dt("halt", lo, hi, utc()) if acting == "pause" else None
    was_open = [False] * epics
    prev = None
    for n in range(ticks):
        if changes and n:
            what = ctx.choice("chg%d" % n, ("none", "stop", "resume", "pause"))
            s = sts[0]
            if what == "stop":
                s.stopped, stopped[0] = True, True
            elif what == "resume":
                s.stopped, stopped[0] = False, False
            elif what == "pause":
                d = ctx.dt("pause%d" % n, lo, hi, utc())
                s.paused_until, until[0] = arrow.get(d), ctx.instant(d)
        dt = ctx.dt("t%d" % n, lo, hi, utc())
        t = ctx.tick(dt, 10.0, 10.0) if hi_price is None else cent_tick(ctx, "p%d" % n, dt, -hi_price, hi_price, 2)
        inst = ctx.instant(dt)
        if prev is not None:
            ctx.assume(ctx.ge(inst, prev))
        prev = inst
        ei = ctx.pyint("e%d" % n, 0, epics - 1) if epics > 1 else 0
        before = [len(s.calls) for s in sts]
        eps[ei].on_new_tick(t)
        tod = ctx.mod(local_us(ctx, inst, tz, *rng_us(lo, hi)), DAY_US)
        is_open = ctx.fork(ctx.And(ctx.le(NINE, tod), ctx.le(tod, FIVE)))
        base = (["open" if is_open else "close"] if is_open != was_open[ei] else []) + (["tick_open"] if is_open else []) + ["tick"]
        if base[0] in ("open", "close"):
            ctx.cover(base[0])
        was_open[ei] = is_open
        for i, s in enumerate(sts):
            got = s.calls[before[i]:]
            if stopped[i]:
                exp = []
            elif until[i] is not None and ctx.fork(ctx.lt(inst, until[i])):
                exp = []
                ctx.cover("paused")
            else:
                if until[i] is not None:
                    ctx.cover("pause over")
                until[i] = None
                exp = base
            ctx.check("events of a strategy", [g[0] for g in got] == exp)
            ctx.check("events concern the tick and its epic", all(g[1] is eps[ei] and g[2] is t for g in got))
        ctx.observe("ev%d" % n, [[c[0] for c in s.calls[b:]] for s, b in zip(sts, before)])


def asked(ctx, n, tz, stop=False):
    """a strategy asked directly whether it is active, at increasing times of any zone"""
    import arrow
    L = ctx.lib()
    s = L.BaseStrategy(ref="S")
    z = utc() if tz == "UTC" else zone(tz)
    until = arrow.get(ctx.dt("until", (2020, 6, 1), (2020, 6, 3), zone("Asia/Tokyo"))) if ctx.bool("paused") else None
    s.paused_until = until
    stopped, over, last = False, until is None, None
    for i in range(n):
        d = arrow.get(ctx.dt("d%d" % i, (2020, 5, 31), (2020, 6, 4), z))
        if last is not None:
            ctx.assume(ctx.le(ctx.instant(last), ctx.instant(d)))
        last = d
        if stop:
            stopped = s.stopped = ctx.bool("stop%d" % i)
        if until is not None:
            over = ctx.Or(over, ctx.ge(ctx.instant(d), ctx.instant(until)))
        got = s.is_active(d)
        ctx.check("active unless stopped or paused until later", ctx.Iff(got, ctx.And(not stopped, over)))
        ctx.cover("active" if got else "inactive")
        ctx.observe("a%d" % i, bool(got))


A, P, S, C = "active", "paused", "stopped", "choice"
_Q = [dict(ticks=3, strategies=(A, A)), dict(ticks=3, strategies=(P, A)), dict(ticks=2, strategies=(C, C)),
      dict(ticks=2, strategies=(P, P, S)), dict(ticks=3, strategies=(P,), changes=True, days=1), dict(ticks=3, strategies=(A, P), acting=True, days=1),
      dict(ticks=2, strategies=(P, A), epics=2, days=1), dict(ticks=2, strategies=(P, A), tz="Europe/Paris", days=1),
      dict(ticks=4, strategies=(A,), days=3), dict(ticks=2, strategies=(A,), days=1, hi_price=2)]
_Q += [dict(ticks=3, strategies=(A, A, P), acting=a, days=1) for a in ("stop", "pause")] + [dict(ticks=2, strategies=(A,) * k + (P, S), days=1) for k in (9, 30)] + [dict(ticks=1, strategies=("both", A), days=1)]
_T = [dict(ticks=4, strategies=(A, A, P), acting=a) for a in ("stop", "pause")] + [dict(ticks=5, strategies=(A, A)), dict(ticks=4, strategies=(P, A, S)), dict(ticks=3, strategies=(C, C)), dict(ticks=3, strategies=(P, P, A)),
      dict(ticks=4, strategies=(P,), changes=True), dict(ticks=4, strategies=(A, P), acting=True), dict(ticks=4, strategies=(P, A), epics=2),
      dict(ticks=4, strategies=(P, A), tz="Europe/Paris"), dict(ticks=4, strategies=(P, A), tz="America/New_York")]

HARNESSES = [H(callbacks, _Q, _T, covers=["open", "close", "paused", "pause over", "changed within a tick"],
               bounds="up to 4 (thorough 5) ticks at any microseconds of 1-3 days, market hours 9:00-17:00, up to 3 strategies each active, stopped or paused "
                      "until any microsecond, stopped/resumed/paused between ticks, opening trades or stopping or pausing later strategies inside a callback, on one or two epics, epics in UTC, Paris or "
                      "New York; stopping or pausing a strategy in the middle of its own events of a tick is outside"),
             H(asked, [dict(n=2, tz="UTC"), dict(n=2, tz="Europe/Paris", stop=True)], [dict(n=4, tz="America/New_York", stop=True)], covers=["active", "inactive"],
               bounds="a strategy, stopped or not, paused or not until any microsecond of two days, asked 2 (thorough 4) times at increasing times of four days in another zone")]
