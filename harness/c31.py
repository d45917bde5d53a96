"""C31 What an epic reports depends only on its own ticks and configuration."""
from symx.h import H
from harness.common import *
from harness.c12 import recorder
from harness.c20 import make, ATTRS

EXTRAS = ("frame sets", "indicators", "strategies", "other epic", "same names")


class World:
    """one observed epic; `extra` names what is added around it"""

    def __init__(self, ctx, unit, q, m, refs, extra, closed=None, paused=None, zone="Asia/Tokyo"):
        import arrow
        L = self.L = ctx.lib()
        self.ctx, self.extra, self.refs = ctx, extra, refs
        Rec = recorder(L)
        self.ep = market(ctx, closed)
        self.others = []
        if extra in ("other epic", "same names"):
            same = extra == "same names"
            kw = {} if closed is None else dict(close_time=at(10, closed // 60, closed % 60).time())
            o = epic(ctx, "E" if same else "O", timezone=zone, trade_provider=self.ep.trade_provider, **({} if same else kw))
            self.others.append(o)
        if extra == "frame sets":
            self._fs("A", "TICK", 1, 1, refs)
            self._fs("A2", unit, q, 2, ())
        fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
        if extra == "indicators":
            fs.add_indicator(L.CandleSet(ref="aC", candle_type=L.CandleType.HEIKIN_ASHI, market_open_only=True))
        for i in make(ctx, L, refs):
            fs.add_indicator(i)
        if extra == "indicators":
            fs.add_indicator(L.SimpleMovingAverage(max_periods=1, ref="zS"))
            fs.add_indicator(L.Pivot(ref="zP", market_open_only=True))
        self.fs = fs
        self.ep.add_frame_set(fs)
        if extra == "frame sets":
            self._fs("Z", unit, q, 3, refs)
            self._fs("Z2", "HOUR", 1, 100, ("C",))
        if extra == "strategies":
            a = Rec(ref="A")
            a.act = self._trade
            self.ep.add_strategy(a)
        self.st = Rec(ref="S")
        if paused is not None:
            self.st.paused_until = arrow.get(paused)
        self.ep.add_strategy(self.st)
        if extra == "strategies":
            b = Rec(ref="B")
            b.act = self._trade
            self.ep.add_strategy(b)
            c = Rec(ref="C")
            c.stopped = True
            self.ep.add_strategy(c)
        for o in self.others:
            f2 = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F" if extra == "same names" else "G", max_frames_in_memory=1)
            for i in make(ctx, L, refs) if extra != "same names" else ():
                f2.add_indicator(i)
            for i, r in enumerate(tuple(refs) + ("X",) if extra == "same names" else ()):
                # the same references, for other indicators
                f2.add_indicator(L.SimpleMovingAverage(max_periods=1, ref=r) if i % 2 else L.CandleSet(ref=r, candle_type=L.CandleType.HEIKIN_ASHI, market_open_only=True))
            o.add_frame_set(f2)
            if extra == "same names":
                s2 = Rec(ref="S")
                s2.act = self._trade
                o.add_strategy(s2)
            else:
                self.shared = Rec(ref="S2")
                o.add_strategy(self.shared)
                o.add_strategy(self.st)
        self.ticks = []
        self.trade = None

    def _fs(self, ref, unit, q, m, refs):
        fs = self.L.FrameSet(unit=getattr(self.L.Unit, unit), unit_quantity=q, ref=ref, max_frames_in_memory=m)
        for i in make(self.ctx, self.L, refs):
            fs.add_indicator(i)
        self.ep.add_frame_set(fs)

    def _trade(self, st, what, epic):
        if what == "tick":
            n = len(st.calls)
            if n % 4 == 3:
                st.close_opened_trades()
            else:
                st.open_trade(epic=epic, direction=direction(self.ctx, n % 2), quantity=n + 1, ref="x%d" % n)

    def tick(self, dt, bid, ask, buy):
        for k, o in enumerate(self.others):
            o.on_new_tick(self.ctx.tick(dt, bid + 7, ask + 7.5))
        t = self.ctx.tick(dt, bid, ask)
        n0 = len(self.st.calls)
        self.ticks.append(t)
        self.ep.on_new_tick(t)
        for k, o in enumerate(self.others):
            o.on_new_tick(self.ctx.tick(dt, bid - 3, ask))
        self.calls = [c[0] for c in self.st.calls[n0:] if c[1] is self.ep]
        if self.trade is None:
            self.trade = self.st.open_trade(epic=self.ep, direction=direction(self.ctx, buy), quantity=3, ref="t")

    def index(self, t):
        return next((i for i, x in enumerate(self.ticks) if x is t), None)

    def numbers(self):
        """everything observable, in the same order in both worlds"""
        yield "market state", "is", bool(self.ep.market_open)
        yield "last tick", "is", self.index(self.ep.last_tick)
        yield "callbacks", "is", tuple(self.calls)
        yield "number of frames", "is", len(self.fs.frames)
        for f in self.fs.frames:
            yield "ticks of a frame", "is", tuple(map(self.index, (f.first_tick, f.high_tick, f.low_tick, f.last_tick)))
            yield "count of a frame", "eq", f.nb_ticks
            yield "an indicator of another frame set", "is", f["X"] is None
            yield "start of a frame", "dt", f.period_start
            yield "end of a frame", "dt", f.period_end
            for r in self.refs:
                v = f[r]
                yield "presence of %s" % r, "is", v is None
                if v is None:
                    continue
                yield "ticks of %s" % r, "is", tuple(map(self.index, (v.first_tick, v.high_tick, v.low_tick, v.last_tick)))
                for a in ATTRS[r]:
                    yield "%s of %s" % (a, r), "near", getattr(v, a)
                if r == "S":
                    for p in (1, 2):
                        yield "average over %d" % p, "near", v.get_value(p)
        t = self.trade
        if t is not None:
            for a in ("open_value", "current_close_value", "result", "max_result", "min_result"):
                yield "trade's %s" % a, "near", getattr(t, a)
            yield "trade's quantities", "is", (t.opened_quantities, t.closed_quantities)


def compare(ctx, a, b, label="%s"):
    compare_lists(ctx, list(a.numbers()), list(b.numbers()), label)


def compare_lists(ctx, x, y, label="%s"):
    if len(x) != len(y):
        ctx.check(label % "number of frames", False)
        return
    for (l, k, u), (l2, _, v) in zip(x, y):
        if k == "is" or u is None or v is None:
            ok = u == v
        elif k == "eq":
            ok = ctx.eq(u, v)
        elif k == "dt":
            ok = ctx.eq(ctx.us(u), ctx.us(v))
        else:
            ok = ctx.near(u, v)
        ctx.check(label % l, ok)


def independent(ctx, extra, unit, q, m, refs, ticks, lo, hi, times=None, closed=None, paused=False, zone="Asia/Tokyo"):
    until = ctx.dt("until", D0 + (10,), D0 + (10, 0, 59), utc()) if paused else None
    buy = ctx.bool("buy")
    dt, feed = None, []
    for n in range(ticks):
        dt = moment(ctx, n, times, dt)
        feed.append((dt,) + tuple(ctx.prices("p%d" % n, lo, hi, 4 if n else 0)))
    seen = []
    for x in (extra, None):
        ctx.pristine()   # as two runs of a program, which share nothing
        w = World(ctx, unit, q, m, refs, x, closed, paused=until, zone=zone)
        seen.append([])
        for n, (dt, bid, ask) in enumerate(feed):
            w.tick(dt, bid, ask, buy)
            seen[-1].append(list(w.numbers()))
            ctx.observe("r%d%s" % (n, x), [w.trade.result, len(w.fs.frames)])
    for b, a in zip(*seen):
        compare_lists(ctx, a, b)
        ctx.cover("compared")


def _c(extra, unit="TICK", q=2, m=100, refs=("C",), ticks=4, lo=0, hi=100, **k):
    return dict(extra=extra, unit=unit, q=q, m=m, refs=refs, ticks=ticks, lo=lo, hi=hi, **k)


_Q, _T = [], []
for _e in EXTRAS:
    _Q += [_c(_e, refs=("C", "S")), _c(_e, "SECOND", 5, 2, ("P",) if "nd" in _e else ("C",), 2 if _e in EXTRAS[-2:] else 3, times=("any", 15), closed=8, hi=20),
           _c(_e, "SECOND", 5, 100, ("C",), 3, times=(0, 12, 13), hi=1000, paused=True)]
    _T += [_c(_e, refs=("C", "S", "P"), ticks=5), _c(_e, "TICK", 1, 2, ("R", "S"), 5), _c(_e, "SECOND", 5, 2, ("C", "P"), 4, times=("any", 20), closed=8, hi=20),
           _c(_e, "MINUTE", 1, 3, ("C", "H"), 3, times=("any", 180), hi=20, paused=True)]
for _e in EXTRAS[-2:]:
    _Q += [_c(_e, "HOUR", 2, 100, (), 2, times=("any", 4 * 3600), hi=2, zone="Asia/Kolkata"), _c(_e, "DAY", 1, 100, ("C",), 2, times=("any", 86400), hi=2)]
    _T += [_c(_e, "HOUR", 2, 100, ("C",), 3, times=("any", 8 * 3600), hi=2, zone="Asia/Kolkata"), _c(_e, "DAY", 1, 100, ("C",), 3, times=("any", 3 * 86400), hi=2),
           _c(_e, "WEEK", 1, 100, ("C",), 2, times=("any", 8 * 86400), hi=2, zone="America/New_York"),
           _c(_e, "MONTH", 1, 100, ("C",), 2, times=("any", 40 * 86400), hi=2)]
HARNESSES = [H(independent, _Q, _T, covers=["compared"],
               bounds="3-4 (thorough 5) ticks with any prices of a range of 0.20-10.00, at fixed times or any microseconds of 15 s to a day (thorough 3 minutes to 40 days), one frame set with one to three "
                      "indicators, one strategy (also paused) holding one trade; against the same with four more frame sets, with three more indicators, with three more trading or stopped "
                      "strategies, with another epic of another zone (Tokyo, Kolkata, New York) fed around every tick and sharing the provider and the strategy, or with another epic with the same names")]
