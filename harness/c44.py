"""C44 User-defined indicators get each tick of a frame exactly once."""
from symx.h import H
from harness.common import *
from harness.c17 import Summary


def own(L, log, empty=None):
    """an indicator of the user's; `empty`: its first calls that build no value"""
    from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue

    class Value(BaseIndicatorValue):
        def __init__(self, indicator, frame):
            BaseIndicatorValue.__init__(self, indicator=indicator, frame=frame)
            before = self.previous
            self.count = 1 + (before.count if before is not None else 0)
            log.append(("new", indicator.ref, frame, frame.last_tick, frame.nb_ticks, before, len(frame.indicators)))

        def on_new_tick(self, tick, market_open):
            super().on_new_tick(tick, market_open)
            self.count += 1
            log.append(("tick", self.indicator.ref, self.frame, tick, self.frame.nb_ticks, market_open, self.frame.last_tick))

    class Own(BaseIndicator):
        def __init__(self, **k):
            BaseIndicator.__init__(self, value_class=Value, **k)
            self.asked = 0

        def build_value_from_frame(self, frame, epic_market_open):
            self.asked += 1
            log.append(("asked", self.ref, frame, frame.last_tick, frame.nb_ticks, epic_market_open))
            if empty and self.asked <= empty:
                return None
            return super().build_value_from_frame(frame, epic_market_open)
    return Own


def custom(ctx, ticks, unit="SECOND", q=5, times=None, closed=None, lo=-300, hi=300, m=100, empty=None, late=None, shut=None, more=0):
    L = ctx.lib()
    log = []
    ep = market(ctx, closed, shut)
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
    for k in range(more):
        fs.add_indicator(L.CandleSet(ref="more%d" % k))
    Own = own(L, log, empty)
    inds = [Own(ref="A"), Own(ref="B", market_open_only=True), Own(ref="C")]

    def attach():
        for i in inds:
            fs.add_indicator(i)
    if late is None:
        attach()
    if closed is None:
        ep.add_frame_set(fs)
    else:
        # the epic a frame set belongs to is known to its indicators, attached before or after
        ctx.check("an indicator without epic", inds[0].epic is None)
        ep.add_frame_set(fs)
    st = L.BaseStrategy(ref="S")
    order = []
    st.on_every_tick = lambda e: order.append(len(log))
    ep.add_strategy(st)
    prev, done, kept = None, {}, []
    asks = {"A": 0, "B": 0, "C": 0}
    for n in range(ticks):
        if n == late:
            attach()
        attached = late is None or n >= late
        prev = moment(ctx, n, times, prev)
        t = value_tick(ctx, "p%d" % n, prev, lo, hi)
        n0, frames0 = len(log), list(fs.frames)
        ep.on_new_tick(t)
        ctx.check("indicators are told before the strategies", order[-1] == len(log))
        is_open = bool(ep.market_open)
        if closed is not None:
            us = ctx.us(prev)
            tod = ctx.mod(us, DAY_US)
            ctx.check("market state", is_open == ctx.fork(ctx.And(ctx.ge(tod, 10 * HOUR_US + closed * 10 ** 6), shut is None or ctx.le(tod, 10 * HOUR_US + (shut or 0) * 10 ** 6))))
        got = [x for x in log[n0:] if is_open or x[:2] != ("asked", "B")]
        new = [f for f in fs.frames if not any(f is g for g in frames0)]
        cur = fs.frames[-1]
        ctx.check("indicators know their frame set and epic", not attached or all(i.frame_set is fs and i.epic is ep for i in inds))
        # the frames that get something at this tick, in order: fillers, then the current one
        exp = []
        touched = new if new else [cur]
        kept += new   # so that no other frame gets the same id
        for f in touched:
            filler = f is not cur
            for i in inds if attached else ():
                r, here = i.ref, done.setdefault(id(f), {})
                tick = t if not filler else fs_last
                if r in here:
                    exp.append(("tick", r, f, t))
                    if r != "B" or is_open:
                        here[r].add(t)
                    continue
                if r == "B" and not is_open:
                    # whether a restricted indicator is asked while the market is closed is left open
                    asks[r] += sum(x[:3] == ("asked", r, f) for x in log[n0:])
                    continue
                exp.append(("asked", r, f, tick))
                asks[r] += 1
                if empty and asks[r] <= empty:
                    continue
                exp.append(("new", r, f, tick))
                here[r] = Summary(ctx)
                here[r].add(tick)
        ctx.check("calls of the indicators", [x[:2] for x in got] == [x[:2] for x in exp])
        ctx.check("frames of the calls", all(x[2] is y[2] for x, y in zip(got, exp)))
        ctx.check("ticks of the calls", all(x[3] is y[3] for x, y in zip(got, exp)))
        for x in got:
            if x[0] == "tick":
                ctx.check("market state of the calls", bool(x[5]) == is_open)
                ctx.check("the frame has counted the tick", x[4] == cur.nb_ticks and x[6] is t)
                ctx.cover("told")
            elif x[0] == "asked":
                ctx.check("market state of the calls", bool(x[5]) == is_open)
                ctx.check("the frame has counted the tick", x[4] == (cur.nb_ticks if x[2] is cur else 1))
        if len(touched) > 1:
            ctx.cover("fillers")
        fs_last = t
        for k, f in enumerate(fs.frames):
            for i in inds:
                v, s = f[i.ref], done.get(id(f), {}).get(i.ref)
                ctx.check("a value exists once one was built", (v is None) == (s is None))
                if v is None:
                    ctx.cover("no value")
                    continue
                ctx.check("a value's ticks", s.same(v))
                ctx.check("a value knows its frame", v.frame is f and v.indicator is i and v.nb_ticks == f.nb_ticks and v.closed == (f is not cur))
                older = [g[i.ref] for g in fs.frames[:k] if g[i.ref] is not None]
                ctx.check("previous value", v.previous is (older[-1] if older else None))
                ctx.check("next value", v.next is (None if k == len(fs.frames) - 1 else fs.frames[k + 1][i.ref]))
        ctx.observe("n%d" % n, [len(log), len(fs.frames)])


_Q = [dict(ticks=4, times=(0, 1, 6, 7)), dict(ticks=3, times=("any", 20), lo=0, hi=9), dict(ticks=3, times=("any", 15), closed=4, lo=0, hi=9), dict(ticks=5, unit="TICK", q=2), dict(ticks=5, unit="TICK", q=3, closed=2),
      dict(ticks=4, times=(0, 1, 22, 23), closed=15), dict(ticks=4, unit="TICK", q=2, empty=2), dict(ticks=4, times=(0, 1, 2, 17), late=1), dict(ticks=5, unit="TICK", q=1, m=2, closed=2),
      dict(ticks=4, times=(0, 12, 20, 26), m=2, closed=20, lo=0, hi=9), dict(ticks=5, times=(0, 1, 2, 3, 6), closed=1, shut=2), dict(ticks=5, unit="TICK", q=3, closed=0, shut=1),
      dict(ticks=3, times=("any", 12), lo=0, hi=9, closed=2, shut=4), dict(ticks=4, times=(0, 1, 12, 13), more=20), dict(ticks=4, unit="TICK", q=2, more=7)]
_T = [dict(ticks=6, times=(0, 1, 6, 7, 8, 20)), dict(ticks=4, times=("any", 20), lo=0, hi=9), dict(ticks=4, times=("any", 15), closed=4, lo=0, hi=9), dict(ticks=6, unit="TICK", q=3), dict(ticks=6, unit="TICK", q=2, closed=3),
      dict(ticks=5, unit="TICK", q=3, empty=3), dict(ticks=5, times=(0, 1, 2, 17, 18), late=2), dict(ticks=6, unit="TICK", q=1, m=2, closed=2)]
HARNESSES = [H(custom, _Q, _T, covers=["told", "fillers", "no value"],
               bounds="three user-defined indicators (with and without market_open_only, building no value the first 2-3 times they are asked in one configuration, attached in the middle of a frame in another) on frames of 5 seconds or 1-3 ticks; "
                      "3-5 (thorough 4-6) ticks at given times or at any microseconds of 15-20 seconds, market open, opening or closing after a while, prices of +-3.00, memory limits 2 and 100; up to 20 more indicators on the frame set")]
