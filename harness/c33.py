"""C33 Components attached to a running epic work from the next tick on."""
from symx.h import H
from harness.common import *
from harness.c12 import recorder
from harness.c20 import make
from harness.c31 import World, compare


def frame_sets(ctx, unit, q, m, refs, before, ticks, lo, hi, times=None, closed=None, others=True):
    """a frame set attached after `before` ticks against one of an epic that gets the later ticks only"""
    L = ctx.lib()

    class Late(World):
        def __init__(self, ep, attach):
            self.ctx, self.L, self.refs, self.ep, self.ticks, self.trade, self.calls = ctx, L, refs, ep, [], None, ()
            self.fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
            for i in make(ctx, L, refs):
                self.fs.add_indicator(i)
            if attach:
                ep.add_frame_set(self.fs)

        def feed(self, dt, bid, ask):
            t = ctx.tick(dt, bid, ask)
            self.ticks.append(t)
            self.ep.on_new_tick(t)
    late, fresh = market(ctx, closed), market(ctx, closed)
    if others:
        o = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="other")
        o.add_indicator(L.CandleSet(ref="C"))
        late.add_frame_set(o)
    a, b = Late(late, False), Late(fresh, True)
    dt = None
    for n in range(before + ticks):
        if n == before:
            late.add_frame_set(a.fs)
            ctx.check("no frame before the next tick", not a.fs.frames)
        dt = moment(ctx, n, times, dt)
        bid, ask = ctx.prices("p%d" % n, lo, hi, 0)
        if n < before:
            late.on_new_tick(ctx.tick(dt, bid, ask))
            continue
        a.feed(dt, bid, ask)
        b.feed(dt, bid, ask)
        compare(ctx, a, b, "a frame set attached later: %s")
        ctx.cover("compared")
        if len(a.fs.frames) > 1:
            ctx.cover("several frames")
    ctx.observe("n", len(a.fs.frames))


def strategies(ctx, before, ticks, span, closed, paused=False):
    """a strategy attached after `before` ticks gets the later callbacks of one attached from the start"""
    import arrow
    L = ctx.lib()
    Rec = recorder(L)
    ep = market(ctx, closed)
    first, late = Rec(ref="first"), Rec(ref="late")
    ep.add_strategy(first)
    if paused:
        until = ctx.dt("until", D0 + (10,), D0 + (10, 0, 59), utc())
    dt = None
    for n in range(before + ticks):
        if n == before:
            n0 = len(first.calls)
            if paused == "before":
                first.paused_until = late.paused_until = arrow.get(until)
            elif paused == "stopped":
                first.stopped = late.stopped = True
            ep.add_strategy(late)
            ctx.check("no callback by attaching a strategy", not late.calls and len(first.calls) == n0)
            if paused is True:
                first.paused_until = late.paused_until = arrow.get(until)
        n0, m0 = len(first.calls), len(late.calls)
        dt = moment(ctx, n, ("any", span), dt)
        t = ctx.tick(dt, 10.0, 10.0)
        ep.on_new_tick(t)
        a, b = first.calls[n0:], late.calls[m0:]
        if n < before:
            ctx.check("no callback before being attached", not b)
            continue
        ctx.check("a strategy attached later gets the callbacks of the others",
                  [x[0] for x in a] == [x[0] for x in b] and all(x[1] is ep and x[2] is t for x in b))
        for x in b:
            ctx.cover(x[0])
    ctx.observe("calls", [x[0] for x in late.calls])


def indicators(ctx, unit, q, before, ticks, lo, hi, kinds, times=None, restricted=False, closed=None):
    """an indicator attached to a running frame set summarises the ticks received since, frame by frame"""
    from harness.c17 import Summary
    L = ctx.lib()
    ep = market(ctx, closed)
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F")
    fs.add_indicator(L.CandleSet(ref="old"))
    ep.add_frame_set(fs)
    dt, sums, kept = None, {}, []
    for n in range(before + ticks):
        if n == before:
            for k in kinds:
                i = make(ctx, L, (k,))[0]
                i.market_open_only = restricted
                fs.add_indicator(i)
            old = list(fs.frames)
            was = [[f[k] for k in kinds] for f in old]
        dt = moment(ctx, n, times, dt)
        t = value_tick(ctx, "p%d" % n, dt, lo, hi)
        last = fs.frames[-1] if fs.frames else None
        ep.on_new_tick(t)
        if n < before:
            continue
        f = fs.frames[-1]
        is_open = closed is None or ctx.fork(ctx.ge(ctx.tod(dt), (10 * 3600 + closed) * 10 ** 6))
        for k in kinds:
            v = f[k]
            if restricted and not is_open:
                continue
            s = sums.setdefault((id(f), k), Summary(ctx))
            kept.append(f)
            s.add(t)
            ctx.check("an indicator attached later has a value for the frame of the next tick", v is not None)
            if v is not None:
                ctx.check("and summarises the ticks received since", s.same(v))
        ctx.cover("summarised")
    for g, w in zip(old[:-1], was):
        ctx.check("closed frames get no value", all(g[k] is None for k in kinds))
    ctx.observe("n", len(fs.frames))


def _f(unit, q, m, refs, before, ticks, lo=0, hi=100, **k):
    return dict(unit=unit, q=q, m=m, refs=refs, before=before, ticks=ticks, lo=lo, hi=hi, **k)


_FQ = [_f("TICK", 2, 100, ("C", "S"), 1, 4), _f("TICK", 1, 2, ("P", "R"), 2, 4), _f("SECOND", 5, 100, ("C", "P"), 1, 3, times=("any", 20), hi=30),
       _f("SECOND", 5, 100, ("C", "S"), 2, 3, times=(0, 7, 13, 14, 26), closed=10), _f("MINUTE", 1, 100, ("C", "H"), 2, 2, times=("any", 240), hi=20),
       _f("TICK", 3, 100, ("C",), 1, 3, others=False)]
_FT = [_f("TICK", 2, 100, ("C", "S"), 3, 5), _f("TICK", 1, 2, ("P", "R"), 2, 5), _f("SECOND", 5, 100, ("C", "P"), 2, 3, times=("any", 20), hi=30, closed=9),
       _f("SECOND", 5, 2, ("C", "S"), 2, 5, times=(0, 7, 13, 14, 26, 27, 40), closed=10), _f("MINUTE", 1, 100, ("C", "H"), 2, 3, times=("any", 240), hi=20),
       _f("TICK", 3, 100, ("C",), 2, 5, others=False)]
_SQ = [dict(before=b, ticks=2, span=20, closed=10) for b in (1, 2)] + [dict(before=1, ticks=2, span=20, closed=10, paused=True)]
_SQ += [dict(before=1, ticks=2, span=20, closed=10, paused=p) for p in ("before", "stopped")]
_SQ += [dict(before=1, ticks=2, span=20, closed=None)]
_ST = [dict(before=b, ticks=3, span=20, closed=10) for b in (1, 2, 3)] + [dict(before=1, ticks=3, span=20, closed=10, paused=True)]
_IQ = [dict(unit="TICK", q=3, before=b, ticks=3, lo=0, hi=100, kinds=("C", "S")) for b in (1, 2)] + \
      [dict(unit="SECOND", q=5, before=1, ticks=3, lo=0, hi=50, kinds=("C", "P"), times=("any", 12)),
       dict(unit="SECOND", q=5, before=1, ticks=3, lo=0, hi=50, kinds=("C",), times=("any", 12), restricted=True, closed=6)]
_IQ += [dict(unit="SECOND", q=5, before=b, ticks=4, lo=0, hi=50, kinds=("C", "S"), times=t, restricted=True, closed=c)
        for b, c, t in ((4, 31, (0, 6, 12, 21, 30, 31, 32, 36)), (2, 2, (0, 1, 2, 3, 9, 21)), (3, 12, (0, 1, 10, 11, 12, 13, 14)))]
_IT = [dict(unit="TICK", q=3, before=b, ticks=5, lo=0, hi=100, kinds=("C", "S")) for b in (1, 2)] + \
      [dict(unit="SECOND", q=5, before=2, ticks=4, lo=0, hi=50, kinds=("C", "P"), times=("any", 15)),
       dict(unit="SECOND", q=5, before=2, ticks=4, lo=0, hi=50, kinds=("C",), times=("any", 15), restricted=True, closed=6)]
HARNESSES = [H(frame_sets, _FQ, _FT, covers=["compared", "several frames"],
               bounds="1-2 (thorough 3) ticks, then a frame set with one or two indicators is attached, then 2-4 (5) ticks; frames of 1-3 ticks, 5 seconds and a minute, "
                      "ticks at fixed times or any microseconds of 20 s or 4 minutes, any prices of a range of 0.20-1.00"),
             H(strategies, _SQ, _ST, covers=["tick", "tick_open", "open"],
               bounds="a strategy, also paused until any second of a minute, attached after 1-2 (thorough 3) ticks, then 2 (3) ticks at any microseconds of 20 s around the market opening"),
             H(indicators, _IQ, _IT, covers=["summarised"],
               bounds="an indicator (candle, average, pivot; also restricted to market hours) attached after 1-4 ticks in a running frame, then 3 (thorough 5) ticks of any values")]
