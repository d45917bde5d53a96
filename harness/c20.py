"""C20 A closed frame and its indicator values never change."""
from symx.h import H
from harness.common import *

ATTRS = {"C": ("open", "high", "low", "last"), "H": ("open", "high", "low", "last"),
         "P": ("pivot", "support1", "support2", "support3", "resistance1", "resistance2", "resistance3"),
         "O": ("pivot", "support1", "resistance1"), "S": (), "R": ("value",)}


def make(ctx, L, refs):
    r = []
    for x in refs:
        if x == "C":
            r.append(L.CandleSet(ref="C"))
        elif x == "H":
            r.append(L.CandleSet(ref="H", candle_type=L.CandleType.HEIKIN_ASHI))
        elif x == "P":
            r.append(L.Pivot(ref="P"))
        elif x == "O":
            r.append(L.Pivot(ref="O", pivot_type=L.PivotType.OLHC))
        elif x == "S":
            r.append(L.SimpleMovingAverage(max_periods=2, ref="S"))
        else:
            r.append(L.RSI(periods=2, ref="R"))
    return r


def snap(f, refs):
    s = {"ticks": (f.first_tick, f.high_tick, f.low_tick, f.last_tick), "nb": f.nb_ticks, "period": (f.period_start, f.period_end)}
    for r in refs:
        v = f[r]
        s["ticks of " + r] = (v.first_tick, v.high_tick, v.low_tick, v.last_tick)
        for a in ATTRS[r]:
            s[(r, a)] = getattr(v, a)
        if r == "S":
            for p in (1, 2):
                s[(r, p)] = v.get_value(p)
    return s


def same(ctx, a, b):
    if isinstance(a, tuple):
        return all(x is y for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    return ctx.near(a, b)


def frozen(ctx, n, ticks, m, refs, lo=-300, hi=300, unit="TICK", times=None, closed=None):
    L = ctx.lib()
    ep = market(ctx, closed)
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=n, ref="F", max_frames_in_memory=m)
    for i in make(ctx, L, refs):
        fs.add_indicator(i)
    ep.add_frame_set(fs)
    everseen = []          # every frame ever created, in order
    shots = {}             # id -> snapshot
    dt, held = None, None
    for k in range(ticks):
        dt = moment(ctx, k, times, dt)
        t = value_tick(ctx, "p%d" % k, dt, lo, hi)
        ep.on_new_tick(t)
        for f in fs.frames:
            if not any(f is g for g in everseen):
                everseen.append(f)
        for i, f in enumerate(everseen):
            newer = i + 1 < len(everseen)
            kept = any(f is g for g in fs.frames)
            oldest = bool(fs.frames) and f is fs.frames[0]
            evicted = len(everseen) > len(fs.frames)
            ctx.check("closed iff a newer frame exists", f.closed == newer)
            now = snap(f, refs)
            if newer and id(f) not in shots and held is not None and held[0] is f:
                # the tick that opens the next frame leaves the closed one as it was
                shots[id(f)] = held[1]
            for r in refs:
                if r in ("C", "H"):
                    c = f[r].close
                    ctx.check("a candle has a close value iff a newer frame exists", (c is not None) == newer)
                    if newer and c is not None:
                        ctx.check("the close is the last value", ctx.near(c, f[r].last))
            if id(f) in shots:
                for key, v in shots[id(f)].items():
                    same_ = same(ctx, v, now[key])
                    known = None
                    if isinstance(key, tuple) and key[0] == "H":
                        known = ("C20-eviction-heikin-ashi", evicted)
                    elif isinstance(key, tuple) and key[0] in ("P", "O"):
                        known = ("C20-eviction-pivot", evicted and (oldest or not kept))
                    ctx.check("closed frame: %s %s" % (key if isinstance(key, tuple) else (key, "")), same_, known=known)
                ctx.cover("later")
            if newer and id(f) not in shots:
                shots[id(f)] = now
            if not newer:
                held = f, now
    ctx.observe("n", len(fs.frames))


_ALL = ("C", "S", "P", "R")
_Q = [dict(n=1, ticks=5, m=10, refs=("C", "S")), dict(n=2, ticks=6, m=10, refs=("C",)), dict(n=1, ticks=4, m=10, refs=("P", "O")),
      dict(n=1, ticks=4, m=10, refs=("H",), lo=-40, hi=40), dict(n=1, ticks=5, m=10, refs=("R",), lo=0, hi=200),
      dict(n=2, ticks=5, m=10, refs=("H",), lo=-40, hi=40),
      dict(n=1, ticks=5, m=2, refs=("C", "S", "P")), dict(n=1, ticks=4, m=3, refs=("P",)), dict(n=1, ticks=5, m=3, refs=("H", "R"), lo=0, hi=40),
      dict(n=5, ticks=4, m=10, refs=("C", "S", "P"), unit="SECOND", times=(0, 1, 17, 21)),
      dict(n=5, ticks=4, m=2, refs=("C", "S"), unit="SECOND", times=(0, 11, 17, 31)),
      dict(n=5, ticks=4, m=10, refs=("C", "S", "P"), unit="SECOND", times=(0, 17, 19, 21), closed=18),
      dict(n=5, ticks=4, m=10, refs=("C", "H"), unit="SECOND", times=("any", 20), lo=0, hi=20),
      dict(n=1, ticks=4, m=10, refs=("S", "R"), unit="MINUTE", times=("any", 240), lo=0, hi=50)]
_T = [dict(n=1, ticks=7, m=10, refs=("C", "S")), dict(n=2, ticks=7, m=10, refs=("C", "P")), dict(n=1, ticks=5, m=10, refs=("P", "O")),
      dict(n=1, ticks=5, m=10, refs=("H",), lo=-40, hi=40), dict(n=1, ticks=6, m=10, refs=("R",)), dict(n=2, ticks=6, m=4, refs=("S", "R"), lo=0, hi=100),
      dict(n=3, ticks=7, m=10, refs=("C", "H"), lo=-40, hi=40),
      dict(n=1, ticks=7, m=2, refs=("C", "S")), dict(n=1, ticks=5, m=3, refs=("P", "O")), dict(n=1, ticks=6, m=3, refs=("H",), lo=-40, hi=40),
      dict(n=5, ticks=5, m=10, refs=("C", "S", "P"), unit="SECOND", times=(0, 1, 17, 21, 40)),
      dict(n=1, ticks=5, m=3, refs=("C", "S"), unit="MINUTE", times=(0, 59, 60, 241, 500)),
      dict(n=5, ticks=5, m=10, refs=("C", "S", "P", "H"), unit="SECOND", times=("any", 20), lo=0, hi=20),
      dict(n=1, ticks=5, m=3, refs=("C", "S", "R"), unit="MINUTE", times=("any", 300), lo=0, hi=50, closed=120)]
HARNESSES = [H(frozen, _Q, _T, covers=["later"],
               bounds="4-6 (thorough 7) ticks with any values of +-3.00 (Heikin-Ashi +-0.40) on the cent grid, tick frames of 1-3 ticks, 5-second and 1-minute frames with gaps (ticks at fixed times, or at any microseconds of 20 seconds or 5 minutes), "
                      "memory limits 2, 3, 4 and 10, candles, Heikin-Ashi candles, both pivots, moving average of 2 and RSI of 2")]
