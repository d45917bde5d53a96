"""Two worlds under transformed inputs: mirrored (every price negated, BUY and SELL exchanged), prices shifted by a constant, prices and quantities multiplied, dates moved by weeks."""
from fractions import Fraction

from harness.common import *
from harness.c12 import recorder
from harness.c20 import make

LEVELS = (("pivot", "pivot"), ("support1", "resistance1"), ("support2", "resistance2"), ("support3", "resistance3"),
          ("resistance1", "support1"), ("resistance2", "support2"), ("resistance3", "support3"))
TINY = Fraction(1, 10 ** 6)


class World:
    def __init__(self, ctx, unit, q, m, refs, closed, zone=None):
        L = ctx.lib()
        self.ep = market(ctx, closed)
        if zone:
            self.ep.timezone = zone
        self.fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
        for i in make(ctx, L, refs):
            self.fs.add_indicator(i)
        self.ep.add_frame_set(self.fs)
        self.st = recorder(L)(ref="S")
        self.ep.add_strategy(self.st)
        self.trades = []


def twin(ctx, steps, mirror=False, ops=("tick",), unit="TICK", q=2, m=100, refs=(), times=None, closed=None, lo=-300, hi=300, smax=4, qmax=4, cmax=10 ** 6, fixed=(), factor=True, jumps=None, times_price=None, times_qty=1, weeks=None, zone=None, days=None):
    L = ctx.lib()
    A, B = World(ctx, unit, q, m, refs, closed, zone), World(ctx, unit, q, m, refs, closed, zone)
    by = weeks[ctx.pyint("weeks", 0, len(weeks) - 1)] if weeks else 0
    kp = times_price or 1
    c = 0 if mirror or times_price or weeks else ctx.int("shift", -cmax, cmax)
    C = ctx.N(c) / 100
    how = How(mirror, kp, times_qty, by, lambda x: -ctx.N(x) if mirror else ctx.N(x) * kp + C)
    if days:
        A.ep.trade_days, B.ep.trade_days = list(days), list(days)
    prev = None

    def dirs(buy):
        if not mirror:
            return direction(ctx, buy), direction(ctx, buy)
        b = ctx.fork(buy) if not isinstance(buy, bool) else buy
        return direction(ctx, b), direction(ctx, not b)
    for n in range(steps):
        op = ctx.choice("op%d" % n, ops) if n and len(ops) > 1 else "tick"
        if op == "tick":
            prev = moment(ctx, n, times, prev)
            if n in fixed:
                b, s = n * 37 % 101 - 40, n % 3
            elif jumps and n < steps - 1:
                b, s = (b if n else 0) + jumps[ctx.pyint("j%d" % n, 0, len(jumps) - 1)], 0
            else:
                b, s = ctx.int("b%d" % n, lo, hi), ctx.int("s%d" % n, 0, smax) if smax else 0
            a = b + 2 * s   # the middle of bid and ask is on the cent grid
            A.ep.on_new_tick(ctx.tick(prev, ctx.cents(b), ctx.cents(a)))
            B.ep.on_new_tick(ctx.tick(prev, ctx.cents(-a), ctx.cents(-b)) if mirror else ctx.tick(later(prev, weeks=by) if by else prev, ctx.cents(b * kp + c), ctx.cents(a * kp + c)))
        elif op == "open":
            buy = bool(ctx.pyint("buy%d" % n, 0, 1))
            k = ctx.int("q%d" % n, 1, qmax)
            for w, d, f in zip((A, B), dirs(buy), (1, times_qty)):
                w.trades.append(w.st.open_trade(epic=w.ep, direction=d, quantity=k * f, ref="t%d" % n))
        elif op == "sweep":
            A.st.close_opened_trades()
            B.st.close_opened_trades()
        else:
            cand = [i for i, t in enumerate(A.trades) if any(x is t for x in A.st.trades) and not t.closed]
            if not cand:
                return
            i = cand[ctx.pyint("c%d" % n, 0, len(cand) - 1)]
            k = ctx.int("cq%d" % n, 1, qmax)
            for w, f in zip((A, B), (1, times_qty)):
                w.st.close_trade(w.trades[i], quantity=k * f)
        compare(ctx, A, B, how, refs, last=op == "tick", factor=factor)
        ctx.observe("n%d" % n, [A.st.result(), B.st.result(), len(A.fs.frames)])


class How:
    """price: what a price of the first world is in the second"""

    def __init__(self, mirror, kp, kq, weeks, price):
        self.mirror, self.kp, self.kq, self.weeks, self.price = mirror, kp, kq, weeks, price


def compare(ctx, A, B, how, refs, last, factor):
    mirror, move, kq, kr = how.mirror, how.price, how.kq, how.kp * how.kq

    def same(x, y, k=kr):
        return ctx.near(ctx.N(x) * k, y)

    def dated(x, y):
        return ctx.eq(ctx.us(x) + how.weeks * 7 * DAY_US, ctx.us(y))
    ctx.check("same callbacks", [x[0] for x in A.st.calls] == [x[0] for x in B.st.calls])
    ctx.check("same market state", bool(A.ep.market_open) == bool(B.ep.market_open))
    ctx.check("the same trades are registered", [any(x is t for x in A.st.trades) for t in A.trades] == [any(x is t for x in B.st.trades) for t in B.trades])
    for a, b in zip(A.trades, B.trades):
        ctx.cover("trade")
        ctx.check("same quantities", ctx.And(ctx.eq(ctx.N(a.open_quantity) * kq, b.open_quantity), ctx.eq(ctx.N(a.opened_quantities) * kq, b.opened_quantities), len(a.closes) == len(b.closes)))
        ctx.check("date of a trade", dated(a.datetime, b.datetime))
        ctx.check("fill and mark", ctx.And(ctx.near(move(a.open_value), b.open_value), ctx.near(move(a.current_close_value), b.current_close_value)))
        ctx.check("same result", ctx.And(same(a.result, b.result), same(a.opened_result, b.opened_result), same(a.closed_result, b.closed_result)))
        ctx.check("same extremes", ctx.And(same(a.max_result, b.max_result), same(a.min_result, b.min_result)))
        for x, y in zip(a.closes, b.closes):
            ctx.check("same closes", ctx.And(ctx.near(move(x.close_value), y.close_value), same(x.result, y.result), ctx.eq(ctx.N(x.quantity) * kq, y.quantity), dated(x.datetime, y.datetime)))
    ctx.check("same strategy result", same(A.st.result(), B.st.result()))
    if factor and A.trades:
        ctx.check("same profit factor", ctx.near(A.st.profit_factor(), B.st.profit_factor(), Fraction(1, 100) + TINY))
    if not last:
        return
    ctx.check("same number of frames", len(A.fs.frames) == len(B.fs.frames))
    for k, (f, g) in enumerate(zip(A.fs.frames, B.fs.frames)):
        if k < len(A.fs.frames) - 2:
            continue
        ctx.check("same count", f.nb_ticks == g.nb_ticks)
        ctx.check("same period", ctx.And(dated(f.period_start, g.period_start), f.period_end is None and g.period_end is None or dated(f.period_end, g.period_end)))
        hi, lo = (g.low_tick, g.high_tick) if mirror else (g.high_tick, g.low_tick)
        for x, y in ((f.first_tick, g.first_tick), (f.last_tick, g.last_tick), (f.high_tick, hi), (f.low_tick, lo)):
            ctx.check("ticks of a frame", ctx.near(move(x.value), y.value))
        for r in refs:
            values(ctx, r, f, g, how, k)


def values(ctx, r, f, g, how, k):
    mirror, move, kp = how.mirror, how.price, how.kp
    x, y = f[r], g[r]
    if r in ("C", "H"):
        tol = TINY if r == "C" else Fraction(1 + kp, 100) + TINY   # rounded means
        high, low = (y.low, y.high) if mirror else (y.high, y.low)
        for p, s in ((x.open, y.open), (x.last, y.last), (x.high, high), (x.low, low)):
            ctx.check("candle", ctx.near(move(p), s, tol))
        ctx.check("close", (x.close is None) == (y.close is None) and (x.close is None or ctx.near(move(x.close), y.close, tol)))
        head, tail = (y.tail, y.head) if mirror else (y.head, y.tail)
        ctx.check("parts of a candle", ctx.And(*(ctx.near(ctx.N(u) * kp, v, 2 * tol) for u, v in ((x.height, y.height), (x.body, y.body), (x.head, head), (x.tail, tail)))))
        if r == "C":
            K = ctx.lib().CandleColor
            other = {K.GREEN: K.RED, K.RED: K.GREEN, K.BLACK: K.BLACK}
            ctx.check("colour", y.color == (other[x.color] if mirror else x.color))
        ctx.cover("candle")
    elif r in ("P", "O"):
        for a, b in LEVELS:
            p, s = getattr(x, a), getattr(y, b if mirror else a)
            ctx.check("a level is missing in both", (p is None) == (s is None))
            if p is not None:
                ctx.check("level", ctx.near(move(p), s, (TINY if kp == 1 else Fraction(3 * (1 + kp), 200)) if r == "P" else Fraction(3 * (1 + kp), 200) + TINY))
                ctx.cover("level")
    elif r == "S":
        for n in (1, 2):
            p, s = x.get_value(n), y.get_value(n)
            ctx.check("an average is missing in both", (p is None) == (s is None))
            if p is not None:
                ctx.check("average", ctx.near(move(p), s, Fraction(1 + kp, 200) + TINY))
                ctx.cover("average")
    else:
        p, s = x.value, y.value
        ctx.check("a strength is missing in both", (p is None) == (s is None))
        if p is None:
            return
        p, s = ctx.N(p), ctx.N(s)
        if mirror:
            # with neither gains nor losses both are 100
            ctx.check("strength", ctx.Or(ctx.near(p + s, 100, Fraction(1, 100) + TINY), ctx.And(ctx.near(p, 100), ctx.near(s, 100), flat(ctx, f))))
        else:
            ctx.check("strength", ctx.near(p, s, Fraction(1, 100) + TINY))
        ctx.cover("strength")


def flat(ctx, f):
    a, b = f, f.previous_frame
    r = True
    for _ in range(2):
        if b is None:
            break
        r = ctx.And(r, ctx.near(a.last_tick.value, b.last_tick.value))
        a, b = b, b.previous_frame
    return r


def configs(**how):
    ops = ("tick", "open", "close")
    c = [dict(steps=4, ops=ops, lo=-60, hi=60, factor=False), dict(steps=3, ops=ops, lo=-60, hi=60), dict(steps=3, ops=ops + ("sweep",), lo=-10 ** 6, hi=10 ** 6, factor=False),
         dict(steps=4, ops=("open", "sweep"), lo=-60, hi=60),
         dict(steps=4, refs=("C", "P"), lo=-10 ** 6, hi=10 ** 6), dict(steps=5, refs=("C", "O"), q=2, lo=-300, hi=300, smax=0),
         dict(steps=4, refs=("H",), q=1, lo=-300, hi=300, smax=0), dict(steps=4, refs=("H",), q=2, lo=-300, hi=300),
         dict(steps=4, refs=("S",), q=1, lo=-10 ** 6, hi=10 ** 6), dict(steps=4, refs=("R",), q=1, lo=-30, hi=30, smax=0),
         dict(steps=4, refs=("C", "P", "S"), unit="SECOND", q=5, times=(0, 1, 6, 21), lo=-300, hi=300, closed=3),
         dict(steps=3, refs=("C", "P"), unit="SECOND", q=5, times=("any", 15), lo=-300, hi=300, closed=4),
         dict(steps=5, refs=("R",), q=1, lo=-1, hi=1, smax=0, jumps=(1, -1, 7, 10 ** 4, -10 ** 5)),
         dict(steps=12, refs=("C", "P", "S"), q=3, lo=-300, hi=300, fixed=tuple(range(9))),
         dict(steps=20, refs=("H", "S"), q=3, lo=-300, hi=300, fixed=tuple(range(18)), m=4)]
    t = [dict(steps=5, ops=ops, lo=-60, hi=60), dict(steps=4, ops=ops + ("sweep",), lo=-10 ** 6, hi=10 ** 6, factor=False),
         dict(steps=5, refs=("C", "P", "O"), q=2, lo=-10 ** 6, hi=10 ** 6), dict(steps=5, refs=("H",), q=1, lo=-300, hi=300, smax=0),
         dict(steps=5, refs=("R",), q=1, lo=-60, hi=60, smax=0), dict(steps=5, refs=("C", "P", "S"), unit="SECOND", q=5, times=(0, 1, 6, 7, 21), lo=-300, hi=300, closed=3),
         dict(steps=4, refs=("C", "P", "S"), unit="SECOND", q=5, times=("any", 20), lo=-300, hi=300, closed=4)]
    return [dict(x, **how) for x in c], [dict(x, **how) for x in t]


COVERS = ["trade", "candle", "level", "average", "strength"]
BOUNDS = ("two copies of an epic with a strategy and frames of 1-3 ticks or 5 seconds; 3-5 ticks, openings (quantities 1-4), partial closes and closes of everything in an order chosen by the solver, or 12-20 ticks of "
          "which the last three are free; prices of +-10 000.00, +-3.00 or +-0.60 on the cent grid with even spreads up to 8 cents, ticks at given times or at any microseconds of 15 seconds, market open or closed; ")
