"""Driver for stories of one trade: ticks and closes of every kind, in an order and with quantities chosen by the solver."""
from harness.common import *

OPS = ("tick", "epic", "strategy", "trade", "direct", "from_tick")


class Story:
    """One registered trade of an epic; step() performs one operation chosen by the solver among `ops`."""

    def __init__(self, ctx, buy, qmax, lo, hi, smax, den=1, fixed=False, pace="steady", before=0):
        self.ctx, self.buy, self.lo, self.hi, self.smax, self.den = ctx, buy, lo, hi, smax, den
        self.qmax, self.fixed, self.pace = qmax, fixed, pace
        L = ctx.lib()
        self.ep = epic(ctx)
        self.st = L.BaseStrategy(ref="S")
        self.ep.add_strategy(self.st)
        self.now = None
        self.n = 0
        self.tick()
        self.q = ctx.int("q", before + 1, before + qmax)
        self.tr = self.st.open_trade(epic=self.ep, direction=direction(ctx, buy), quantity=self.q, ref="t")
        self.open, _ = side(ctx, buy, self.last)
        self.closes = []       # (quantity, price or None, datetime, close object)
        self.left = ctx.N(self.q)
        for k in range(before):
            # closed unit by unit at given prices before the free steps
            self.now = later(self.now, seconds=1)
            self.last = ctx.tick(self.now, 0.25 * (k % 7), 0.25 * (k % 7) + 0.5)
            self.ep.on_new_tick(self.last)
            c = self.ep.close_trade(trade=self.tr, quantity=1)
            self.left = self.left - 1
            self.closes.append((ctx.N(1), self.mark(), self.now, c))

    def prices(self, name):
        if self.fixed:
            return 100.0, 100.0
        b = self.ctx.int(name + ".bid", self.lo, self.hi)
        s = self.ctx.int(name + ".spr", 0, self.smax)
        return self.ctx.cents(b, self.den), self.ctx.cents(b + s, self.den)

    def tick(self):
        self.n += 1
        self.now = paced(self.ctx, "t%d" % self.n, self.now, self.pace)
        b, a = self.prices("t%d" % self.n)
        self.last = self.ctx.tick(self.now, b, a)
        self.ep.on_new_tick(self.last)

    def mark(self):
        return side(self.ctx, self.buy, self.last)[1]

    def step(self, i, ops):
        ctx = self.ctx
        op = ctx.choice("op%d" % i, ops) if len(ops) > 1 else ops[0]
        if op == "tick":
            self.tick()
            return op, None
        whole = ctx.bool("all%d" % i)
        kw = {} if whole else {"quantity": ctx.int("cq%d" % i, 1, self.qmax + 3)}
        if getattr(ctx, "world", None) == "odd":
            kw["ref"] = "t"   # the same reference for all closes, and for the trade
        price = self.mark()
        when = self.last.datetime
        if op == "epic":
            c = self.ep.close_trade(trade=self.tr, **kw)
        elif op == "strategy":
            c = self.st.close_trade(trade=self.tr, **kw)
        elif op == "trade":
            c = self.tr.close_from_epic(**kw)
        elif op == "from_tick":
            c = self.tr.close_from_tick(self.last, **kw)
        else:
            # explicit dates are free: every other close is dated before the closes made so far
            k = ctx.int("cv%d" % i, self.lo, self.hi)
            when = later(self.now, hours=-1) if i % 2 else self.now
            c = self.tr.close(close_value=ctx.cents(k, self.den), datetime=when, **kw)
            price = ctx.N(k) / (100 * self.den)
        asked = self.left if whole else ctx.N(kw["quantity"])
        took = asked.min(self.left)
        self.left = self.left - took
        self.closes.append((took, price, when, c))
        return op, c
