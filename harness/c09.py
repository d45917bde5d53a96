"""C09 Strategy statistics are computed over exactly the given trades."""
from fractions import Fraction

from symx.h import H
from harness.common import *

E = Fraction(1, 10 ** 6)


def make(ctx, n, lo, hi, q=None, mixed=False, few=None):
    """n trades and their results; mixed: BUY or SELL, each left open, closed in part or in full, the rest marked at the last tick"""
    L = ctx.lib()
    ep, st = epic(ctx), L.BaseStrategy(ref="S")
    ep.add_strategy(st)
    ep.on_new_tick(ctx.tick(at(10), 1.0, 1.0))
    buy = ctx.bool("buy") if mixed else True
    ts, res = [], []
    for i in range(n):
        t = st.open_trade(epic=ep, direction=direction(ctx, buy), quantity=q or ctx.int("q%d" % i, 1, 4), ref="t%d" % i)
        ts.append(t)
    for i, t in enumerate(ts):
        kind = ctx.choice("kind%d" % i, ("closed", "part", "open")) if mixed else "closed"
        done = ctx.N(0)
        if kind != "open":
            k = ctx.int("v%d" % i, lo, hi) if few is None or i % 7 < few and i > 4 else i * 37 % 101 - 60
            kw = dict(quantity=1) if kind == "part" else {}
            c = t.close(close_value=ctx.cents(k + 100), datetime=at(11), **kw)
            ctx.cover(kind)
            done = ctx.N(c.quantity)
            res.append((ctx.N(k) if buy else -ctx.N(k)) / 100 * done)
        else:
            ctx.cover(kind)
            res.append(ctx.N(0))
    if mixed:
        k = ctx.int("mark", lo, hi)
        p = ctx.cents(k + 100)
        ep.on_new_tick(ctx.tick(at(12), p, p))
        for i, t in enumerate(ts):
            res[i] = res[i] + (ctx.N(k) if buy else -ctx.N(k)) / 100 * ctx.N(t.opened_quantities)
    return st, res


def variants(ctx, st, n, mask, how):
    """the argument and the indices it stands for"""
    sel = [i for i in range(n) if mask >> i & 1]
    ts = [st.trades[i] for i in sel]
    if how == "list":
        return ts, sel
    if how == "iter":
        return (t for t in ts), sel
    if how == "get":
        return st.get_trades(), list(range(n))
    return None, list(range(n))


def result(ctx, n, lo, hi, mixed=False, few=None):
    st, res = make(ctx, n, lo, hi, mixed=mixed, few=few)
    for how in ("none", "get", "list", "iter"):
        for mask in (0,) if how not in ("list", "iter") else range(2 ** n) if few is None else (2 ** n - 1, (2 ** n - 1) // 3):
            arg, sel = variants(ctx, st, n, mask, how)
            r = st.result() if how == "none" else st.result(arg)
            ctx.check("result over %s" % how, ctx.near(r, ctx.Sum(res[i] for i in sel)))
            if how != "none" and not sel:
                ctx.cover("empty")
    ctx.observe("r", st.result())


def factor(ctx, n, lo, hi, how, mixed=False, few=None):
    st, res = make(ctx, n, lo, hi, q=2 if mixed else 1, mixed=mixed, few=few)
    mask = 2 ** n - 2 if few is not None else ctx.pyint("mask", 0, 2 ** n - 1) if how in ("list", "iter") else 0
    arg, sel = variants(ctx, st, n, mask, how)
    pf = st.profit_factor() if how == "none" else st.profit_factor(trades=arg)
    gains = losses = ctx.N(0)
    for i in sel:
        if ctx.fork(ctx.ge(res[i], 0)):
            gains = gains + res[i]
        else:
            losses = losses - res[i]
    ctx.check("never negative", ctx.ge(pf, 0))
    if ctx.fork(ctx.eq(losses, 0)):
        ctx.check("plain gains", ctx.near(pf, gains))
        ctx.cover("no loss")
    elif ctx.fork(ctx.le(losses, 1)):
        ctx.check("losses below one count as one", ctx.near(pf, gains, Fraction(1, 200) + E))
        ctx.cover("small losses")
    else:
        a = ctx.N(pf) * losses
        tol = losses * (Fraction(1, 200) + 50 * E)
        ctx.check("gains over losses to two decimals", ctx.And(ctx.le(a - gains, tol), ctx.le(gains - a, tol)))
        ctx.check("two decimals", ctx.near(round(pf, 2), pf))
        ctx.cover("gains and losses")
    if not sel:
        ctx.check("no trade", ctx.near(pf, 0))
        ctx.cover("empty")
    ctx.observe("pf", pf)


_Q = [dict(n=3, lo=-10 ** 5, hi=10 ** 5), dict(n=2, lo=-20, hi=20), dict(n=0, lo=0, hi=0), dict(n=2, lo=-500, hi=500, mixed=True), dict(n=3, lo=-10 ** 8, hi=10 ** 8), dict(n=120, lo=-10 ** 4, hi=10 ** 4, few=1)]
_F = [dict(n=2, lo=-250, hi=250, how=h) for h in ("list", "iter", "get", "none")] + [dict(n=3, lo=-150, hi=150, how="none"),
                                                                                   dict(n=1, lo=-10 ** 6, hi=10 ** 6, how="iter"), dict(n=2, lo=-150, hi=150, how="none", mixed=True), dict(n=2, lo=-10 ** 5, hi=10 ** 7, how="none"), dict(n=2, lo=-10 ** 7, hi=10 ** 5, how="get"), dict(n=20, lo=-150, hi=150, how="none", few=2), dict(n=14, lo=-5000, hi=5000, how="iter", few=2)]
_FT = [dict(n=3, lo=-150, hi=150, how=h, mixed=True) for h in ("none", "list")] + [dict(n=3, lo=-400, hi=400, how=h) for h in ("list", "iter", "get", "none")] + [dict(n=4, lo=-200, hi=200, how="none"),
                                                                                    dict(n=1, lo=-10 ** 7, hi=10 ** 7, how="iter")]
HARNESSES = [
    H(result, _Q, [dict(n=3, lo=-500, hi=500, mixed=True), dict(n=4, lo=-10 ** 6, hi=10 ** 6)] + _Q, odd=(3,), covers=["empty", "closed", "part", "open"],
      bounds="up to 3 (thorough 4) trades of quantity 1..4 with a profit of +-1 000.00 (or 1 000 000.00) per unit, every subset as a list and as an iterator; 2 (thorough 3) BUY or SELL trades left open, partly or fully closed, marked at any price"),
    H(factor, _F, _FT, odd=(3, 6), covers=["no loss", "small losses", "gains and losses", "empty"],
      bounds="up to 3 (thorough 4) trades with results of +-2.50 (+-4.00) on the cent grid, every subset; 2 (thorough 3) trades of quantity 2 left open, partly or fully closed"),
]
