"""C21 Invalid configurations are refused, valid ones accepted."""
from symx.h import H
from harness.common import *

BASE = {"SECOND": 60, "MINUTE": 60, "HOUR": 12, "MONTH": 12, "DAY": 7, "WEEK": 1}


def quantity(ctx, unit, lo, hi):
    """any quantity; once accepted the frame set works"""
    L = ctx.lib()
    q = ctx.int("q", lo, hi)
    if unit in BASE:
        ok = ctx.Or(*[ctx.eq(q, d) for d in range(1, BASE[unit] + 1) if BASE[unit] % d == 0])
    else:
        ok = ctx.ge(q, 1)
    box = []

    def make():
        box.append(L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F"))
    refused = ctx.raises(L.TimeFrameException, make)
    ctx.check("accepted iff the quantity is valid", ctx.Iff(ok, not refused))
    ctx.cover("refused" if refused else "accepted")
    if not refused:
        fs = box[0]
        ctx.check("the frame set keeps its unit and quantity", ctx.And(fs.unit == getattr(L.Unit, unit), ctx.eq(fs.unit_quantity, q)))


def refs(ctx, what, names, adds):
    """an epic refuses a second object with the same reference and keeps the first one"""
    L = ctx.lib()
    e1, e2 = epic(ctx, ref="1"), epic(ctx, ref="2")
    kept = {}
    for i in range(adds):
        r = ctx.choice("ref%d" % i, names)
        ep = e1 if ctx.bool("first%d" % i) else e2
        o = L.FrameSet(unit=L.Unit.MINUTE, unit_quantity=1, ref=r) if what == "frame_set" else L.BaseStrategy(ref=r)
        add = ep.add_frame_set if what == "frame_set" else ep.add_strategy
        refused = ctx.raises(L.EpicException, lambda: add(o))
        ctx.check("refused iff the reference is already used", refused == ((ep.ref, r) in kept))
        if not refused:
            kept[(ep.ref, r)] = o
            ctx.check("the object added knows its epic", o.epic is ep if what == "frame_set" else o.epics == {ep.ref: ep})
        else:
            ctx.cover("duplicate refused")
        for e in (e1, e2):
            d = e.frame_sets if what == "frame_set" else e.strategies
            want = {k[1]: v for k, v in kept.items() if k[0] == e.ref}
            ctx.check("the objects kept are the first ones", set(d) == set(want) and all(d[k] is want[k] for k in want))
    t = ctx.tick(at(10), 1.0, 1.0)
    e1.on_new_tick(t)
    if what == "frame_set":
        for (e, r), o in kept.items():
            ctx.check("only the kept frame sets of the epic get its ticks", (o.current is not None) == (e == "1"))


def rsi(ctx, unit, q, pmax, mmax):
    L = ctx.lib()
    p, m = ctx.int("p", 1, pmax), ctx.int("m", 1, mmax)
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
    i = L.RSI(periods=p, ref="R")
    refused = ctx.raises(L.BaseIndicatorException, lambda: fs.add_indicator(i))
    ctx.check("refused iff it needs more frames than the frame set keeps", ctx.Iff(refused, ctx.gt(ctx.N(p) * q, m)))
    ctx.cover("rsi refused" if refused else "rsi accepted")
    if not refused:
        ctx.check("an accepted RSI is attached", fs.indicators.get("R") is i and i.frame_set is fs)


_U = list(BASE) + ["TICK", "YEAR"]
HARNESSES = [
    H(quantity, [dict(unit=u, lo=-1000, hi=1000) for u in _U], [dict(unit=u, lo=-10 ** 9, hi=10 ** 9) for u in _U], covers=["refused", "accepted"],
      bounds="every unit, every quantity within +-1000 (thorough +-10^9)"),
    H(refs, [dict(what=w, names=("a", "b"), adds=3) for w in ("frame_set", "strategy")],
      [dict(what=w, names=("a", "b", "c"), adds=5 if w == "strategy" else 4) for w in ("frame_set", "strategy")],
      covers=["duplicate refused"], bounds="3 (thorough 4-5) additions with any of 2 (3) references to any of two epics"),
    H(rsi, [dict(unit="MINUTE", q=q, pmax=1000, mmax=1000) for q in (1, 5, 60)] + [dict(unit="TICK", q=7, pmax=1000, mmax=1000)],
      [dict(unit="MINUTE", q=q, pmax=10 ** 6, mmax=10 ** 6) for q in (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60)] +
      [dict(unit="TICK", q=q, pmax=10 ** 6, mmax=10 ** 6) for q in (1, 2, 7, 100)], covers=["rsi refused", "rsi accepted"],
      bounds="any number of periods and memory limit up to 1000 (thorough 10^6), concrete quantities"),
]
