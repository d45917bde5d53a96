"""C24 Pivot levels are the formulas applied to the previous frame."""
from symx.h import H
from harness.common import *

HALF = 0.005 + 1e-6
LEVELS = ("pivot", "support1", "support2", "support3", "resistance1", "resistance2", "resistance3")


def pivots(ctx, olhc, unit, q, ticks, lo, hi, spread=0, times=None, m=100, mo=False, opened=None):
    """opened: closing time of the market (opened at 10:00)"""
    import datetime
    L = ctx.lib()
    ep = epic(ctx, **(dict(open_time=datetime.time(10), close_time=datetime.time(*opened)) if opened else {}))
    fs = L.FrameSet(unit=getattr(L.Unit, unit), unit_quantity=q, ref="F", max_frames_in_memory=m)
    fs.add_indicator(L.Pivot(ref="P", pivot_type=L.PivotType.OLHC if olhc else L.PivotType.CLASSIC, market_open_only=mo))
    ep.add_frame_set(fs)
    at_birth = {}
    dt = None
    for n in range(ticks):
        dt = moment(ctx, n, times, dt)
        ep.on_new_tick(cent_tick(ctx, "p%d" % n, dt, lo, hi, spread) if spread else value_tick(ctx, "p%d" % n, dt, lo, hi))
        prev = None
        for i, f in enumerate(fs.frames):
            p = f["P"]
            if p is None:
                continue
            got = [getattr(p, a) for a in LEVELS]
            if prev is None:
                ctx.check("absent without a previous value", all(g is None for g in got))
            elif any(g is None for g in got):
                ctx.check("every level is reported when there is a previous value", False)
            elif i == len(fs.frames) - 1 or n == ticks - 1:
                h, l, c = (ctx.N(x.value) for x in (prev.high_tick, prev.low_tick, prev.last_tick))
                P = ctx.N(got[0])
                if olhc:
                    ctx.check("pivot is the mean of high, low, close and open", ctx.near(P * 4, h + l + c + ctx.N(p.first_tick.value), 4 * HALF))
                else:
                    ctx.check("pivot is the mean of high, low and close", ctx.near(P * 3, h + l + c, 3 * HALF))
                want = [P, P * 2 - h, P - (h - l), l - (h - P) * 2, P * 2 - l, P + (h - l), h + (P - l) * 2]
                for a, g, w in zip(LEVELS, got, want):
                    ctx.check(a, ctx.near(g, w))
                if not olhc:
                    s1, s2, r1, r2 = (ctx.N(got[k]) for k in (1, 2, 4, 5))
                    ctx.check("levels are ordered", ctx.And(ctx.le(s2, s1), ctx.le(s1, P), ctx.le(P, r1), ctx.le(r1, r2)))
                ctx.cover("levels")
                if id(p) in at_birth:
                    ctx.check("levels do not change while the frame receives ticks", ctx.And(*[ctx.near(a, b) for a, b in zip(at_birth[id(p)], got)]))
                    ctx.cover("later tick")
                elif i == len(fs.frames) - 1:
                    at_birth[id(p)] = got
            prev = p
    ctx.observe("p", [getattr(fs.frames[-1]["P"], a) for a in LEVELS] if fs.frames[-1]["P"] is not None else None)


_B = 10 ** 6
_Q = [dict(olhc=o, unit="TICK", q=2, ticks=4, lo=-300, hi=300) for o in (False, True)] + \
     [dict(olhc=o, unit="TICK", q=1, ticks=3, lo=-_B, hi=_B) for o in (False, True)] + \
     [dict(olhc=False, unit="TICK", q=3, ticks=4, lo=-_B, hi=_B), dict(olhc=True, unit="SECOND", q=5, ticks=4, lo=-100, hi=100, times=(0, 1, 12, 13)),
      dict(olhc=False, unit="TICK", q=1, ticks=4, lo=-100, hi=100, times=(3590, 3605, 3608, 93590), mo=True, opened=(11,)),
      dict(olhc=False, unit="TICK", q=1, ticks=2, lo=-20, hi=20, spread=3),
      dict(olhc=False, unit="SECOND", q=5, ticks=4, lo=-100, hi=100, times=("any", 16)),
      dict(olhc=True, unit="SECOND", q=5, ticks=4, lo=-100, hi=100, times=("any", 16), mo=True, opened=(10, 0, 7))]
_T = [dict(olhc=o, unit="TICK", q=2, ticks=5, lo=-3000, hi=3000) for o in (False, True)] + \
     [dict(olhc=o, unit="TICK", q=1, ticks=5, lo=-_B, hi=_B) for o in (False, True)] + \
     [dict(olhc=False, unit="TICK", q=4, ticks=6, lo=-_B, hi=_B), dict(olhc=True, unit="SECOND", q=5, ticks=5, lo=-100, hi=100, times=(0, 1, 12, 13, 19)),
      dict(olhc=False, unit="TICK", q=2, ticks=5, lo=-100, hi=100, times=(3590, 3598, 3605, 3608, 93590), mo=True, opened=(11,)),
      dict(olhc=True, unit="TICK", q=1, ticks=3, lo=-100, hi=100, spread=3),
      dict(olhc=True, unit="SECOND", q=5, ticks=5, lo=-100, hi=100, times=("any", 21)),
      dict(olhc=False, unit="SECOND", q=5, ticks=5, lo=-100, hi=100, times=("any", 21), mo=True, opened=(10, 0, 7))]
HARNESSES = [H(pivots, _Q, _T, covers=["levels", "later tick"],
               bounds="both types, 3-4 (thorough 6) ticks of any values of +-10 000.00 (or +-3.00, +-1.00) on the cent grid (a null pivot included) in 2-4 (5) frames of ticks "
                      "or seconds (at fixed times or at any microseconds of 21 seconds), fillers and frames without a value (market closed) included; supports and resistances are compared with the pivot as reported")]
