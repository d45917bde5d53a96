"""C30 CSV reports contain every trade and every strategy exactly once."""
import csv
import io
import itertools

from symx.h import H
from harness.common import *

HEAD = ["ref", "nb_trades", "result", "profit_factor"]
NUMS = ("open_quantity", "open_value", "closed_quantities", "result")


def rows_of(ctx, text, what):
    """(header, rows) of a CSV text; every line below the header is a row"""
    rows = [r for r in csv.reader(io.StringIO(text, newline=""))]
    if not rows:
        return [], []
    head, body = rows[0], rows[1:]
    ctx.check("the header of the %s appears once" % what, not head or not any(r == head for r in body))
    return head, [dict(zip(head, r)) if len(r) == len(head) else None for r in body if r or not head]


def expected(ctx, t):
    return {"ref": t.ref, "epic": t.epic.ref, "strategy": t.strategy.ref, "open_date": t.datetime.format("YYYY-MM-DD HH:mm:ss"),
            "open_quantity": t.open_quantity, "open_value": t.open_value, "closed_quantities": t.closed_quantities, "result": t.result,
            "direction": "BUY" if is_buy(ctx, t) else "SELL", "status": t.status.name}


def same_row(ctx, row, want):
    b = True
    for k, v in want.items():
        if row is None or k not in row:
            return False
        if k in NUMS:
            b = ctx.And(b, ctx.eq(ctx.number(row[k]), v))
        elif k in ("direction", "status"):
            b = ctx.And(b, row[k].split(".")[-1] == v)
        else:
            b = ctx.And(b, row[k] == v)
    return b


def matching(ctx, rows, wants, label, key=lambda r: r["ref"]):
    """the rows are the expected ones in some order, each exactly once"""
    if len(rows) != len(wants) or any(r is None for r in rows):
        ctx.check("%s: %d rows" % (label, len(wants)), False)
        return
    for k in sorted({w["ref"] for w in wants}):
        ws, rs = [w for w in wants if w["ref"] == k], [r for r in rows if r.get("ref") == k]
        if len(ws) != len(rs):
            ctx.check("%s: one row for each" % label, False)
            continue
        ctx.check("%s: the values" % label, ctx.Or(*[ctx.And(*[same_row(ctx, r, w) for r, w in zip(rs, p)]) for p in itertools.permutations(ws)]))


def report(ctx, refs, nmax, reports=1, closes=True, lo=-10 ** 6, hi=10 ** 6, between=False, mode=None, ref="plain", second=None, head=0):
    L = ctx.lib()
    ep = epic(ctx)
    sts = []
    for i, r in enumerate(refs):
        sts.append(L.BaseStrategy(ref=r))
        if r not in refs[:i]:
            ep.add_strategy(sts[-1])
    ep.on_new_tick(ctx.tick(at(10), 100.0, 100.0))
    eps = [ep]
    if second is not None:
        # a second epic that lags behind or runs ahead
        eps.append(epic(ctx, "E2", timezone="Asia/Tokyo"))
        for s in sts:
            eps[1].add_strategy(s)
        eps[1].on_new_tick(ctx.tick(at(second), 100.0, 100.0))
    many = itertools.count()

    def trade(i):
        n = next(many)
        # the first `head` trades are known ones
        t = sts[i].open_trade(epic=eps[n % len(eps)], direction=direction(ctx, n < head or ctx.bool("buy%d" % n)), quantity=n % 4 + 1 if n < head else ctx.int("q%d" % n, 1, 5), ref={"odd": 't%d, "x"; y\nz', "same": "t", "plain": "t%d"}[ref].replace("%d", str(n)))
        if t is not None and closes and n % 2 == 0:
            t.close(close_value=ctx.cents(ctx.int("v%d" % n, lo, hi)), datetime=at(10), quantity=ctx.int("c%d" % n, 1, 5))

    for _ in range(head):
        trade(0)
    for i in range(len(refs)):
        for _ in range(ctx.pyint("n%d" % i, 0, nmax)):
            trade(i)
    ep.on_new_tick(ctx.tick(at(11), ctx.cents(ctx.int("last", lo, hi)), ctx.cents(hi + 1)))
    details, exists, explicit = mode or (ctx.bool("details"), ctx.bool("folder exists"), ctx.bool("explicit"))
    path = ctx.folder(exists)
    rep = L.ReportingCSV(target_folder=path)
    ctx.one_second()
    summary, rows, blank = [], {r: [] for r in refs}, {}
    for k in range(reports):
        if k and between:
            trade(0)
        if details:
            rep.report(sts, trade_details=True) if explicit else rep.report(sts)
        else:
            rep.report(sts, trade_details=False)
        for s in sts:
            summary.append({"ref": s.ref, "nb_trades": len(s.trades), "result": s.result(), "profit_factor": s.profit_factor()})
            blank.setdefault(s.ref, not s.trades)
            rows[s.ref] += [expected(ctx, t) for t in s.trades]
    files = ctx.read_folder(path)
    names = sorted(n for n in files if n.endswith("_strategies.csv"))
    ctx.check("one summary file", len(names) == 1)
    if len(names) == 1:
        head, got = rows_of(ctx, files[names[0]], "summary")
        ctx.check("columns of the summary", set(HEAD) <= set(head))
        ok = []
        for r in got:
            ok.append(r)
        if len(ok) == len(summary) and all(ok):
            for k in sorted(set(refs)):
                ws, rs = [w for w in summary if w["ref"] == k], [r for r in ok if r["ref"] == k]
                if len(ws) != len(rs):
                    ctx.check("one summary row per strategy", False)
                    continue
                ctx.check("values of the summary", ctx.Or(*[ctx.And(*[ctx.eq(ctx.number(r[h]), w[h]) for r, w in zip(rs, p) for h in HEAD[1:]])
                                                            for p in itertools.permutations(ws)]))
        else:
            ctx.check("one summary row per strategy", False)
    dn = [n for n in files if n.endswith("_trades.csv")]
    if not details:
        ctx.check("no details unless asked for", not dn)
        ctx.cover("no details")
        return
    for r in sorted(set(refs)):
        mine = [n for n in dn if n.endswith("_%s_trades.csv" % r)]
        if not rows[r]:
            ctx.check("no row for a strategy without trades", all(not rows_of(ctx, files[n], "details")[1] for n in mine))
            ctx.cover("no trade")
            continue
        ctx.check("one file of details per strategy reference", len(mine) == 1)
        if len(mine) != 1:
            continue
        head, got = rows_of(ctx, files[mine[0]], "details")
        late = ("C30-blank-header", blank[r])
        ctx.check("columns of the details", set(expected(ctx, sts[refs.index(r)].trades[0] if sts[refs.index(r)].trades else
                                                         next(s for s in sts if s.ref == r and s.trades).trades[0])) <= set(head), known=late)
        if blank[r]:
            ctx.check("rows below a blank header", len(got) == len(rows[r]), known=late)
            continue
        matching(ctx, got, rows[r], "trades")
        ctx.cover("details")
    ctx.observe("files", len(files))


def apart(ctx, refs, nmax, reports, same, new=False, lo=-10 ** 6, hi=10 ** 6):
    """reports at different times into one folder: each adds its rows, and nothing already there changes"""
    L = ctx.lib()
    ep = epic(ctx)
    sts = [L.BaseStrategy(ref=r) for r in refs]
    for s in sts:
        ep.add_strategy(s)
    ep.on_new_tick(ctx.tick(at(10), 100.0, 100.0))
    many = itertools.count()

    def trade(s):
        n = next(many)
        t = s.open_trade(epic=ep, direction=direction(ctx, True), quantity=ctx.int("q%d" % n, 1, 5), ref="t%d" % n)
        if n % 2 == 0:
            t.close(close_value=ctx.cents(ctx.int("v%d" % n, lo, hi)), datetime=at(10), quantity=1)

    path = ctx.folder(False)
    rep = L.ReportingCSV(target_folder=path)
    before = {}
    for k in range(reports):
        for i, s in enumerate(sts):
            for _ in range(ctx.pyint("n%d_%d" % (k, i), 0 if len(s.trades) else 1, nmax)):
                trade(s)
        if k and not same:
            ctx.next_second()
        if k and new:
            rep = L.ReportingCSV(target_folder=path)
        if same:
            ctx.one_second()
        rep.report(sts)
        files = ctx.read_folder(path)
        fresh = {}
        for n, old in before.items():
            ctx.check("nothing already written changes", n in files and files[n][:len(old)] == old)
        for n, text in files.items():
            got = rows_of(ctx, text, n.split("_")[-1])
            fresh[n] = got[1][len(rows_of(ctx, before.get(n, ""), n.split("_")[-1])[1]):]
        rows = [r for n, l in fresh.items() if n.endswith("_strategies.csv") for r in l]
        ctx.check("one summary row per strategy and report", len(rows) == len(sts) and None not in rows)
        if len(rows) != len(sts) or None in rows:
            return
        for r, s in zip(sorted(rows, key=lambda r: r.get("ref", "")), sorted(sts, key=lambda s: s.ref)):
            ctx.check("a summary row", r.get("ref") == s.ref and ctx.And(ctx.eq(ctx.number(r["nb_trades"]), len(s.trades)), ctx.eq(ctx.number(r["result"]), s.result()),
                                                                          ctx.eq(ctx.number(r["profit_factor"]), s.profit_factor())))
        for s in sts:
            rows = [r for n, l in fresh.items() if n.endswith("_%s_trades.csv" % s.ref) for r in l]
            matching(ctx, rows, [expected(ctx, t) for t in s.trades], "trades of a report")
        before = files
        if k:
            ctx.cover("a later report")
    ctx.observe("files", len(before))


YES = (True, False, False)
ODD = ("trend-following-strategy-number-1", "trend-following-strategy-number-2", 'Alpha, "beta" 1;2', "S_trades", "éè 漢字", "a'b ")
_Q = [dict(refs=("A",), nmax=3, closes=False, mode=YES), dict(refs=("A",), nmax=2, mode=YES), dict(refs=("A", "B"), nmax=1, mode=YES), dict(refs=("A", "A"), nmax=1, mode=YES), dict(refs=("A",), nmax=1),
      dict(refs=("A",), nmax=1, reports=2), dict(refs=("A",), nmax=1, reports=2, between=True, mode=YES)]
_Q += [dict(refs=("A",), nmax=3, closes=False, mode=YES, ref="same"), dict(refs=("A", "B"), nmax=2, closes=False, mode=YES, ref="same")] + [dict(refs=r, nmax=1, mode=YES, ref=t) for r, t in ((ODD[:2], "plain"), (ODD[2:4], "odd"), (ODD[4:], "odd"))]
_Q += [dict(refs=("A",), nmax=3, closes=False, mode=YES, second=h) for h in (9, 11)] + [dict(refs=("A",), nmax=1, closes=False, mode=YES, head=120)]
_T = [dict(refs=("A",), nmax=4, closes=False, mode=YES), dict(refs=("A",), nmax=3, mode=YES), dict(refs=("A", "B"), nmax=2, closes=False), dict(refs=("A", "A"), nmax=2, closes=False), dict(refs=("A", "B", "C"), nmax=1),
      dict(refs=("A", "B"), nmax=1, reports=2), dict(refs=("A",), nmax=2, reports=3), dict(refs=("A",), nmax=2, reports=2, between=True, mode=YES)]
HARNESSES = [H(report, _Q, _T, covers=["no details", "no trade", "details"],
               bounds="1-2 (thorough 3) strategies with distinct or equal references, 0-3 (4) trades each (also after 120 known ones) with any direction, quantity 1-5 and partial close at any cent value of -10 000 to 10 000, also on two epics at different times, "
                      "with and without details, target folder existing or not, 1-2 (3) reports within the same second"),
             H(apart, [dict(refs=("A",), nmax=1, reports=3, same=False), dict(refs=("A", "B"), nmax=1, reports=2, same=False, new=True), dict(refs=("A", "B"), nmax=1, reports=2, same=True, new=True)],
               [dict(refs=("A", "B"), nmax=2, reports=3, same=False), dict(refs=("A", "B"), nmax=2, reports=3, same=True, new=True)], covers=["a later report"],
               bounds="2-3 reports of 1-2 strategies into one folder, one second apart or within a second, by one reporting object or several, 0-2 new trades of any quantity and a close at any cent value between two reports")]
