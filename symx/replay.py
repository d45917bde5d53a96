"""Concrete runs of harness cases on the real package (plain interpreter, no substitution).  Reads a JSON list of cases on stdin and
prints one JSON result per case."""
import importlib
import json
import logging
import os
import signal
import sys
import traceback


def enc(v):
    import datetime
    import enum
    from fractions import Fraction
    if isinstance(v, Fraction):
        return ["n", float(v)]
    if isinstance(v, (bool, str)) or v is None:
        return ["v", v]
    if isinstance(v, enum.Enum):
        return ["v", v.name]
    if isinstance(v, (int, float)):
        return ["n", v]
    if isinstance(v, (list, tuple)):
        return ["l", [enc(x) for x in v]]
    dt = getattr(v, "_datetime", v)
    if isinstance(dt, datetime.datetime):
        off = dt.utcoffset()
        us = (dt.toordinal() * 86400 + (dt.hour * 60 + dt.minute) * 60 + dt.second) * 10 ** 6 + dt.microsecond
        return ["n", us - (off // datetime.timedelta(microseconds=1) if off is not None else 0)]
    return ["v", type(v).__name__]


class Hang(BaseException):
    pass


def _alarm(s, f):
    raise Hang()


def run_case(mod, case, findings, tier, limit=30):
    from symx import ctx as X
    from symx import sthread, state
    h = {h.name: h for h in mod.HARNESSES}[case["harness"]]
    ctx = X.ConCtx(case["inputs"], findings, tier)
    sthread.Sched.reset()
    state.pristine()
    signal.setitimer(signal.ITIMER_REAL, limit, 1.0)
    try:
        try:
            h.fn(ctx, **case["config"])
            status, detail = ("fail" if ctx.failed else "ok"), None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except X.ReplayMismatch as e:
        if ctx.failed:
            status, detail = "fail", None
        else:
            status, detail = "mismatch", str(e)
    except Hang:
        status, detail = "hang", "no end after %d s" % limit
    except Exception:
        status, detail = "exception", traceback.format_exc()[-1500:]
    r = dict(status=status, detail=detail, failed=ctx.failed[:10], known=ctx.known_failed[:10], nchecks=ctx.nchecks)
    if status == "ok":
        r["obs"] = [(k, enc(v)) for k, v in ctx.obs]
    ctx.cleanup()
    return r


def main(pid, cases, verbose=False):
    logging.disable(logging.CRITICAL)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGALRM, _alarm)
    from symx import runner
    import estrade
    import estrade.graph, estrade.enums, estrade.exceptions, estrade.reporting.csv, estrade.tick_provider  # noqa
    root = os.path.realpath(os.environ.get("ESTRADE_REPO", "/repo"))
    assert os.path.realpath(estrade.__file__).startswith(root + os.sep), estrade.__file__
    mod = importlib.import_module("harness." + pid.lower())
    findings = [f["id"] for f in runner.load_findings() if f["property"] == pid]
    rs = []
    for c in cases:
        r = run_case(mod, c, findings, os.environ.get("SYMX_TIER", "quick"))
        rs.append(r)
        print(json.dumps(r), flush=True)
    return rs


if __name__ == "__main__":
    if len(sys.argv) > 2:
        with open(sys.argv[2]) as f:
            c = json.load(f)
        r = main(sys.argv[1] if sys.argv[1] != "-" else c["property"], [c])
        sys.exit(0 if r[0]["status"] == "ok" else 1)
    main(sys.argv[1], json.load(sys.stdin))
