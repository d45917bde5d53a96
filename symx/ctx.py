"""The harness interface.  One harness source runs in two modes:

SymCtx  inputs are z3 variables, checks are solver queries (symbolic process)
ConCtx  inputs come from a recorded assignment, checks are evaluated on the real package (replay process)
"""
import sys
from fractions import Fraction

TOL = Fraction(1, 10 ** 6)
SYMBOLIC = False  # set by SymCtx creation


class Base:
    def And(self, *bs):
        r = True
        for b in bs:
            r = self._and(r, b)
        return r

    def Or(self, *bs):
        r = False
        for b in bs:
            r = self._or(r, b)
        return r

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.And(self.Implies(a, b), self.Implies(b, a))

    def Sum(self, xs):
        r = self.N(0)
        for x in xs:
            r = r + x
        return r

    def between(self, lo, x, hi, tol=0):
        return self.And(self.le(lo, x, tol), self.le(x, hi, tol))

    def raises(self, exc, fn, *a, **k):
        """True iff fn raises exc; other exceptions propagate."""
        try:
            fn(*a, **k)
        except exc:
            return True
        return False

    # ---- estrade objects
    def lib(self):
        return Lib()

    def pristine(self):
        """the package as right after its import, for what is created from now on"""
        from symx import state
        state.pristine()

    def tick(self, dt, bid, ask, **k):
        return Lib().Tick(datetime=dt, bid=bid, ask=ask, **k)

    def prices(self, name, lo, hi, smax, smin=0):
        """(bid, ask) on the cent grid with lo <= bid <= hi, smin <= ask - bid <= smax cents."""
        b = self.int(name + ".bid", lo, hi)
        s = self.int(name + ".spr", smin, smax)
        return self.cents(b), self.cents(b + s)

    def mid2(self, tick):
        """bid + ask (twice the mid price)"""
        return self.N(tick.bid) + self.N(tick.ask)


class _Lib:
    def __getattr__(self, n):
        import importlib
        for m in ("estrade", "estrade.graph", "estrade.enums", "estrade.exceptions", "estrade.trade_provider",
                  "estrade.reporting.csv", "estrade.graph.frame_set", "estrade.graph.base_indicator", "estrade.tick_provider",
                  "estrade.graph.indicators.candle_set"):
            mod = importlib.import_module(m)
            if n in mod.__dict__:
                v = getattr(mod, n)
                setattr(self, n, v)
                return v
        raise AttributeError(n)


_lib = None


def Lib():
    global _lib
    if _lib is None:
        _lib = _Lib()
    return _lib


# ================================================================================================== symbolic
class SymCtx(Base):
    symbolic = True

    def __init__(self, engine, findings=(), tier="quick"):
        from symx import core, sdatetime
        import z3
        self.z3, self.C, self.D = z3, core, sdatetime
        self.e = engine
        self.findings = set(findings)
        self.tier = tier
        self.obls = []          # (label, z3 or False, known id or None)
        self.covers = set()
        self.obs = []
        self.violations = []
        self.known_hits = {}
        self.nchecks = 0

    # ---- files
    def folder(self, exists):
        from symx import sfs
        p = "/rep/deep/reports"
        sfs._mk(p if exists else "/rep")
        return p

    def read_folder(self, p):
        from symx import sfs
        return {f[len(p) + 1:]: t for f, t in sorted(sfs.FS.files.items()) if f.startswith(p + "/")}

    def one_second(self, longest=0.3):
        pass

    def next_second(self):
        from symx import sdatetime
        sdatetime.CLOCK[0] += sdatetime._real.timedelta(seconds=1)

    def number(self, cell):
        return self.e.tokens[cell] if cell in self.e.tokens else float(cell)

    # ---- inputs
    def int(self, name, lo, hi):
        return self.e.input_int(name, lo, hi)

    def pyint(self, name, lo, hi):
        return self.C.concretise(self.int(name, lo, hi), limit=500)

    def bool(self, name):
        return self.pyint(name, 0, 1) == 1

    def choice(self, name, seq):
        return seq[self.pyint(name, 0, len(seq) - 1)]

    def cents(self, k, den=1):
        return self.C.SymFloat.cents(k, den)

    def dt(self, name, lo, hi, tz=None, res="us"):
        """Aware datetime of the wall clock of `tz` within [lo, hi] (tuples (y, m, d, h, mi, s, us))."""
        D, C, e = self.D, self.C, self.e
        a, b = D.datetime(*lo), D.datetime(*hi)
        ta, tb = a._cell.total, b._cell.total
        da, db = ta // D.DAY, tb // D.DAY
        step = {"us": 1, "s": D.US_S, "min": D.US_M, "hour": D.US_H, "day": D.DAY}[res]
        same = da == db

        def rng(k, n):
            if same and ta // k == tb // k:
                v = (ta // k) % n
                return v, v
            if same and all(ta // x == tb // x for x in (D.DAY, D.US_H, D.US_M, D.US_S) if x > k):
                return (ta // k) % n, (tb // k) % n
            return 0, n - 1
        d = e.fresh(da, db, None)
        h = e.fresh(*rng(D.US_H, 24), None) if step < D.DAY else 0
        m = e.fresh(*rng(D.US_M, 60), None) if step < D.US_H else 0
        s = e.fresh(*rng(D.US_S, 60), None) if step < D.US_M else 0
        u = e.fresh(*rng(1, 10 ** 6), None) if step < D.US_S else 0
        tp = D.TPart(f=(h, m, s, u))
        cell = D.Cell(dp=D.DPart(ord=C.plain(d)), tp=tp)
        t = cell.total
        e.inputs[name] = t
        self.assume(self.And(self.le(ta, t), self.le(t, tb)))
        return D.datetime._of(cell, tz)

    def ymd(self, name, y0, y1):
        """(year, month, day) of an arbitrary date of the years y0..y1, as ints."""
        D, C = self.D, self.C
        y, m, d = self.int(name + ".y", y0, y1), self.int(name + ".m", 1, 12), self.int(name + ".d", 1, 31)
        mi = C.plain(C.imul_c(y, 12) + m - 1)
        self.assume(self.le(d, C.table(mi, D.mdays, "mdays")))
        return y, m, d

    # ---- spec values
    def N(self, x):
        return SN.of(x)

    def us(self, dt):
        """naive wall clock microseconds"""
        dt = getattr(dt, "_datetime", dt)
        return SN.of(dt._cell.total)

    def instant(self, dt):
        """UTC microseconds"""
        dt = getattr(dt, "_datetime", dt)
        return SN.of(dt._cell.total) - SN.of(dt.utcoffset().us)

    def ordinal(self, d):
        d = getattr(d, "_datetime", d)
        return SN.of(d._dp.o())

    def tod(self, dt):
        dt = getattr(dt, "_datetime", dt)
        return SN.of((dt._cell.tp if hasattr(dt, "_cell") else dt._tp).us())

    def tdus(self, td):
        return SN.of(td.us)

    def mod(self, a, k):
        """a mod k for an integer-valued spec value"""
        a = SN.of(a)
        return SN(self.C.idivmod(a.n, k)[1], 1)

    # ---- spec booleans: Python bool or z3.BoolRef
    def _and(self, a, b):
        if a is True:
            return b
        if b is True:
            return a
        if a is False or b is False:
            return False
        return self.z3.And(a, b)

    def _or(self, a, b):
        if a is False:
            return b
        if b is False:
            return a
        if a is True or b is True:
            return True
        return self.z3.Or(a, b)

    def Not(self, a):
        if a is True or a is False:
            return not a
        return self.z3.Not(a)

    def Ite(self, c, a, b):
        """value-level if-then-else"""
        if c is True:
            return SN.of(a)
        if c is False:
            return SN.of(b)
        a, b = SN.of(a), SN.of(b)
        C = self.C
        L = C._lcm(a.d, b.d)
        x, y = C.imul_c(a.n, L // a.d), C.imul_c(b.n, L // b.d)
        la, ha = C.bounds(x)
        lb, hb = C.bounds(y)
        r = self.e.fresh(min(la, lb), max(ha, hb), self.z3.If(c, C.form_z(x), C.form_z(y)))
        return SN(r, L)

    def _rel(self, a, b, op):
        a, b = SN.of(a), SN.of(b)
        C = self.C
        d = a - b
        v, info = C.cmp_term(d.n, 0, op)
        if v is not None:
            return v
        return C.info_z(info)

    def le(self, a, b, tol=0):
        return self._rel(SN.of(a), SN.of(b) + tol, "<=")

    def lt(self, a, b, tol=0):
        return self._rel(SN.of(a), SN.of(b) + tol, "<")

    def ge(self, a, b, tol=0):
        return self.le(b, a, tol)

    def gt(self, a, b, tol=0):
        return self.lt(b, a, tol)

    def near(self, a, b, tol=TOL):
        if a is None or b is None:
            return a is b
        a, b = SN.of(a), SN.of(b)
        d = a - b
        if type(d.d) is int and tol * d.d < 1:
            return self._rel(d, 0, "==")
        return self.And(self._rel(d, tol, "<="), self._rel(SN.of(0) - d, tol, "<="))

    def eq(self, a, b):
        """equality of ints / numbers (exact), dates and datetimes (same wall clock), anything else by =="""
        if a is None or b is None:
            return a is b
        if self.C.is_num(a) and self.C.is_num(b) or isinstance(a, SN) or isinstance(b, SN):
            if type(a) is self.C.SymFloat or type(b) is self.C.SymFloat or type(a) is float or type(b) is float:
                return self.near(a, b)
            return self._rel(a, b, "==")
        return a == b

    # ---- threads
    def threads(self, policy="sched"):
        """From now on started threads wait until the harness runs them."""
        from symx.sthread import Sched
        Sched.policy = policy
        return Sched

    # ---- actions
    def assume(self, b):
        self.flush()
        if b is True:
            return
        if b is False:
            raise self.C.Infeasible()
        e = self.e
        replay = len(e.trace) < len(e.prefix)
        if not replay and e.model is not None and self.z3.is_true(e.model.eval(b, model_completion=True)):
            m = e.model
            e.assert_(b)
            e.model = m
            return
        e.assert_(b)
        if not replay:
            r, _ = e.sat()
            if r == self.z3.unsat:
                raise self.C.Infeasible()

    def fork(self, b):
        """case split on a spec boolean"""
        if b is True or b is False:
            return b
        return self.e.branch(b)

    def check(self, label, b, known=None):
        """known: (finding id, spec bool) - the part of the input space of a recorded finding."""
        self.nchecks += 1
        if known is not None and known[0] in self.findings:
            kid, kb = known
            if kb is True or kb is False:
                if kb:
                    if b is not True:
                        self.known_hits.setdefault(kid, []).append((label, b))
                    return
            else:
                if b is not True:
                    self.known_hits.setdefault(kid, []).append((label, self.Or(b, self.Not(kb))))
                b = self.Or(b, kb)
        if b is True:
            return
        self.obls.append((label, b))

    def cover(self, label):
        self.covers.add(label)

    def observe(self, name, value):
        self.obs.append((name, self._settle(value)))

    def _settle(self, v):
        """The value with everything computed lazily (date fields, offsets) computed, as part of the path."""
        if type(v) is SN:
            return SN(self.C.plain(v.n), v.d)
        if isinstance(v, self.C.SymInt):
            return self.C.plain(v)
        if type(v) in (list, tuple):
            return [self._settle(x) for x in v]
        dt = getattr(v, "_datetime", v)
        if isinstance(dt, self.D.datetime):
            off = dt.utcoffset()
            return self.C.plain(dt._cell.total - (off.us if off is not None else 0))
        return v

    def flush(self):
        """Discharge the pending checks: is there a model of the path condition violating one of them?"""
        if not self.obls:
            return
        obls, self.obls = self.obls, []
        if len(self.e.trace) < len(self.e.prefix):
            return  # already discharged on the path this prefix comes from
        z3 = self.z3
        neg = [z3.BoolVal(True) if b is False else z3.Not(b) for _, b in obls]
        z = neg[0] if len(neg) == 1 else z3.Or(*neg)
        r, m = self.e.sat(z)
        if r == z3.sat:
            labels = [l for (l, b), n in zip(obls, neg) if z3.is_true(m.eval(n, model_completion=True))]
            self.violations.append((labels, z, m))
        elif r == z3.unknown:
            self.e.stats["inconclusive"] = self.e.stats.get("inconclusive", 0) + 1


class SN:
    """Exact rational spec value n/d (n int or form, d positive int)."""
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d

    @staticmethod
    def of(x):
        from symx import core as C
        if isinstance(x, SN):
            return x
        if isinstance(x, C.SymInt):
            return SN(C.plain(x), 1)
        if type(x) is C.SymFloat:
            d = x.den
            if isinstance(d, C.SymInt):
                return SNR(x.num, C.imul_c(d, 100))
            return SN(C.plain(x.num), 100 * d)._red()
        if isinstance(x, Fraction):
            return SN(x.numerator, x.denominator)
        if isinstance(x, (bool, int)):
            return SN(int(x), 1)
        if isinstance(x, float):
            f = Fraction(repr(x))
            return SN(f.numerator, f.denominator)
        raise TypeError("not a number: %r" % (type(x),))

    def _red(self):
        return self

    def _co(self, o):
        from symx import core as C
        o = SN.of(o)
        L = C._lcm(self.d, o.d)
        return C.imul_c(self.n, L // self.d), C.imul_c(o.n, L // o.d), L

    def __add__(self, o):
        if isinstance(SN.of(o), SNR):
            return SN.of(o) + self
        a, b, L = self._co(o)
        return SN(a + b, L)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(SN.of(o), SNR):
            return -(SN.of(o) - self)
        a, b, L = self._co(o)
        return SN(a - b, L)

    def __rsub__(self, o):
        return SN.of(o) - self

    def __neg__(self):
        return SN(-self.n, self.d)

    def __mul__(self, o):
        from symx import core as C
        o = SN.of(o)
        return SN(C.imul(C.plain(self.n), C.plain(o.n)), self.d * o.d)

    __rmul__ = __mul__

    def __truediv__(self, k):
        k = Fraction(k)
        from symx import core as C
        return SN(C.imul_c(self.n, k.denominator), self.d * k.numerator) if k > 0 else NotImplemented

    def __abs__(self):
        from symx import core as C
        return SN(C.iabs(self.n), self.d)

    def max(self, o):
        from symx import core as C
        a, b, L = self._co(o)
        return SN(C.imax(a, b, 1), L)

    def min(self, o):
        from symx import core as C
        a, b, L = self._co(o)
        return SN(C.imax(a, b, -1), L)


class SNR(SN):
    """Ratio with a symbolic positive denominator; only supports comparison with plain values."""

    def __sub__(self, o):
        from symx import core as C
        o = SN.of(o)
        if isinstance(o, SNR):
            if C.same(self.d, o.d):
                return SNR(C.plain(self.n - o.n), self.d)
            raise C.Unsupported("difference of two symbolic ratios")
        # self.n/self.d - o.n/o.d
        return SNR(C.plain(C.imul_c(self.n, o.d) - C.imul(C.plain(o.n), C.plain(self.d))), C.imul_c(self.d, o.d))

    def __add__(self, o):
        return self - (-SN.of(o))

    def __neg__(self):
        return SNR(-self.n, self.d)


# ================================================================================================== concrete
class ReplayMismatch(Exception):
    """The recorded assignment does not satisfy an assumption on the real code."""


class ConCtx(Base):
    symbolic = False

    def __init__(self, inputs, findings=(), tier="quick"):
        self.inputs = inputs
        self.findings = set(findings)
        self.tier = tier
        self.failed = []
        self.known_failed = []
        self.covers = set()
        self.obs = []
        self.nchecks = 0

    def int(self, name, lo, hi):
        if name not in self.inputs:   # the recorded path ended before this input was read: any value will do
            return lo
        v = self.inputs[name]
        if not lo <= v <= hi:
            raise ReplayMismatch("input %s out of range" % name)
        return v

    pyint = int

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def choice(self, name, seq):
        return seq[self.int(name, 0, len(seq) - 1)]

    def cents(self, k, den=1):
        return k / (100 * den)

    def dt(self, name, lo, hi, tz=None, res="us"):
        import datetime
        us = self.inputs.get(name)
        if us is None:
            us = self._default_dt(lo)
        d, t = divmod(us, 86400 * 10 ** 6)
        x = datetime.datetime.fromordinal(d) + datetime.timedelta(microseconds=t)
        return x.replace(tzinfo=tz)

    def ymd(self, name, y0, y1):
        if name + ".d" not in self.inputs:
            return y0, 1, 1
        return self.inputs[name + ".y"], self.inputs[name + ".m"], self.inputs[name + ".d"]

    @staticmethod
    def _default_dt(lo):
        import datetime
        x = lo if isinstance(lo, datetime.datetime) else datetime.datetime(*lo)
        return (x.toordinal() * 86400 + (x.hour * 60 + x.minute) * 60 + x.second) * 10 ** 6 + x.microsecond

    def folder(self, exists):
        import os
        import tempfile
        d = tempfile.mkdtemp(prefix="symx_")
        self.dirs = getattr(self, "dirs", []) + [d]
        p = os.path.join(d, "deep", "reports")
        if exists:
            os.makedirs(p)
        return p

    def read_folder(self, p):
        import os
        r = {}
        for n in sorted(os.listdir(p)) if os.path.isdir(p) else ():
            with open(os.path.join(p, n), newline="") as f:
                r[n] = f.read()
        return r

    def one_second(self, longest=0.3):
        """what follows runs within one second of the clock"""
        import time
        f = time.time() % 1
        if f > 1 - longest:
            time.sleep(1.001 - f)

    def next_second(self):
        import time
        time.sleep(1.002 - time.time() % 1)

    def number(self, cell):
        return float(cell)

    def N(self, x):
        if isinstance(x, Fraction):
            return x
        if isinstance(x, float):
            return Fraction(x)
        return Fraction(int(x))

    def us(self, dt):
        dt = getattr(dt, "_datetime", dt)
        return Fraction(dt.toordinal() * 86400 * 10 ** 6 + ((dt.hour * 60 + dt.minute) * 60 + dt.second) * 10 ** 6 + dt.microsecond)

    def tdus(self, td):
        return Fraction((td.days * 86400 + td.seconds) * 10 ** 6 + td.microseconds)

    def instant(self, dt):
        dt = getattr(dt, "_datetime", dt)
        return self.us(dt) - self.tdus(dt.utcoffset())

    def ordinal(self, d):
        d = getattr(d, "_datetime", d)
        return Fraction(d.toordinal())

    def tod(self, dt):
        return Fraction(((dt.hour * 60 + dt.minute) * 60 + dt.second) * 10 ** 6 + dt.microsecond)

    def mod(self, a, k):
        return Fraction(int(a) % k)

    def _and(self, a, b):
        return bool(a) and bool(b)

    def _or(self, a, b):
        return bool(a) or bool(b)

    def Not(self, a):
        return not a

    def Ite(self, c, a, b):
        return self.N(a) if c else self.N(b)

    def le(self, a, b, tol=0):
        return self.N(a) <= self.N(b) + (tol or TOL / 1000)

    def lt(self, a, b, tol=0):
        return self.N(a) < self.N(b) + tol

    def ge(self, a, b, tol=0):
        return self.le(b, a, tol)

    def gt(self, a, b, tol=0):
        return self.lt(b, a, tol)

    def near(self, a, b, tol=TOL):
        if a is None or b is None:
            return a is b
        return abs(self.N(a) - self.N(b)) <= tol

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
            if isinstance(a, float) or isinstance(b, float):
                return self.near(a, b)
            return a == b
        return a == b

    def assume(self, b):
        if not b:
            raise ReplayMismatch("assumption does not hold on the real code")

    def fork(self, b):
        return bool(b)

    def check(self, label, b, known=None):
        self.nchecks += 1
        if not b:
            if known is not None and known[0] in self.findings and known[1]:
                self.known_failed.append((known[0], label))
            else:
                self.failed.append(label)

    def cover(self, label):
        self.covers.add(label)

    def observe(self, name, value):
        self.obs.append((name, value))

    def flush(self):
        pass

    def threads(self, policy="sched"):
        """The same controlled schedule on the real package: threading.Thread is replaced where estrade sees it."""
        import threading
        from symx import sthread
        sthread.Sched.reset(policy)
        self._real_thread = real = threading.Thread
        threading.Thread = sthread.Thread
        for n, m in list(sys.modules.items()):
            if n.split(".")[0] == "estrade":
                for k, v in list(vars(m).items()):
                    if v is real:
                        setattr(m, k, sthread.Thread)
        return sthread.Sched

    def cleanup(self):
        if hasattr(self, "_real_thread"):
            import threading
            from symx import sthread
            threading.Thread = self._real_thread
            for n, m in list(sys.modules.items()):
                if n.split(".")[0] == "estrade":
                    for k, v in list(vars(m).items()):
                        if v is sthread.Thread:
                            setattr(m, k, self._real_thread)
        for d in getattr(self, "dirs", ()):
            import shutil
            shutil.rmtree(d, ignore_errors=True)


Fraction.max = lambda a, b: a if a >= b else Fraction(b)
Fraction.min = lambda a, b: a if a <= b else Fraction(b)
