"""Sets up the symbolic process: datetime/calendar substitutes, real arrow/dateutil/pytz on top of them, and the estrade
modules re-read from the working tree with shimmed builtins."""
import builtins
import importlib.abc
import importlib.util
import math
import os
import random
import sys
import types

from symx import core as C, sdecimal
from symx.core import SymInt, SymFloat, plain

REPO = os.environ.get("ESTRADE_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"


# ---------------------------------------------------------------------------------------------- builtins
class _NumMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real or o is cls._sym

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


class float_shim(metaclass=_NumMeta):
    _real = float
    _sym = SymFloat

    def __new__(cls, x=0.0):
        if type(x) is SymFloat:
            return x
        if isinstance(x, SymInt):
            return SymFloat.of(x)
        if type(x) is sdecimal.Decimal:
            return x.as_float()
        if isinstance(x, str) and C.E is not None and x in C.E.tokens:
            return SymFloat.of(C.E.tokens[x])
        return float(x)


class int_shim(metaclass=_NumMeta):
    _real = int
    _sym = SymInt

    def __new__(cls, x=0, *a, **k):
        if isinstance(x, SymInt):
            return plain(x)
        if type(x) is SymFloat or type(x) is sdecimal.Decimal:
            return x.__trunc__()
        return int(x, *a, **k)


def _symbolic(x):
    return isinstance(x, SymInt) or type(x) is SymFloat or type(x) is sdecimal.Decimal


def _mm(sign, real):
    def f(*args, **kw):
        if kw:
            return real(*args, **kw)
        xs = args if len(args) > 1 else tuple(args[0])
        if not any(_symbolic(x) for x in xs) or not all(isinstance(x, (int, float)) for x in xs):
            return real(xs)
        r = xs[0]
        for x in xs[1:]:
            if isinstance(r, int) and isinstance(x, int):
                r = C.imax(plain(r), plain(x), sign)
            elif r in (math.inf, -math.inf) or x in (math.inf, -math.inf):
                r = (x if x > r else r) if sign > 0 else (x if x < r else r)
            else:
                r = C.fmax(r, x, sign)
        return r
    return f


def _abs(x):
    return abs(x)


# ---------------------------------------------------------------------------------------------- stub modules
class _Proxy(types.ModuleType):
    def __init__(self, name, real, **over):
        types.ModuleType.__init__(self, name)
        self.__dict__["_r"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_r"], n)


def _floor(x):
    return x.__floor__() if _symbolic(x) else math.floor(x)


def _ceil(x):
    return x.__ceil__() if _symbolic(x) else math.ceil(x)


def _trunc(x):
    return x.__trunc__() if _symbolic(x) else math.trunc(x)


def _isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not (_symbolic(a) or _symbolic(b)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    if d == 0:
        return True
    m = max(abs(a), abs(b))
    return d <= max(rel_tol * m, abs_tol)


smath = _Proxy("math", math, floor=_floor, ceil=_ceil, trunc=_trunc, fabs=lambda x: abs(x) if _symbolic(x) else math.fabs(x),
               isnan=lambda x: False if _symbolic(x) else math.isnan(x), isinf=lambda x: False if _symbolic(x) else math.isinf(x),
               isfinite=lambda x: True if _symbolic(x) else math.isfinite(x), fsum=lambda xs: sum(xs, 0.0), isclose=_isclose)


def _mean(xs):
    xs = list(xs)
    return sum(xs) / len(xs)


class _Gc(types.ModuleType):
    @staticmethod
    def collect(*a):
        return 0


_uuid_n = [0]


class _UUID:
    def __init__(self, n):
        self.n = n
        self.hex = "%032x" % (random.Random(n).getrandbits(128))

    def __str__(self):
        h = self.hex
        return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))


def _uuid4():
    _uuid_n[0] += 1
    return _UUID(_uuid_n[0])


def build_stubs():
    import decimal
    import gc
    import statistics
    import threading
    import time
    import uuid
    from symx import sthread, sfs
    d = {
        "math": smath,
        "decimal": _Proxy("decimal", decimal, Decimal=sdecimal.Decimal),
        "gc": _Proxy("gc", gc, collect=lambda *a: 0),
        "uuid": _Proxy("uuid", uuid, uuid4=_uuid4, uuid1=_uuid4),
        "threading": _Proxy("threading", threading, Thread=sthread.Thread, Timer=sthread.Thread),
        "statistics": _Proxy("statistics", statistics, mean=_mean, fmean=_mean),
        "time": _Proxy("time", time, sleep=lambda s: None),
    }
    d.update(sfs.stubs())
    return d


def make_builtins(stubs, fs_open):
    b = dict(builtins.__dict__)
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            top = name.split(".")[0]
            if top in stubs:
                m = stubs[top]
                if fromlist and "." in name:
                    for part in name.split(".")[1:]:
                        m = getattr(m, part)
                return m
        return real_import(name, globals, locals, fromlist, level)

    b.update(float=float_shim, int=int_shim, min=_mm(-1, builtins.min), max=_mm(1, builtins.max), abs=_abs, __import__=imp,
             print=lambda *a, **k: None, open=fs_open)
    return b


_codes = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, path, bi):
        self.path, self.bi = path, bi

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _codes.get(self.path)
        if code is None:
            with open(self.path, "rb") as f:
                code = _codes[self.path] = compile(f.read(), self.path, "exec")
        module.__dict__["__builtins__"] = self.bi
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, bi):
        self.bi = bi

    def find_spec(self, name, path, target=None):
        if name != "estrade" and not name.startswith("estrade."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(f, self.bi), submodule_search_locations=[base])
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(f, self.bi))
        return None


_done = False


def install():
    """Substitute modules and import arrow + estrade.  Only in the symbolic process."""
    global _done
    if _done:
        return
    _done = True
    import logging
    import json, re, multiprocessing, subprocess, tempfile, csv, io, shutil, traceback, email.utils  # noqa: real datetime users first
    from symx import sdatetime, scalendar
    for m in [m for m in sys.modules if m.split(".")[0] in ("arrow", "dateutil", "pytz", "estrade")]:
        del sys.modules[m]
    sys.modules["datetime"] = sdatetime
    sys.modules["calendar"] = scalendar
    if SITE in sys.path:
        sys.path.remove(SITE)
    sys.path.insert(0, SITE)  # the package's own arrow, dateutil and pytz
    sys.dont_write_bytecode = True
    eng = C.Engine()
    C.E_set(eng)
    import arrow  # noqa
    import dateutil.tz  # noqa
    import pytz  # noqa
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").split(".")[0] == "arrow":
            m.float = float_shim
            m.int = int_shim
    import arrow.formatter
    from symx import sfs
    F = arrow.formatter.DateTimeFormatter
    whole = F.format

    def fmt(self, dt, text):
        # day and hour of the path are made concrete, so that the text is exact; finer texts stay opaque
        kinds = {m.group(0) for m in F._FORMAT_RE.finditer(text)}
        if kinds and not any(k[0] in "msSZXx" for k in kinds) and isinstance(dt, sdatetime.datetime) and not dt._cell.concrete():
            d = dt.date()._one()
            dt = sdatetime._real.datetime(d.year, d.month, d.day, C.concretise(dt.hour) if any(k[0] in "HhaA" for k in kinds) else 0)
        return whole(self, dt, text)
    F.format = fmt
    stubs = build_stubs()
    sys.meta_path.insert(0, _Finder(make_builtins(stubs, sfs.sopen)))
    import estrade  # noqa
    import estrade.graph, estrade.enums, estrade.exceptions, estrade.reporting.csv, estrade.tick_provider  # noqa
    logging.disable(logging.CRITICAL)
