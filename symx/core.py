"""Symbolic execution engine: path exploration of ordinary Python code over z3-backed values.

SymInt    linear form over z3 integer atoms (with intervals), exact Python int semantics.
SymFloat  exact rational number of cents (num/den) plus a bound on the rounding error of the double it stands for.
Engine    one path at a time, re-executed from a prefix of branch decisions; every branch is decided by the solver.
"""
import builtins as _b
import itertools
import math
import sys
import time
from fractions import Fraction

import z3

_lcm, _gcd = math.lcm, math.gcd


class Steer(BaseException):
    """Base of the exceptions that end a path; never caught by the code under test (BaseException)."""


class Infeasible(Steer):
    pass


class Cut(Steer):
    """Path cut at an exploration bound (recorded, makes the run non-exhaustive)."""


class Unsupported(Steer):
    """An operation outside the encoding; the path is sampled concretely instead."""


class PathTimeout(Steer):
    pass


E = None  # current engine


def cur():
    return E


# --------------------------------------------------------------------------------------------------
# linear forms
# --------------------------------------------------------------------------------------------------
_z_cache = {}
_atom_z = {}


def atom_z(i):
    z = _atom_z.get(i)
    if z is None:
        z = _atom_z[i] = z3.Int("a%d" % i)
    return z


def terms_z(t):
    z = _z_cache.get(t)
    if z is None:
        parts = [atom_z(i) if c == 1 else c * atom_z(i) for i, c in t]
        z = parts[0] if len(parts) == 1 else z3.Sum(parts)
        if len(_z_cache) > 200000:
            _z_cache.clear()
        _z_cache[t] = z
    return z


def form_z(x):
    if isinstance(x, SymInt):
        z = terms_z(x.t)
        return z + x.c if x.c else z
    return z3.IntVal(int(x))


def mk(d, c):
    t = tuple(sorted((i, k) for i, k in d.items() if k))
    if not t:
        return c
    return SymInt(t, c)


def _add_forms(a, b, sign=1):
    # a, b: SymInt or int
    if type(a) is not SymInt:
        if type(b) is not SymInt:
            return a + sign * b
        if sign == 1:
            if a == 0:
                return b
            return b._shift(a)
        return SymInt(tuple((i, -c) for i, c in b.t), a - b.c)
    if type(b) is not SymInt:
        if b == 0:
            return a
        return a._shift(sign * b)
    d = dict(a.t)
    for i, c in b.t:
        d[i] = d.get(i, 0) + sign * c
    return mk(d, a.c + sign * b.c)


def plain(x):
    """Normalise lazily computed ints to SymInt/int."""
    if isinstance(x, SymInt):
        if type(x) is SymInt:
            return x
        return x.force()
    return x


def is_num(x):
    return isinstance(x, (int, float)) or type(x) in (SymInt, SymFloat) or isinstance(x, SymInt)


class SymInt:
    __slots__ = ("t", "c")

    def __init__(self, t, c):
        self.t = t
        self.c = c

    __class__ = property(lambda self: int)

    def _shift(self, k):
        return SymInt(self.t, self.c + k)

    def force(self):
        return self

    # ---- arithmetic
    def _coerce(self, o):
        if isinstance(o, SymInt):
            return plain(o)
        if isinstance(o, int):
            return int(o)
        return None

    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        if isinstance(o, (SymFloat,)) or isinstance(o, float):
            return SymFloat.of(self) + o
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return _add_forms(plain(self), o)

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is int and o == 0:
            return self
        if isinstance(o, (SymFloat,)) or isinstance(o, float):
            return SymFloat.of(self) - o
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return _add_forms(plain(self), o, -1)

    def __rsub__(self, o):
        if isinstance(o, float):
            return SymFloat.of(o) - self
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return _add_forms(o, plain(self), -1)

    def __neg__(self):
        s = plain(self)
        if type(s) is not SymInt:
            return -s
        return SymInt(tuple((i, -c) for i, c in s.t), -s.c)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isinstance(o, (SymFloat,)) or isinstance(o, float):
            return SymFloat.of(self) * o
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        o = self._coerce(o)
        return imul(plain(self), o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return SymFloat.of(self) / o

    def __rtruediv__(self, o):
        return SymFloat.of(o) / self

    def __floordiv__(self, o):
        if isinstance(o, (SymFloat,)) or isinstance(o, float):
            raise Unsupported("float floor division")
        if self._coerce(o) is None:
            return NotImplemented
        return idivmod(self, o)[0]

    def __mod__(self, o):
        if isinstance(o, (SymFloat,)) or isinstance(o, float):
            raise Unsupported("float modulo")
        if self._coerce(o) is None:
            return NotImplemented
        return idivmod(self, o)[1]

    def __divmod__(self, o):
        if self._coerce(o) is None:
            return NotImplemented
        return idivmod(self, o)

    def __rfloordiv__(self, o):
        return idivmod(o, self)[0]

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return idivmod(o, self)[1]

    def __rdivmod__(self, o):
        return idivmod(o, self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("pow")

    def __abs__(self):
        return iabs(self)

    def __round__(self, n=None):
        if n is None or (isinstance(n, int) and n >= 0):
            return self
        raise Unsupported("round int to negative digits")

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    # ---- comparisons (fork)
    def _cmp(self, o, op):
        if isinstance(o, (SymFloat,)) or isinstance(o, float):
            return _fcmp(SymFloat.of(self), SymFloat.of(o), op)
        o2 = self._coerce(o)
        if o2 is None:
            return NotImplemented
        return icmp(plain(self), o2, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __bool__(self):
        return icmp(plain(self), 0, "!=")

    def __index__(self):
        return concretise(self)

    def __int__(self):
        return concretise(self)

    def __float__(self):
        return float(concretise(self))

    def __hash__(self):
        return _hash(self, lambda: hash(concretise(self)))

    def __str__(self):
        return E.token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return E.token(self)

    def bit_length(self):
        raise Unsupported("bit_length")

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return self, 1


def norm(t, c):
    """Apply the substitutions atom -> K*q + r recorded by divisions."""
    sub = E.subst
    if sub and any(i in sub for i, _ in t):
        d = {}
        stack = list(t)
        while stack:
            i, k = stack.pop()
            s = sub.get(i)
            if s is None:
                d[i] = d.get(i, 0) + k
            else:
                st, sc = s
                c += k * sc
                for j, kk in st:
                    stack.append((j, k * kk))
        t = tuple(sorted((i, k) for i, k in d.items() if k))
    return t, c


def normed(x):
    t, c = norm(x.t, x.c)
    return SymInt(t, c) if t else c


def bounds(x):
    """Interval of a form (SymInt or int) under the current path."""
    x = plain(x)
    if type(x) is not SymInt:
        return x, x
    t, c = norm(x.t, x.c)
    if not t:
        return c, c
    lo, hi = _tbounds(t)
    return lo + c, hi + c


def _tbounds(t):
    al, ah = E.alo, E.ahi
    lo = hi = 0
    for i, k in t:
        if k > 0:
            lo += k * al[i]
            hi += k * ah[i]
        else:
            lo += k * ah[i]
            hi += k * al[i]
    if len(t) > 1:
        # known interval of the primitive form
        g = 0
        for _, k in t:
            g = _gcd(g, k)
        if t[0][1] < 0:
            g = -g
        key = tuple((i, k // g) for i, k in t) if g != 1 else t
        r = E.tb.get(key)
        if r is not None:
            a, b = r
            if g > 0:
                lo, hi = max(lo, a * g), min(hi, b * g)
            else:
                lo, hi = max(lo, b * g), min(hi, a * g)
    return lo, hi


def _prim(x):
    """x (SymInt, normed) -> (t primitive with positive leading coeff, g, c): x = g*T + c."""
    t, c = x.t, x.c
    g = 0
    for _, k in t:
        g = _gcd(g, k)
    if t[0][1] < 0:
        g = -g
    if g != 1:
        t = tuple((i, k // g) for i, k in t)
    return t, g, c


def _refine(t, lo, hi):
    if len(t) == 1:
        i = t[0][0]  # primitive => coefficient 1
        if lo is not None and lo > E.alo[i]:
            E.alo[i] = lo
        if hi is not None and hi < E.ahi[i]:
            E.ahi[i] = hi
    else:
        a, b = _tbounds(t)
        if lo is not None and lo > a:
            a = lo
        if hi is not None and hi < b:
            b = hi
        E.tb[t] = (a, b)


def cmp_term(a, b, op):
    """Comparison of two int forms without forking: True/False or a description (z3 BoolRef, refine info)."""
    d = plain(a - b) if not (type(a) is int and type(b) is int) else a - b
    if type(d) is not SymInt:
        return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op], None
    d = normed(d)
    if type(d) is not SymInt:
        return cmp_term(d, 0, op)
    t, g, c = _prim(d)
    if op in ("==", "!="):
        neg = op == "!="
        if c % g:
            return neg, None
        B = -c // g
        lo, hi = _tbounds(t)
        if B < lo or B > hi:
            return neg, None
        if lo == hi:
            return not neg, None
        if B in E.neq.get(t, ()):
            return neg, None
        return (None, ("==", t, B, neg))
    # d op 0, d = g*T + c
    if op == ">":
        t0, neg = ("<=", True)
    elif op == ">=":
        t0, neg = ("<", True)
    else:
        t0, neg = (op, False)
    # t0: g*T + c <= 0 (or < 0  => g*T + c + 1 <= 0)
    cc = c + 1 if t0 == "<" else c
    # g*T <= -cc
    if g > 0:
        B = (-cc) // g
        n2 = False
    else:
        # T >= cc/(-g) -> T >= ceil(cc / -g) ; not (T <= ceil-1)
        B = -((-cc) // (-g)) - 1
        n2 = True
    lo, hi = _tbounds(t)
    neg = neg != n2
    if hi <= B:
        return not neg, None
    if lo > B:
        return neg, None
    return (None, ("<=", t, B, neg))


def info_z(info):
    op, t, B, neg = info
    z = terms_z(t)
    r = (z == B) if op == "==" else (z <= B)
    return z3.Not(r) if neg else r


def icmp(a, b, op):
    v, info = cmp_term(a, b, op)
    if v is not None:
        return v
    kind, t, B, neg = info
    z = terms_z(t)
    r = E.branch((z == B) if kind == "==" else (z <= B))
    if kind == "==":
        if r:
            _refine(t, B, B)
        else:
            E.neq.setdefault(t, set()).add(B)
            lo, hi = _tbounds(t)
            if lo == B:
                _refine(t, B + 1, None)
            elif hi == B:
                _refine(t, None, B - 1)
    elif r:
        _refine(t, None, B)
    else:
        _refine(t, B + 1, None)
    return r != neg


def imul(a, b):
    if type(a) is not SymInt:
        a, b = b, a
    if type(a) is not SymInt:
        return a * b
    if type(b) is not SymInt:
        if b == 0:
            return 0
        if b == 1:
            return a
        return SymInt(tuple((i, k * b) for i, k in a.t), a.c * b)
    key = ("mul", min((a.t, a.c), (b.t, b.c)), max((a.t, a.c), (b.t, b.c)))
    r = E.memo.get(key)
    if r is not None:
        return r
    la, ha = bounds(a)
    lb, hb = bounds(b)
    if ha - la < hb - lb:
        a, b, la, ha, lb, hb = b, a, lb, hb, la, ha
    # b has the smaller range
    ps = [la * lb, la * hb, ha * lb, ha * hb]
    if hb - lb <= 24:
        az, bz = form_z(a), form_z(b)
        e = hb * az
        for v in range(hb - 1, lb - 1, -1):
            e = z3.If(bz == v, (v * az) if v else z3.IntVal(0), e)
    else:
        E.nonlinear += 1
        e = form_z(a) * form_z(b)
    r = E.fresh(min(ps), max(ps), e)
    E.memo[key] = r
    return r


def table(x, fn, tag):
    """fresh atom equal to fn(x) for every value of x in its interval (fn: int -> int)."""
    x = plain(x)
    if type(x) is not SymInt:
        return fn(x)
    key = ("table", tag, x.t, x.c)
    r = E.memo.get(key)
    if r is not None:
        return r
    lo, hi = bounds(x)
    if hi - lo > 5000:
        raise Unsupported("table over a wide range")
    vals = [fn(v) for v in range(lo, hi + 1)]
    if all(v == vals[0] for v in vals):
        r = vals[0]
    elif len(vals) > 2 and all(vals[i + 1] - vals[i] == vals[1] - vals[0] for i in range(len(vals) - 1)):
        s = vals[1] - vals[0]
        r = imul(x, s) + (vals[0] - s * lo)
    else:
        xz = form_z(x)
        # runs of equal values
        e = None
        runs = []
        for v, y in zip(range(lo, hi + 1), vals):
            if runs and runs[-1][1] == y:
                runs[-1][0] = v
            else:
                runs.append([v, y])
        e = z3.IntVal(runs[-1][1])
        for last, y in reversed(runs[:-1]):
            e = z3.If(xz <= last, z3.IntVal(y), e)
        r = E.fresh(min(vals), max(vals), e)
    E.memo[key] = r
    return r


def idivmod(a, b):
    a, b = plain(a), plain(b)
    if type(b) is SymInt:
        lb, hb = bounds(b)
        if lb == hb:
            b = lb
    if type(b) is SymInt:
        if b == 0:  # forks
            raise ZeroDivisionError("integer modulo by zero")
        la, ha = bounds(a)
        lb, hb = bounds(b)
        if la == ha and hb - lb <= 2000:
            q = table(b, lambda v: (la // v) if v else 0, ("q", la))
            r = table(b, lambda v: (la % v) if v else 0, ("r", la))
            return q, r
        if hb - lb <= 40:
            b = concretise(b)
        else:
            raise Unsupported("division by a wide symbolic integer")
    if type(a) is not SymInt:
        return divmod(a, b)
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if b < 0:
        q, r = idivmod(-a, -b)
        return q, -r
    return _divc(a, b)


def _divc(f, K):
    f = normed(plain(f))
    if type(f) is not SymInt:
        return divmod(f, K)
    if K == 1:
        return f, 0
    key = ("div", f.t, f.c, K)
    r = E.memo.get(key)
    if r is not None:
        return r
    r = _divc2(f, K)
    E.memo[key] = r
    return r


def _divc2(f, K):
    qt, rt = {}, {}
    for i, c in f.t:
        if c % K == 0:
            qt[i] = c // K
        else:
            q = c // K if abs(c) > K else 0
            if q:
                qt[i] = q
            rt[i] = c - q * K
    q0, r0 = divmod(f.c, K)
    Q = mk(qt, q0)
    R = mk(rt, r0)
    if type(R) is not SymInt:
        return Q, R
    lo, hi = bounds(R)
    m = lo // K
    if m == hi // K:
        return Q + m, R - m * K
    # R = g*X + S with g | K and 0 <= S < g
    items = sorted(R.t, key=lambda ic: -abs(ic[1]))
    g = 0
    for n in range(1, len(items) + 1):
        g = _gcd(g, items[n - 1][1])
        gg = _gcd(g, K)
        if gg <= 1:
            break
        rest = {i: c for i, c in items[n:]}
        xc, sc = divmod(R.c, gg)
        S = mk(rest, sc)
        sl, sh = bounds(S)
        if sl // gg == sh // gg:
            adj = sl // gg
            X = mk({i: c // gg for i, c in items[:n]}, xc + adj)
            S = S - adj * gg
            if type(X) is SymInt and gg > 1:
                q2, r2 = _divc(X, K // gg)
                return Q + q2, imul_c(r2, gg) + S
    # fresh quotient / remainder
    q = E.fresh(lo // K, hi // K, None)
    r = E.fresh(0, K - 1, None)
    E.assert_(form_z(R) == K * form_z(q) + form_z(r))
    if len(R.t) == 1 and R.t[0][1] == 1 and type(q) is SymInt and type(r) is SymInt:
        # atom = K*q + r - c
        E.subst[R.t[0][0]] = (((q.t[0][0], K), (r.t[0][0], 1)), -R.c)
    return Q + q, r


def imul_c(x, k):
    return imul(plain(x), k) if isinstance(x, SymInt) else x * k


def iabs(x):
    x = plain(x)
    if type(x) is not SymInt:
        return abs(x)
    lo, hi = bounds(x)
    if lo >= 0:
        return x
    if hi <= 0:
        return -x
    key = ("abs", x.t, x.c)
    r = E.memo.get(key)
    if r is None:
        z = form_z(x)
        r = E.memo[key] = E.fresh(0, max(-lo, hi), z3.If(z >= 0, z, -z))
    return r


def imax(a, b, sign=1):
    a, b = plain(a), plain(b)
    v, info = cmp_term(a, b, ">=" if sign > 0 else "<=")
    if v is not None:
        return a if v else b
    key = ("max", sign, getattr(a, "t", None), getattr(a, "c", a), getattr(b, "t", None), getattr(b, "c", b))
    r = E.memo.get(key)
    if r is None:
        la, ha = bounds(a)
        lb, hb = bounds(b)
        az, bz = form_z(a), form_z(b)
        if sign > 0:
            r = E.fresh(max(la, lb), max(ha, hb), z3.If(az >= bz, az, bz))
        else:
            r = E.fresh(min(la, lb), min(ha, hb), z3.If(az <= bz, az, bz))
        E.memo[key] = r
    return r


def concretise(x, limit=300):
    """Fork over the feasible values of an int form; return the Python int of this path."""
    x = plain(x)
    if type(x) is not SymInt:
        return x
    lo, hi = bounds(x)
    if lo == hi:
        return lo
    E.concretised += 1
    for n in range(limit):
        lo, hi = bounds(x)
        if lo == hi:
            return lo
        v = E.pick(x)
        if icmp(x, v, "=="):
            return v
    E.cut("concretisation limit")


# --------------------------------------------------------------------------------------------------
# floats
# --------------------------------------------------------------------------------------------------
def _hash(x, exact):
    """Few values: one path per value.  Many: one hash for all, so that dicts and sets compare with ==; a concrete equal key is then
    not found, hence the path only approximates."""
    lo, hi = bounds(x)
    if hi - lo < 40:
        return exact()
    E.approx += 1
    return 17


U = 2.0 ** -53 * (1 + 1e-9)


class SymFloat:
    """num/den cents; den > 0 (int or SymInt).  canon: the double nearest to num/den/100.
    err: bound (in cents) on |double*100 - num/den|.  key: identity of the float computation."""

    __slots__ = ("num", "den", "canon", "err", "key", "ez", "iv", "rel")

    def __init__(self, num, den, canon, err, key, ez=False, iv=None):
        self.rel = None          # bound on the relative error, when known better than from err
        self.iv = iv             # interval of num/den when it is known better than from the bounds of both
        self.ez = canon or ez    # the double has exactly the sign of num
        self.num = num
        self.den = den
        self.canon = canon
        self.err = err
        self.key = key

    __class__ = property(lambda self: float)

    # ---- construction
    @staticmethod
    def cents(n, den=1):
        """Nearest double to n/den cents."""
        n = plain(n)
        m = _mag(n, den)
        return SymFloat(n, den, True, m * U, ("k", getattr(n, "t", ()), getattr(n, "c", n), den))

    @staticmethod
    def of(x):
        if type(x) is SymFloat:
            return x
        if isinstance(x, SymInt):
            x = plain(x)
            if type(x) is SymInt:
                return SymFloat.cents(imul(x, 100))
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            return SymFloat.cents(x * 100)
        if isinstance(x, float):
            if x != x or x in (math.inf, -math.inf):
                raise Unsupported("nan/inf arithmetic")
            f = Fraction(repr(x)) * 100
            return SymFloat.cents(f.numerator, f.denominator)
        raise TypeError("unsupported operand for float arithmetic: %r" % (type(x),))

    def concrete(self):
        return type(self.num) is not SymInt and type(self.den) is not SymInt

    # ---- arithmetic
    def _bin(self, o, op, swap=False):
        if not is_num(o):
            return NotImplemented
        if isinstance(o, float) and type(o) is not SymFloat and (o != o or abs(o) == math.inf):
            raise Unsupported("nan/inf arithmetic")
        o = SymFloat.of(o)
        a, b = (o, self) if swap else (self, o)
        return op(a, b)

    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        return self._bin(o, fadd)

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is int and o == 0:
            return self
        return self._bin(o, fsub)

    def __rsub__(self, o):
        return self._bin(o, fsub, True)

    def __mul__(self, o):
        return self._bin(o, fmul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, fdiv)

    def __rtruediv__(self, o):
        return self._bin(o, fdiv, True)

    def __neg__(self):
        return SymFloat(-self.num, self.den, self.canon, self.err, ("neg", self.key) if not self.canon else _ckey(-self.num, self.den), self.ez,
                        None if self.iv is None else (-self.iv[1], -self.iv[0]))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.canon and type(self.den) is int:
            return SymFloat.cents(iabs(self.num), self.den)
        return -self if self < 0 else self

    def __floordiv__(self, o):
        return self._bin(o, ffloordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, ffloordiv, True)

    def __mod__(self, o):
        return self._bin(o, fmod)

    def __rmod__(self, o):
        return self._bin(o, fmod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        if isinstance(o, int) and 1 <= o <= 3:
            r = self
            for _ in range(o - 1):
                r = r * self
            return r
        raise Unsupported("float pow")

    def __rpow__(self, o):
        raise Unsupported("float pow")

    def __round__(self, n=None):
        return fround(self, n)

    def __trunc__(self):
        if not self.canon or type(self.den) is not int:
            raise Unsupported("trunc")
        k = 100 * self.den
        if self.num >= 0:
            return idivmod(self.num, k)[0]
        return -idivmod(-self.num, k)[0]

    def __floor__(self):
        if not self.canon or type(self.den) is not int:
            raise Unsupported("floor")
        return idivmod(self.num, 100 * self.den)[0]

    def __ceil__(self):
        if not self.canon or type(self.den) is not int:
            raise Unsupported("ceil")
        return -idivmod(-self.num, 100 * self.den)[0]

    def is_integer(self):
        return self == SymFloat.of(ffloor(self))

    # ---- comparisons
    def _c(self, o, op):
        if isinstance(o, float) and type(o) is not SymFloat:
            if o == math.inf:
                return op in ("<", "<=", "!=")
            if o == -math.inf:
                return op in (">", ">=", "!=")
            if o != o:
                return op == "!="
        if not is_num(o):
            return NotImplemented
        return _fcmp(self, SymFloat.of(o), op)

    def __lt__(self, o):
        return self._c(o, "<")

    def __le__(self, o):
        return self._c(o, "<=")

    def __gt__(self, o):
        return self._c(o, ">")

    def __ge__(self, o):
        return self._c(o, ">=")

    def __eq__(self, o):
        return self._c(o, "==")

    def __ne__(self, o):
        return self._c(o, "!=")

    def __bool__(self):
        return _fcmp(self, SymFloat.of(0), "!=")

    def __float__(self):
        raise Unsupported("conversion of a symbolic float to a C double")

    def __int__(self):
        return concretise(self.__trunc__())

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __hash__(self):
        if not self.canon or type(self.den) is not int:
            E.approx += 1
            return 17
        return _hash(self.num, lambda: hash(float(Fraction(concretise(self.num), self.den * 100))))

    def __str__(self):
        return E.token(self)

    __repr__ = __str__

    def __format__(self, spec):
        if spec[:1] == "." and spec[-1:] == "f" and spec[1:-1].isdigit():
            return E.token(fround(self, int(spec[1:-1])))
        return E.token(self)

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    def as_integer_ratio(self):
        raise Unsupported("as_integer_ratio")


def _ckey(n, den):
    n = plain(n)
    return ("k", getattr(n, "t", ()), getattr(n, "c", n), den if type(den) is int else (den.t, den.c))


def _mag(n, den):
    lo, hi = bounds(n)
    m = max(abs(lo), abs(hi))
    if type(den) is SymInt:
        dl = max(1, bounds(den)[0])
    else:
        dl = den
    return m / dl


def _ival(a):
    """interval of num/den"""
    lo, hi = bounds(a.num)
    dl, dh = bounds(a.den) if type(a.den) is SymInt else (a.den, a.den)
    dl, dh = max(1, dl), max(1, dh)
    r = (lo / (dh if lo > 0 else dl), hi / (dl if hi > 0 else dh))
    if a.iv is not None:
        r = (max(r[0], a.iv[0]), min(r[1], a.iv[1]))
    return r


def _amax(a):
    lo, hi = _ival(a)
    return max(abs(lo), abs(hi)) * (1 + 1e-12)


def _mk(n, den, err, key, ez=False, iv=None):
    """n/den with reduced integer denominators; not canonical."""
    n = plain(n)
    if type(den) is int and den > 1:
        g = den
        if type(n) is SymInt:
            for _, c in n.t:
                g = _gcd(g, c)
            g = _gcd(g, n.c)
            if g > 1:
                n = mk({i: c // g for i, c in n.t}, n.c // g)
                den //= g
        else:
            g = _gcd(n, den)
            if g > 1:
                n, den = n // g, den // g
    if type(n) is not SymInt and n == 0:
        # exact zero only if the operands are the same double; keep as inexact unless error free
        pass
    r = SymFloat(n, den, False, err, key, ez, iv and (iv[0] - abs(iv[0]) * 1e-12, iv[1] + abs(iv[1]) * 1e-12))
    m = _amax(r)
    if m > 2 ** 46:
        raise Unsupported("float magnitude outside the model")
    r.err += m * U
    return r


def _ivmul(x, y):
    p = [i * j for i in x for j in y]
    return min(p), max(p)


def _iszero(a):
    return type(a.num) is not SymInt and a.num == 0 and a.canon


def fadd(a, b):
    if _iszero(a):
        return b
    if _iszero(b):
        return a
    if type(a.den) is int and type(b.den) is int:
        L = _lcm(a.den, b.den)
        n = imul_c(a.num, L // a.den) + imul_c(b.num, L // b.den)
    elif same(a.den, b.den):
        L = a.den
        n = a.num + b.num
    else:
        L = imul(a.den, b.den)
        n = imul(a.num, b.den) + imul(b.num, a.den)
    x, y = _ival(a), _ival(b)
    iv = (x[0] + y[0], x[1] + y[1])
    # rounding is monotone: the sum of two doubles of the same sign has that sign and is zero only if both are
    ez = a.ez and b.ez and ((x[0] >= 0 and y[0] >= 0) or (x[1] <= 0 and y[1] <= 0))
    r = _mk(n, L, a.err + b.err, ("+", a.key, b.key), ez, iv)
    if x[0] >= 0 and y[0] >= 0 and (a.rel is not None or b.rel is not None):
        r.rel = max(_rel(a), _rel(b)) * (1 + 1e-12) + 2 * U
    return r


def _rel(a):
    """bound on |double*100 - num/den| / |num/den|"""
    if a.canon:
        return U
    lo, hi = _ival(a)
    lo = max(lo, -hi)
    return min(math.inf if a.rel is None else a.rel, a.err / lo if lo > 0 else math.inf)


def fsub(a, b):
    if _iszero(b):
        return a
    if a.key == b.key:
        return SymFloat.cents(0)
    if _iszero(a):
        return -b
    nb = SymFloat(-b.num, b.den, b.canon, b.err, ("neg", b.key), b.ez, None if b.iv is None else (-b.iv[1], -b.iv[0]))
    r = fadd(a, nb)
    return SymFloat(r.num, r.den, False, r.err, ("-", a.key, b.key), r.ez or (a.canon and b.canon), r.iv)


def same(x, y):
    if type(x) is SymInt and type(y) is SymInt:
        return x.t == y.t and x.c == y.c
    return type(x) is type(y) and x == y


def _as_ratio(b):
    """(num, den) of the plain value b (not cents) with den possibly symbolic, reduced by 100 if possible."""
    # value = num / (100 den)
    n, d = plain(b.num), b.den
    g = 100
    if type(n) is SymInt:
        for _, c in n.t:
            g = _gcd(g, c)
        g = _gcd(g, n.c)
        n2 = mk({i: c // g for i, c in n.t}, n.c // g)
    else:
        g = _gcd(g, n)
        n2 = n // g
    k = 100 // g
    return n2, (d if k == 1 else imul_c(d, k))


def fmul(a, b):
    for x, y in ((a, b), (b, a)):
        if y.concrete() and y.canon:
            f = Fraction(y.num, y.den * 100)
            if f == 1:
                return x
            if f == 0:
                return SymFloat.cents(0)
            if f == -1:
                return -x
            if x.canon and f.denominator == 1 and abs(f.numerator) & (abs(f.numerator) - 1) == 0:
                return SymFloat.cents(imul_c(x.num, f.numerator), x.den)
    if _as_ratio(a)[1] == 1 and not _as_ratio(b)[1] == 1:
        a, b = b, a
    bn, bd = _as_ratio(b)
    n = imul(plain(a.num), bn)
    d = imul(a.den, bd) if (type(a.den) is SymInt or type(bd) is SymInt) else a.den * bd
    ib, ia = _ival(b), _ival(a)
    iv = _ivmul(ia, (ib[0] / 100, ib[1] / 100))
    err = a.err * _amax(b) / 100 + (b.err / 100) * _amax(a) + a.err * b.err / 100
    return _mk(n, d, err, ("*", a.key, b.key), a.ez and b.ez, iv)


def fdiv(a, b):
    if b.concrete() and b.canon:
        f = Fraction(b.num, b.den * 100)
        if f == 0:
            raise ZeroDivisionError("float division by zero")
        if f == 1:
            return a
        if f == -1:
            return -a
        if a.canon and f.denominator == 1 and f > 0 and f.numerator & (f.numerator - 1) == 0 and type(a.den) is int:
            return SymFloat.cents(a.num, a.den * f.numerator)
    elif b == 0:  # forks
        raise ZeroDivisionError("float division by zero")
    neg = False
    if b.concrete():
        if b.num < 0:
            b, neg = -b, True
    elif b < 0:  # forks
        b, neg = -b, True
    if neg:
        a = -a
    if type(a.den) is SymInt and same(a.den, b.den):
        # (x/D) / (y/D)
        n, d = imul_c(plain(a.num), 100), b.num
    else:
        bn, bd = _as_ratio(b)  # value of b = bn/bd
        n = imul(plain(a.num), bd) if isinstance(bd, SymInt) else imul_c(a.num, bd)
        d = imul(a.den, bn) if (type(a.den) is SymInt or type(bn) is SymInt) else a.den * bn
    d = plain(d)
    n = plain(n)
    # reduce common integer factor
    g = 0
    for x in (n, d):
        if type(x) is SymInt:
            for _, c in x.t:
                g = _gcd(g, c)
            g = _gcd(g, x.c)
        else:
            g = _gcd(g, x)
    if g > 1:
        n = mk({i: c // g for i, c in n.t}, n.c // g) if type(n) is SymInt else n // g
        d = mk({i: c // g for i, c in d.t}, d.c // g) if type(d) is SymInt else d // g
    if type(d) is SymInt:
        if not icmp(d, 1, ">="):  # forks; den must be positive
            raise Unsupported("division by an inexact value around zero")
    # smallest |b| in plain units
    lb = 1.0 / (100 * (bounds(b.den)[1] if isinstance(b.den, SymInt) else b.den))
    ib = _ival(b)
    lb = max(lb, ib[0] / 100) * (1 - 1e-12)
    rel = min((b.err / 100) / lb, _rel(b))
    for k in (2, 100, 10000):
        # the intervals of numerator and denominator say too little: ask whether b >= 1/k
        if rel > 1e-3 and lb < 1 / k and icmp(imul_c(plain(b.num), k) - imul_c(plain(b.den), 100), 0, ">="):
            lb = 1 / k * (1 - 1e-12)
            rel = min((b.err / 100) / lb, _rel(b))
    if rel > 1e-3:
        raise Unsupported("division by a value too close to its error")
    ia, ub = _ival(a), max(ib[1] / 100, lb)
    iv = _ivmul(ia, (1 / ub, 1 / lb))
    r = _mk(n, d, 0.0, ("/", a.key, b.key), a.ez and b.ez, iv)
    # |a'/b' - a/b| <= (|a' - a|/|a| + |b' - b|/|b'|) |a/b|
    ra = _rel(a) * (1 + 2 * rel)
    r.err += min(a.err / lb * (1 + 2 * rel), _amax(r) * ra) + _amax(r) * rel * 2
    if ra + 2 * rel < 1e-3:
        r.rel = (ra + 2 * rel) * 1.01 + 2 * U
    return r


def fround(a, nd=None):
    if nd is None:
        scale, to_int = Fraction(1, 100), True
    else:
        nd = concretise(nd) if isinstance(nd, SymInt) else nd
        scale, to_int = Fraction(10) ** (nd - 2), False
    # round num*scale/den to an integer
    num = imul_c(a.num, scale.numerator)
    den = imul_c(a.den, scale.denominator)
    if a.canon and type(a.den) is int and a.den == 1 and nd is not None and nd >= 2:
        return a
    num, den = plain(num), plain(den)
    err = a.err * float(scale)
    if type(den) is SymInt:
        dmax = bounds(den)[1]
    else:
        dmax = den
    slack = 0
    if err * 2 * dmax >= 0.9:
        slack = int(math.ceil(err * 2 * dmax)) + 1
    key = ("round", a.key, nd)
    n = E.memo.get(key)
    if n is None:
        if type(den) is int and den == 1 and err < 0.4:
            n = num
        elif type(num) is not SymInt and type(den) is not SymInt:
            f = Fraction(num, den)
            if (f * 2).denominator == 1 and f.denominator == 2 and not a.canon:
                n = E.fresh(math.floor(f), math.ceil(f), None)
                E.approx += 1
            else:
                if f.denominator == 2:
                    # a canonical double: exact decision
                    real = float(Fraction(a.num, a.den) / 100)
                    rr = round(real, nd) if nd is not None else round(real)
                    n = round(Fraction(repr(rr)) * 100 * scale) if nd is not None else rr
                else:
                    n = round(f)
        else:
            if type(den) is int:
                lo, hi = bounds(num)
                lo, hi = math.floor(Fraction(2 * lo - den - slack, 2 * den)), math.ceil(Fraction(2 * hi + den + slack, 2 * den))
            else:
                lo, hi = _ival(a)
                lo, hi = math.floor(lo * float(scale)) - 1, math.ceil(hi * float(scale)) + 1
                if bounds(num)[0] >= 0:
                    lo = max(lo, 0)
            n = E.fresh(lo, hi, None)
            nd_ = imul(n, den) if isinstance(n, SymInt) and isinstance(den, SymInt) else imul_c(n, den) if isinstance(n, SymInt) else imul_c(den, n)
            if isinstance(den, SymInt) and slack:
                # |num/den - n| <= 1/2 + err, both sides times a million
                w = 10 ** 6 + int(math.ceil(err * 2 * 10 ** 6))
                diff = form_z(imul_c(num, 2 * 10 ** 6)) - form_z(imul_c(nd_, 2 * 10 ** 6))
                dz = form_z(imul_c(den, w))
            else:
                diff = form_z(imul_c(num, 2)) - form_z(imul_c(nd_, 2))
                dz = form_z(den) + slack if (isinstance(den, SymInt) or slack) else den
            E.assert_(diff <= dz)
            E.assert_(-diff <= dz)
            E.ties.append((num, nd_, den))
        E.memo[key] = n
    if to_int:
        return n
    return SymFloat.cents(imul_c(n, scale.denominator) if isinstance(n, SymInt) else n * scale.denominator, scale.numerator)


def ffloor(a):
    """floor of the double as an int form"""
    if a.canon and type(a.den) is int:
        return idivmod(a.num, 100 * a.den)[0]
    key = ("floor", a.key)
    n = E.memo.get(key)
    if n is None:
        lo, hi = _ival(a)
        n = E.fresh(math.floor(lo / 100) - 1, math.ceil(hi / 100) + 1, None)
        K = imul_c(a.den, 100)
        nK = plain(imul(n, K) if isinstance(n, SymInt) and isinstance(K, SymInt) else imul_c(n, K) if isinstance(n, SymInt) else imul_c(K, n))
        # the double lies within err cents of num/den: n*100 - err <= num/den <= (n+1)*100 + err
        dm = bounds(a.den)[1] if isinstance(a.den, SymInt) else a.den
        w = 10 ** 6
        e = int(math.ceil(a.err * w))
        if not isinstance(a.den, SymInt) and a.err * dm < 0.9:
            e = 0  # both sides are whole numbers
        E.approx += 1
        nz, az, dz = form_z(nK), form_z(plain(a.num)), form_z(plain(a.den))
        E.assert_(nz * w - e * dz <= az * w)
        E.assert_(az * w <= (nz + 100 * dz) * w + e * dz)
        E.memo[key] = n
    return n


def ffloordiv(a, b):
    if b == 0:
        raise ZeroDivisionError("float floor division by zero")
    return SymFloat.of(ffloor(fdiv(a, b)))


def fmod(a, b):
    if b == 0:
        raise ZeroDivisionError("float modulo")
    if a.canon and b.canon and type(a.den) is int and a.den == 1 and b.concrete() and b.den == 1 and b.num % 100 == 0:
        return SymFloat.cents(idivmod(a.num, b.num)[1])
    return fsub(a, fmul(b, ffloordiv(a, b)))


def _fdiff(a, b):
    if type(a.den) is int and type(b.den) is int:
        L = _lcm(a.den, b.den)
        return plain(imul_c(a.num, L // a.den) - imul_c(b.num, L // b.den)), L
    if same(a.den, b.den):
        return plain(a.num - b.num), a.den
    if type(a.den) is int and a.den == 1 and type(a.num) is not SymInt and a.num == 0:
        return plain(-b.num), b.den
    if type(b.den) is int and b.den == 1 and type(b.num) is not SymInt and b.num == 0:
        return plain(a.num), a.den
    return plain(imul(plain(a.num), b.den) - imul(plain(b.num), a.den)), imul(a.den, b.den)


def _exact(a, b):
    return (a.canon and b.canon) or (a.ez and _iszero(b)) or (b.ez and _iszero(a))


def _fcmp(a, b, op):
    if a.key == b.key:
        return op in ("<=", ">=", "==")
    d, L = _fdiff(a, b)
    if _exact(a, b):
        return icmp(d, 0, op)
    if type(L) is SymInt:
        x, y = _ival(a), _ival(b)
        e = (a.err + b.err) * (1 + 1e-9)
        if x[0] - y[1] > e:
            return op in (">", ">=", "!=")
        if y[0] - x[1] > e:
            return op in ("<", "<=", "!=")
    Lm = bounds(L)[1]
    W = (a.err + b.err) * Lm
    if W >= 0.9:
        W = int(math.ceil(W))
        if W > 10 ** 6:
            raise Unsupported("comparison of values closer than their error")
        if icmp(d, -W, "<"):
            return op in ("<", "<=", "!=")
        if icmp(d, W, ">"):
            return op in (">", ">=", "!=")
    elif op in ("<", "<=", ">", ">="):
        if icmp(d, 0, "<"):
            return op in ("<", "<=")
        if icmp(d, 0, ">"):
            return op in (">", ">=")
    else:
        if not icmp(d, 0, "=="):
            return op == "!="
    tri = 0 if _congruent(a.key, b.key) else E.tri(a.key, b.key)
    return {"<": tri < 0, "<=": tri <= 0, ">": tri > 0, ">=": tri >= 0, "==": tri == 0, "!=": tri != 0}[op]


def _leaves(ka, kb, out):
    """pairs of the leaves of two float computations of the same shape; False when the shapes differ"""
    if ka == kb:
        return True
    if type(ka) is not tuple or type(kb) is not tuple or len(ka) != len(kb) or not ka or ka[0] != kb[0]:
        return False
    if ka[0] == "k":
        if type(ka[3]) is not int or type(kb[3]) is not int:
            return False
        out.append((ka, kb))
        return len(out) <= 4
    return all(_leaves(x, y, out) if type(x) is tuple else x == y for x, y in zip(ka[1:], kb[1:]))


def _form(k):
    t, c = k[1], k[2]
    return mk(dict(t), c) if t else c


def _congruent(ka, kb):
    """Are both computations the same operations on operands that are equal on this path (forks)?"""
    out = []
    if not _leaves(ka, kb, out):
        return False
    for x, y in out:
        if not icmp(plain(imul_c(_form(x), y[3]) - imul_c(_form(y), x[3])), 0, "=="):
            return False
    return True


def fmax(a, b, sign):
    """max/min of two float-ish values without forking when both are canonical with int denominators."""
    a2, b2 = SymFloat.of(a), SymFloat.of(b)
    if a2.key == b2.key:
        return a
    if a2.canon and b2.canon and type(a2.den) is int and type(b2.den) is int:
        L = _lcm(a2.den, b2.den)
        return SymFloat.cents(imax(imul_c(a2.num, L // a2.den), imul_c(b2.num, L // b2.den), sign), L)
    if sign > 0:
        return b if b > a else a
    return b if b < a else a


# --------------------------------------------------------------------------------------------------
# engine
# --------------------------------------------------------------------------------------------------
class Engine:
    def __init__(self, timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.trace = []
        self.owner = None
        self.scopes = 0
        self.stats = dict(queries=0, unknown=0, solver_s=0.0, paths=0, branches=0, cuts=0, nonlinear=0, concretised=0)
        self.reset_path()

    def reset_path(self):
        self.alo, self.ahi = [], []
        self.tb, self.neq, self.subst, self.memo = {}, {}, {}, {}
        self.tris = {}
        self.ties = []
        self.nb = 0
        self.approx = 0
        self.nonlinear = 0
        self.concretised = 0
        self.tokens, self.token_by_key = {}, {}
        self.inputs = {}         # name -> (atom form, decoder)
        self.model = None
        self.cut_reason = None

    # ---- path control
    def start(self, prefix, owner=None):
        """Begin a path.  prefix: list of (value, forked) decisions.  Solver scopes shared with the previous path are kept:
        everything asserted before the first differing decision is still on the stack and not asserted again."""
        E_set(self)
        old, n = (self.trace if owner == self.owner else []), 0
        self.owner = owner
        while n < len(prefix) and n < len(old) and old[n][0] == prefix[n]:
            n += 1
        if n < len(prefix) and n < len(old) and prefix[n][1] and old[n][0][1]:
            sb = old[n][1]
            self.solver.pop(self.scopes - sb)
            self.scopes = sb
            self.live = n
            self.old_scopes = [e[1] for e in old[:n]]
        else:
            if self.scopes:
                self.solver.pop(self.scopes)
            self.solver.push()
            self.scopes = 1
            self.live = -1
            self.old_scopes = []
        self.prefix = prefix
        self.trace = []          # ((value, forked), solver scope before the decision)
        self.alts = []
        self.reset_path()
        self.stats["paths"] += 1

    def _skip(self):
        return len(self.trace) <= self.live

    def assert_(self, z):
        if len(self.trace) > self.live:
            self.solver.add(z)
            self.model = None

    def _check(self, *extra):
        t0 = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.perf_counter() - t0
        self.stats["queries"] += 1
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def _push(self, entry, z):
        self.trace.append((entry, self.scopes))
        self.solver.push()
        self.scopes += 1
        self.solver.add(z)

    def branch(self, z):
        """Decide a z3 boolean; forks when both sides are feasible."""
        pos = len(self.trace)
        if pos > 6000:
            raise PathTimeout("too many decisions")
        if pos < len(self.prefix):
            v, forked = entry = self.prefix[pos]
            if pos < self.live:
                self.trace.append((entry, self.old_scopes[pos]))
            elif forked:
                self._push(entry, z if v else z3.Not(z))
                self.model = None
            else:
                self.trace.append((entry, -1))
            return v
        self.stats["branches"] += 1
        m_t = m_f = None
        can_t = can_f = None
        if self.model is not None:
            mv = self.model.eval(z, model_completion=True)
            if z3.is_true(mv):
                can_t, m_t = True, self.model
            elif z3.is_false(mv):
                can_f, m_f = True, self.model
        if can_t is None:
            r = self._check(z)
            can_t = r != z3.unsat
            m_t = self.solver.model() if r == z3.sat else None
        if can_f is None:
            if can_t:
                r = self._check(z3.Not(z))
                can_f = r != z3.unsat
                m_f = self.solver.model() if r == z3.sat else None
            else:
                can_f = True
        if can_t and can_f:
            self.alts.append([e[0] for e in self.trace] + [(False, True)])
            self._push((True, True), z)
            self.model = m_t
            return True
        v = bool(can_t)
        self.trace.append(((v, False), -1))
        m = m_t if v else m_f
        if m is not None:
            self.model = m
        return v

    # ---- values
    def fresh(self, lo, hi, definition):
        if lo == hi and definition is None:
            return lo
        i = len(self.alo)
        self.alo.append(lo)
        self.ahi.append(hi)
        z = atom_z(i)
        if len(self.trace) > self.live:
            if definition is not None:
                self.solver.add(z == definition)
            self.solver.add(z >= lo, z <= hi)
            self.model = None
        return SymInt(((i, 1),), 0)

    def input_int(self, name, lo, hi):
        if name in self.inputs:
            raise RuntimeError("duplicate input %s" % name)
        x = self.fresh(lo, hi, None)
        self.inputs[name] = x
        return x

    def pick(self, x):
        """Some feasible value of x (deterministic under re-execution because the choice is replayed)."""
        # derived from the interval, not from a model, so that it is the same when replayed
        lo, hi = bounds(x)
        bad = E.neq.get(_prim(normed(x))[0], ())
        t, g, c = _prim(normed(x))
        if hi - lo <= 4096:
            v = lo
            while (v - c) % g or ((v - c) // g) in bad:
                v += 1
            return v
        raise Cut("concretisation of a wide value")

    def cut(self, why):
        self.cut_reason = why
        self.stats["cuts"] += 1
        raise Cut(why)

    def tri(self, ka, kb):
        self.approx += 1
        if (kb, ka) in self.tris:
            return -self.tris[(kb, ka)]
        r = self.tris.get((ka, kb))
        if r is None:
            x = self.fresh(-1, 1, None)
            if icmp(x, 0, "=="):
                r = 0
            elif icmp(x, 0, "<"):
                r = -1
            else:
                r = 1
            self.tris[(ka, kb)] = r
        return r

    def token(self, x):
        if isinstance(x, SymInt):
            x = plain(x)
            if type(x) is not SymInt:
                return str(x)
            key = ("i", x.t, x.c)
        else:
            if x.concrete() and x.canon:
                return repr(float(Fraction(x.num, x.den) / 100))
            key = x.key
        s = self.token_by_key.get(key)
        if s is None:
            s = "\u27ea%d\u27eb" % len(self.tokens)
            self.token_by_key[key] = s
            self.tokens[s] = x
        return s

    # ---- queries
    def sat(self, z=None):
        """Is the path condition (and z) satisfiable?  Returns (result, model or None)."""
        if z is None:
            if self.model is not None:
                return z3.sat, self.model
            r = self._check()
        else:
            r = self._check(z)
        m = self.solver.model() if r == z3.sat else None
        if z is None:
            self.model = m
        return r, m

    def eval_int(self, model, x):
        x = plain(x)
        if type(x) is not SymInt:
            return x
        return model.eval(form_z(x), model_completion=True).as_long()

    def eval_float(self, model, x):
        n, d = self.eval_int(model, x.num), self.eval_int(model, x.den)
        return float(Fraction(n, d) / 100)

    def inputs_of(self, model):
        return {k: self.eval_int(model, v) for k, v in self.inputs.items()}

    def tie_in(self, model):
        for num, nd_, den in self.ties:
            n, m, d = (self.eval_int(model, v) for v in (num, nd_, den))
            if 2 * abs(n - m) >= d:
                return True
        return False


def E_set(e):
    global E
    E = e
