"""decimal.Decimal over exact rationals: sums, products, comparisons, rounding.  A quotient is the exact one (the 28th digit is left out)."""
import decimal as _real
from fractions import Fraction

from symx import core as C
from symx.core import SymInt, SymFloat, Unsupported, icmp, idivmod, imul, imul_c, plain


class _Meta(type):
    def __instancecheck__(cls, x):
        return type(x) is Decimal or isinstance(x, _real.Decimal)


def _mul(a, b):
    return imul(plain(a), plain(b)) if isinstance(a, SymInt) or isinstance(b, SymInt) else a * b


class Decimal(metaclass=_Meta):
    """n / d, d a positive int; x: digits after the point where they are known"""
    __slots__ = ("n", "d", "x")

    def __new__(cls, v="0", context=None):
        self = object.__new__(cls)
        self.x = 0
        if type(v) is Decimal:
            self.n, self.d, self.x = v.n, v.d, v.x
        elif isinstance(v, bool) or type(v) is int or isinstance(v, SymInt):
            self.n, self.d = plain(v) if isinstance(v, SymInt) else int(v), 1
        elif type(v) is SymFloat or isinstance(v, str) and v in C.E.tokens:
            f = v if type(v) is SymFloat else C.E.tokens[v]
            f = SymFloat.of(f)
            if type(f.den) is not int:
                raise Unsupported("Decimal of a quotient")
            self.n, self.d, self.x = plain(f.num), f.den * 100, 2
            if not f.canon:
                C.E.approx += 1
        else:
            r = _real.Decimal(v)
            if not r.is_finite():
                raise Unsupported("Decimal %s" % r)
            self.n, self.d = r.as_integer_ratio()
            self.x = max(0, -r.as_tuple().exponent)
        return self

    @staticmethod
    def _of(n, d, x=0):
        r = object.__new__(Decimal)
        n = plain(n) if isinstance(n, SymInt) else n
        if not isinstance(n, SymInt):
            f = Fraction(n, d)
            n, d = f.numerator, f.denominator
        r.n, r.d, r.x = n, d, x
        return r

    @staticmethod
    def _arg(o):
        if type(o) is Decimal:
            return o
        if type(o) is int or isinstance(o, (bool, SymInt, _real.Decimal)):
            return Decimal(o)
        return None

    def _bin(self, o, f, swap=False):
        o = Decimal._arg(o)
        if o is None:
            return NotImplemented
        return f(o, self) if swap else f(self, o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: Decimal._of(_mul(a.n, b.d) + _mul(b.n, a.d), a.d * b.d, max(a.x, b.x)))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: Decimal._of(_mul(a.n, b.d) - _mul(b.n, a.d), a.d * b.d, max(a.x, b.x)))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: Decimal._of(_mul(a.n, b.d) - _mul(b.n, a.d), a.d * b.d, max(a.x, b.x)), True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: Decimal._of(_mul(a.n, b.n), a.d * b.d, a.x + b.x))

    __rmul__ = __mul__

    @staticmethod
    def _div(a, b):
        n = b.n
        if isinstance(n, SymInt):
            if icmp(n, 0, "=="):
                raise _real.DivisionByZero([_real.DivisionByZero])
            n = C.concretise(n)
        if n == 0:
            raise _real.DivisionByZero([_real.DivisionByZero]) if not (type(a.n) is int and a.n == 0) else _real.InvalidOperation([_real.DivisionUndefined])
        s = 1 if n > 0 else -1
        return Decimal._of(_mul(a.n, s * b.d), a.d * s * n, 28)

    def __truediv__(self, o):
        return self._bin(o, Decimal._div)

    def __rtruediv__(self, o):
        return self._bin(o, Decimal._div, True)

    def __neg__(self):
        return Decimal._of(-self.n, self.d, self.x)

    def __pos__(self):
        return self

    def __abs__(self):
        return Decimal._of(C.iabs(self.n), self.d, self.x)

    def __mod__(self, o):
        raise Unsupported("Decimal remainder")

    __floordiv__ = __rmod__ = __rfloordiv__ = __divmod__ = __pow__ = __rpow__ = __mod__

    def _c(self, o, op):
        if type(o) is SymFloat or type(o) is float:
            o = Decimal(o if type(o) is SymFloat else _real.Decimal(o))
        o = Decimal._arg(o)
        if o is None:
            return NotImplemented
        return icmp(plain(_mul(self.n, o.d)) - plain(_mul(o.n, self.d)), 0, op)

    def __lt__(self, o):
        return self._c(o, "<")

    def __le__(self, o):
        return self._c(o, "<=")

    def __gt__(self, o):
        return self._c(o, ">")

    def __ge__(self, o):
        return self._c(o, ">=")

    def __eq__(self, o):
        return self._c(o, "==")

    def __ne__(self, o):
        return self._c(o, "!=")

    def __bool__(self):
        return icmp(self.n, 0, "!=")

    def __hash__(self):
        return C._hash(self.n, lambda: hash(Fraction(C.concretise(self.n), self.d))) if isinstance(self.n, SymInt) else hash(Fraction(self.n, self.d))

    def _whole(self, k, rounding):
        """the value times 10**k as an int"""
        N, D = (imul_c(self.n, 10 ** k), self.d) if k >= 0 else (self.n, self.d * 10 ** -k)
        R = _real
        if rounding in (R.ROUND_DOWN, R.ROUND_UP, R.ROUND_HALF_UP, R.ROUND_HALF_DOWN):
            neg = icmp(N, 0, "<")
            if neg:
                N = -N
            q, r = idivmod(N, D)
            if rounding == R.ROUND_UP:
                up = r != 0
            elif rounding == R.ROUND_DOWN:
                up = False
            else:
                up = r * 2 >= D if rounding == R.ROUND_HALF_UP else r * 2 > D
            q = q + 1 if up else q
            return -q if neg else q
        q, r = idivmod(N, D)
        if rounding == R.ROUND_FLOOR:
            return q
        if rounding == R.ROUND_CEILING:
            return q + 1 if r != 0 else q
        if rounding != R.ROUND_HALF_EVEN:
            raise Unsupported("rounding %s" % rounding)
        if r * 2 > D or (r * 2 == D and q % 2 == 1):
            return q + 1
        return q

    def quantize(self, exp, rounding=None, context=None):
        e = exp if type(exp) is Decimal else Decimal(exp)
        k = e.x
        return Decimal._of(self._whole(k, rounding or (context or _real.getcontext()).rounding), 10 ** k, k)

    def __round__(self, n=None):
        if n is None:
            return self._whole(0, _real.ROUND_HALF_EVEN)
        return Decimal._of(self._whole(n, _real.ROUND_HALF_EVEN), 10 ** max(n, 0), max(n, 0)) if n >= 0 else Decimal._of(self._whole(n, _real.ROUND_HALF_EVEN) * 10 ** -n, 1)

    def to_integral_value(self, rounding=None, context=None):
        return Decimal._of(self._whole(0, rounding or _real.getcontext().rounding), 1)

    to_integral = to_integral_value

    def __trunc__(self):
        return self._whole(0, _real.ROUND_DOWN)

    def __floor__(self):
        return self._whole(0, _real.ROUND_FLOOR)

    def __ceil__(self):
        return self._whole(0, _real.ROUND_CEILING)

    def as_float(self):
        return SymFloat.cents(imul_c(self.n, 100), self.d) if isinstance(self.n, SymInt) else self.n / self.d

    def __float__(self):
        if isinstance(self.n, SymInt):
            raise Unsupported("conversion of a symbolic decimal to a C double")
        return self.n / self.d

    def __int__(self):
        return C.concretise(self.__trunc__())

    def __str__(self):
        return C.E.token(self.as_float()) if isinstance(self.n, SymInt) else str(_real.Decimal(self.n) / _real.Decimal(self.d))

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.as_float(), spec)

    def is_zero(self):
        return self == 0

    def is_finite(self):
        return True

    def is_nan(self):
        return False

    is_infinite = is_signed_nan = is_nan

    def copy_abs(self):
        return abs(self)

    def max(self, o, context=None):
        o = Decimal._arg(o)
        return self if self >= o else o

    def min(self, o, context=None):
        o = Decimal._arg(o)
        return self if self <= o else o
