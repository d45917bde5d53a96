"""calendar module for the symbolic process: monthrange/isleap/timegm accept symbolic fields, the rest is the real module."""
from calendar import *  # noqa
import calendar as _real
from calendar import (January, February, EPOCH, day_abbr, day_name, month_abbr, month_name)  # noqa
from symx import core as C
from symx import sdatetime as D
from symx.core import plain, SymInt, table, idivmod, imul_c


def monthrange(year, month):
    if type(year) is D.Field and type(month) is D.Field and year.kind == "year" and month.kind == "month" and year.part is month.part:
        return _Lazy(year.part)
    y, m = plain(year), plain(month)
    if type(y) is not SymInt and type(m) is not SymInt:
        return _real.monthrange(y, m)
    mi = plain(imul_c(y, 12) + m - 1)
    n = table(mi, D.mdays, "mdays")
    first = idivmod(table(mi, D.mstart, "mstart"), 7)[1]
    return first, n


class _Lazy(tuple):
    def __new__(cls, part):
        self = tuple.__new__(cls, (None, D.MonthDays(part)))
        self.part = part
        return self

    def __getitem__(self, i):
        if i in (0, -2):
            mi, _ = self.part.md()
            return idivmod(table(mi, D.mstart, "mstart"), 7)[1]
        return tuple.__getitem__(self, i)

    def __iter__(self):
        return iter((self[0], self[1]))


def isleap(year):
    y = plain(year)
    if type(y) is not SymInt:
        return _real.isleap(y)
    return table(y, lambda v: int(_real.isleap(v)), "isleap") == 1


def timegm(t):
    y, m, d, h, mi, s = t[:6]
    dt = D.datetime(y, m, d)
    days = dt.toordinal() - 719163
    return ((days * 24 + h) * 60 + mi) * 60 + s
