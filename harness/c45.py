"""C45 Moving a market by whole weeks moves everything with it and changes nothing else."""
from symx.h import H
from harness.twins import twin, COVERS

_O = ("tick", "open", "close")
_W = (1, -53, 520, -1305, 2600)
_Y = (30, -1066, 2600, 1)   # to the end of a year, the end of a century
_Q = [dict(steps=3, ops=_O, lo=-60, hi=60, closed=1, refs=("C",), unit="SECOND", q=1, zone="Asia/Tokyo"),
      dict(steps=3, refs=("C", "P"), unit="SECOND", q=5, times=("any", 15), lo=-300, hi=300, closed=4, smax=0),
      dict(steps=4, refs=("S", "C"), unit="MINUTE", q=30, times=(0, 1700, 1900, 9000), lo=-300, hi=300, closed=2400, zone="Asia/Kolkata"),
      dict(steps=3, refs=("C",), unit="HOUR", q=4, times=("any", 86400), lo=0, hi=9, smax=0),
      dict(steps=3, refs=("P",), unit="DAY", q=1, times=("any", 3 * 86400), lo=0, hi=9, smax=0, days=(0, 2)),
      dict(steps=3, refs=("C",), unit="WEEK", q=1, times=("any", 15 * 86400), lo=0, hi=9, smax=0, zone="Asia/Tokyo"),
      dict(steps=3, unit="DAY", q=7, times=(0, 86400 * 5, 86400 * 10), lo=0, hi=9, smax=0, weeks=_Y),
      dict(steps=3, unit="TICK", q=3, refs=("C",), times=("any", 5 * 86400), lo=0, hi=9, smax=0, days=(1, 2, 3), weeks=_Y),
      dict(steps=4, ops=_O, unit="TICK", q=2, lo=0, hi=90, smax=3, times=(0, 86000, 86400 * 2, 86400 * 3), days=(0, 1, 3), weeks=(30, 2600))]
_T = [dict(steps=4, refs=("C", "P"), unit="SECOND", q=5, times=("any", 20), lo=-300, hi=300, closed=4, smax=0),
      dict(steps=4, refs=("C", "S"), unit="HOUR", q=4, times=("any", 2 * 86400), lo=0, hi=9, smax=0),
      dict(steps=4, refs=("P",), unit="DAY", q=1, times=("any", 5 * 86400), lo=0, hi=9, smax=0, days=(0, 2, 4)),
      dict(steps=4, refs=("C",), unit="WEEK", q=1, times=("any", 29 * 86400), lo=0, hi=9, smax=0, zone="Asia/Tokyo"),
      dict(steps=5, ops=_O, unit="TICK", q=2, lo=0, hi=90, smax=3, times=(0, 86000, 86400 * 2, 86400 * 3, 86400 * 4), days=(0, 1, 3))]
_Q, _T = [dict(dict(weeks=_W), **x) for x in _Q], [dict(x, weeks=_W + _Y[:2] + (-2607, 5000)) for x in _T]
HARNESSES = [H(twin, _Q, _T, covers=[c for c in COVERS if c != "strength"], path_s=60,
               bounds="two copies of an epic (UTC, Tokyo or Kolkata) with a strategy and frames of ticks, seconds, minutes, hours, days and weeks; 3-5 ticks and operations at given times or at any microseconds of 15 seconds to "
                      "15 days (thorough 29), among them the last days of a year and of a century, market hours and trading days, prices of +-3.00 or less on the cent grid; the second copy gets every tick 1, 30, 520 or 2600 weeks later or 53, 1066 or 1305 weeks earlier (thorough also 5000 later, 2607 earlier)")]
