"""C46 Quoting prices or sizes in another unit changes results by exactly that factor."""
from symx.h import H
from harness.twins import twin, COVERS

_O = ("tick", "open", "close")


def _c(kp, kq, **k):
    return dict(k, times_price=kp, times_qty=kq, factor=False)


_Q = [_c(1, 10, steps=4, ops=_O, lo=-60, hi=60), _c(10, 1, steps=3, ops=_O, lo=-60, hi=60), _c(1, 1000, steps=3, ops=_O + ("sweep",), lo=-10 ** 6, hi=10 ** 6),
      _c(100, 7, steps=3, ops=_O, lo=-10 ** 4, hi=10 ** 4), _c(10 ** 4, 10 ** 5, steps=3, ops=("open", "sweep"), lo=-60, hi=60),
      _c(1, 10 ** 5, steps=4, ops=("tick", "open"), lo=-10 ** 5, hi=10 ** 5), _c(10, 10 ** 4, steps=4, ops=("open", "close", "sweep"), lo=-10 ** 6, hi=10 ** 6),
      _c(10, 1, steps=4, refs=("C", "P"), lo=-10 ** 6, hi=10 ** 6), _c(1000, 1, steps=5, refs=("C", "O"), q=2, lo=-300, hi=300, smax=0),
      _c(10, 1, steps=4, refs=("H",), q=1, lo=-300, hi=300, smax=0), _c(100, 1, steps=4, refs=("S",), q=1, lo=-10 ** 6, hi=10 ** 6),
      _c(10, 1, steps=4, refs=("R",), q=1, lo=-30, hi=30, smax=0), _c(10 ** 4, 1, steps=5, refs=("R",), q=1, lo=-1, hi=1, smax=0, jumps=(1, -1, 7, 10 ** 4, -10 ** 5)),
      _c(100, 1, steps=4, refs=("C", "P", "S"), unit="SECOND", q=5, times=(0, 1, 6, 21), lo=-300, hi=300, closed=3)]
_T = [_c(1, 10, steps=5, ops=_O, lo=-60, hi=60), _c(10, 3, steps=4, ops=_O, lo=-60, hi=60), _c(100, 1, steps=5, refs=("C", "P", "O"), q=2, lo=-10 ** 6, hi=10 ** 6),
      _c(10, 1, steps=5, refs=("H",), q=1, lo=-300, hi=300, smax=0), _c(100, 1, steps=5, refs=("R",), q=1, lo=-30, hi=30, smax=0),
      _c(10, 1, steps=5, refs=("C", "P", "S"), unit="SECOND", q=5, times=(0, 1, 6, 7, 21), lo=-300, hi=300, closed=3)]
HARNESSES = [H(twin, _Q, _T, covers=COVERS, path_s=60,
               bounds="two copies of an epic with a strategy and frames of 1-2 ticks or 5 seconds; 3-5 ticks, openings (quantities 1-4), partial closes and closes of everything in an order chosen by the solver, prices of "
                      "+-10 000.00 or less on the cent grid with even spreads up to 8 cents; in the second copy prices are multiplied by 10, 100, 1000 or 10 000 and quantities by 7, 10, 1000 or 100 000")]
