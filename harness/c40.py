"""C40 A mirrored market gives mirrored results."""
from symx.h import H
from harness.twins import twin, configs, COVERS, BOUNDS

_Q, _T = configs(mirror=True)
HARNESSES = [H(twin, _Q, _T, covers=COVERS, path_s=60, bounds=BOUNDS + "the second copy gets every price negated and BUY and SELL exchanged")]
