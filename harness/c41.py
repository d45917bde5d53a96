"""C41 Results do not depend on the price level."""
from symx.h import H
from harness.twins import twin, configs, COVERS, BOUNDS

_Q, _T = configs()
HARNESSES = [H(twin, _Q, _T, covers=COVERS, path_s=60, bounds=BOUNDS + "the second copy gets every price shifted by any amount of +-10 000.00 (even spreads: shifted middles round alike)")]
