"""setup_cmd: nothing to compile; checks that the tools the checks need are there.
--full: also explores harness/selfcheck.py, whose paths observe what the stand-ins for datetime, arrow, pytz, floats and ints give, and
replays them on the real interpreter; exits non-zero on any difference."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

import z3  # noqa: E402

x = z3.Real("x")
s = z3.Solver()
s.add(x * 2 == 3)
assert s.check() == z3.sat
for d in ("evidence", "out"):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
print("z3", z3.get_version_string(), "python", sys.version.split()[0])
if "--full" in sys.argv:
    r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "SELFCHECK"] + [a for a in sys.argv[1:] if a != "--full"], cwd=HERE)
    try:
        os.remove(os.path.join(HERE, "evidence", "SELFCHECK.json"))
    except FileNotFoundError:
        pass
    sys.exit(r.returncode)
