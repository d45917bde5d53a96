#!/usr/bin/env python3
"""python3-vt check.py C01 [--tier quick|thorough] [--budget S]      decide one property on /repo's working tree
python3-vt check.py --replay out/C01/violation.json                 run a recorded case on the real package"""
import argparse
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--config", nargs="*", type=int, help="indices of the configurations to run")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        env = dict(os.environ, PYTHONPATH=VERIF + os.pathsep + os.environ.get("ESTRADE_REPO", "/repo"), PYTHONDONTWRITEBYTECODE="1")
        os.chdir("/")
        os.execve("/opt/venv/bin/python", ["python", "-m", "symx.replay", "-", os.path.join(VERIF, a.replay)], env)
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.path.insert(0, VERIF)
    from symx import runner
    sys.exit(runner.main(a.pid, a.tier, int(os.environ.get("VERIF_SEED") or 1), a.budget, a.only, a.config))


if __name__ == "__main__":
    main()
