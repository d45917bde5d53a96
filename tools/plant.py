"""Confirm a planted bug in a scratch copy and keep it under /verif/seeded.

usage: plant.py SPEC.py...   SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)]
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import sys, os
sys.dont_write_bytecode = True
import arrow
from estrade import *
from estrade.trade_provider import *
from estrade.enums import *
from estrade.graph import *
'''


def run(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=dict(os.environ, **(env or {})))


def plant(b, base):
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        repo = tmp + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit of %s: %d occurrences" % (f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = run("git diff", repo).stdout
        d = os.path.join(tmp, "seed")
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write((PRE if b.get("pre", True) else "") + b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = run("timeout 60 bash %s/demo.sh" % d, repo)
        if r.returncode == 0:
            return "demo passes with the patch"
        with_patch = (r.stdout + r.stderr).strip().splitlines()[-1:]
        t = run("PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s timeout 200 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 "
                "| grep -E '^(FAILED|ERROR)|passed|failed' | tail -6" % repo, repo)
        fails = [l for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR tests")) and "TestUpdateTrade::test_closed" not in l]
        if fails or "626 passed" not in t.stdout:
            return "tests: " + " | ".join(fails[:3] or [t.stdout[-200:]])
        run("git checkout -- .", repo)
        r = run("timeout 60 bash %s/demo.sh" % d, repo)
        if r.returncode != 0:
            return "demo fails without the patch: " + (r.stdout + r.stderr)[-500:]
        dst = os.path.join(base, b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return "kept (%s)" % with_patch
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    bugs = []
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        bugs += ns["BUGS"]
    with ThreadPoolExecutor(6) as ex:
        for b, r in zip(bugs, ex.map(lambda b: plant(b, os.path.join(VERIF, "seeded")), bugs)):
            print(b["id"], "-", r, flush=True)
