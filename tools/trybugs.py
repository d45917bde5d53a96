"""Run the quick checks against planted bugs, in scratch copies.  usage: trybugs.py [-a] [ID...]   (-a: every claimed check, not only the bug's own)"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(bid, props):
    d = os.path.join(VERIF, "seeded", bid)
    tmp = tempfile.mkdtemp(prefix="tryb")
    try:
        shutil.copytree("/repo", tmp + "/repo", symlinks=True)
        shutil.copytree(VERIF, tmp + "/verif", symlinks=True, ignore=shutil.ignore_patterns("seeded", ".git", "out", "evidence"))
        os.makedirs(tmp + "/verif/evidence")
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp + "/repo", capture_output=True, text=True)
        if r.returncode:
            return [(bid, "-", "patch does not apply: " + r.stderr[:200])]
        res = []
        for p in props:
            t0 = time.time()
            r = subprocess.run(["python3-vt", "check.py", p, "--tier", "quick"], cwd=tmp + "/verif", capture_output=True, text=True,
                               env=dict(os.environ, ESTRADE_REPO=tmp + "/repo"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
            lab = [l.strip() for l in r.stdout.splitlines() if l.strip().startswith("harness ")]
            res.append((bid, p, "rc=%d %s %.0fs %s" % (r.returncode, "CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "ERROR",
                                                       time.time() - t0, (lab or r.stdout.splitlines()[-1:])[0][:150] if r.stdout else r.stderr[-300:])))
        return res
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    args = sys.argv[1:]
    every = "-a" in args
    ids = [a for a in args if a != "-a"] or sorted(os.path.basename(d) for d in glob.glob(VERIF + "/seeded/*"))
    claimed = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(VERIF + "/harness/c[0-9][0-9].py"))
    jobs = []
    for i in ids:
        p = json.load(open(os.path.join(VERIF, "seeded", i, "meta.json")))["property"]
        jobs.append((i, claimed if every else [p]))
    with ThreadPoolExecutor(3) as ex:
        for rs in ex.map(lambda j: one(*j), jobs):
            for r in rs:
                print(*r, flush=True)
