"""Runs one property: parallel path exploration, replay of candidates on the real package, evidence."""
import collections
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

from symx import state

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYREAL = "/opt/venv/bin/python"
NW = int(os.environ.get("SYMX_WORKERS", "8"))


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


# ================================================================================================ worker
class Alarm:
    @staticmethod
    def handler(sig, frame):
        from symx import core
        raise core.PathTimeout("time limit of a path")

    @staticmethod
    def set(s):
        signal.setitimer(signal.ITIMER_REAL, s, 2.0 if s else 0)


class Worker:
    def __init__(self, hs, cfgs, findings, tier, seed, repo):
        from symx import core, sdatetime, sthread, sfs, loader, ctx
        self.C, self.D, self.T, self.F, self.L, self.X = core, sdatetime, sthread, sfs, loader, ctx
        self.hs, self.cfgs = hs, cfgs
        self.findings, self.tier = findings, tier
        self.repo = os.path.join(repo, "estrade") + os.sep
        self.engine = core.Engine()
        self.functions = set()
        self.count = collections.Counter()
        self.cand = collections.Counter()
        self.rng = random.Random(seed)
        self._monitor()

    def _monitor(self):
        m = sys.monitoring
        m.use_tool_id(3, "symx")

        def start(code, off):
            if code.co_filename.startswith(self.repo):
                self.functions.add(code.co_filename[len(self.repo):] + ":" + code.co_qualname)
            return m.DISABLE
        m.register_callback(3, m.events.PY_START, start)
        m.set_events(3, m.events.PY_START)

    def fresh_engine(self):
        st = self.engine.stats
        self.engine = self.C.Engine()
        self.engine.stats = st

    def path(self, hid, ci, prefix, out):
        C = self.C
        h, cfg = self.hs[hid], self.cfgs[hid][ci]
        E = self.engine
        self.D._cells.clear()
        self.T.Sched.reset()
        self.F.FS.reset()
        self.D.CLOCK[:] = self.D.CLOCK_START
        self.L._uuid_n[0] = 0
        state.pristine()
        random.seed(0)
        E.start(prefix, (hid, ci))
        ctx = self.X.SymCtx(E, self.findings, self.tier)
        exc = None
        Alarm.set(h.path_s)
        try:
            try:
                h.fn(ctx, **cfg)
                status = "ok"
            except C.Infeasible:
                status = "infeasible"
            except C.Cut as e:
                status = "cut"
                out["notes"][("cut", str(e))] += 1
            except C.Unsupported as e:
                status = "unsupported"
                out["notes"][("unsupported", str(e)[:200])] += 1
            except C.PathTimeout as e:
                status = "timeout"
                out["notes"][("timeout", str(e))] += 1
            except Exception as e:
                status = "exception"
                exc = e
            if status in ("ok", "exception"):
                ctx.flush()
            if status != "infeasible" and len(E.trace) >= len(E.prefix):
                self.candidates(h, hid, ci, ctx, status, exc, out)
        except C.PathTimeout as e:
            status = "timeout"
            out["notes"][("timeout", "end of path")] += 1
        except C.Steer as e:
            status = "unsupported"
            out["notes"][("unsupported", "end of path: %s" % e)] += 1
        finally:
            while True:
                try:
                    Alarm.set(0)
                    break
                except C.PathTimeout:
                    pass
        alts = E.alts
        if status == "timeout":
            self.fresh_engine()
        elif len(E.trace) < len(E.prefix) and status != "infeasible":
            out["notes"][("nondeterministic", "path shorter than its prefix")] += 1
        out["status"][status] += 1
        out["nchecks"] += ctx.nchecks
        out["approx"] += bool(E.approx)
        out["nonlinear"] += E.nonlinear
        if status == "ok":
            out["covers"].update((h.name, c) for c in ctx.covers)
        return alts

    def _models(self, z):
        """models of the path condition and z, one without rounding ties first when there is one"""
        E, z3 = self.engine, self.C.z3
        if E.ties:
            zs = []
            for num, nd_, den in E.ties:
                d = 2 * (self.C.form_z(num) - self.C.form_z(nd_))
                dz = self.C.form_z(den)
                zs += [d < dz, -d < dz]
            r, m = E.sat(z3.And(z, *zs))
            if r == z3.sat:
                yield m
        r, m = E.sat(z)
        if r == z3.sat:
            yield m
            bl = [self.C.form_z(v) != E.eval_int(m, v) for v in E.inputs.values() if type(self.C.plain(v)) is self.C.SymInt]
            if bl:
                for k in (len(bl), max(1, len(bl) // 2)):
                    sub = self.rng.sample(bl, k)
                    r, m2 = E.sat(z3.And(z, *sub))
                    if r == z3.sat:
                        yield m2

    def case(self, h, ci, hid, model, kind, **kw):
        E = self.engine
        return dict(harness=h.name, config=self.cfgs[hid][ci], inputs=E.inputs_of(model), kind=kind,
                    approx=bool(E.approx) or E.tie_in(model), **kw)

    def candidates(self, h, hid, ci, ctx, status, exc, out):
        E, z3 = self.engine, self.C.z3
        true = z3.BoolVal(True)
        for labels, z, m0 in ctx.violations:
            key = (hid, tuple(labels[:3]))
            self.cand[key] += 1
            if self.cand[key] > 6:
                out["dropped"] += 1
                continue
            for m in self._models(z):
                out["cands"].append(self.case(h, ci, hid, m, "violation", labels=labels))
        if status in ("exception", "unsupported", "timeout", "cut"):
            key = (hid, status, repr(type(exc)), str(exc)[:60])
            self.cand[key] += 1
            if status == "exception":
                tb = traceback.extract_tb(exc.__traceback__)[-1]
                out["notes"][("exception", "%s: %s (%s:%s)" % (type(exc).__name__, str(exc)[:160], os.path.basename(tb.filename), tb.lineno))] += 1
            if self.cand[key] <= 6:
                r, m = E.sat(None)
                if m is not None:
                    out["cands"].append(self.case(h, ci, hid, m, status, labels=["%s %s" % (type(exc).__name__, str(exc)[:200]) if exc
                                                                                 else status]))
        for kid, items in ctx.known_hits.items():
            key = ("known", kid)
            if self.cand[key] < 4:
                bs = [z3.BoolVal(True) if b is False else z3.Not(b) for _, b in items]
                for m in self._models(z3.Or(*bs) if len(bs) > 1 else bs[0]):
                    self.cand[key] += 1
                    out["cands"].append(self.case(h, ci, hid, m, "known", known=kid, labels=[l for l, _ in items][:3]))
        if status == "ok":
            n = self.count[(hid, ci)]
            self.count[(hid, ci)] += 1
            if n < 2 or n % 25 == 7:
                r, m = E.sat(None)
                if m is not None:
                    c = self.case(h, ci, hid, m, "sample")
                    try:
                        c["obs"] = [(k, self.enc(m, v)) for k, v in ctx.obs]
                    except C_UNENC:
                        c["obs"] = None
                    c["decisions"] = len(E.trace)
                    out["samples"].append(c)

    def enc(self, m, v):
        C, D, E = self.C, self.D, self.engine
        if type(v) is self.X.SNR or type(v) is self.X.SN:
            return ["n", float(Fraction(E.eval_int(m, v.n), E.eval_int(m, v.d)))]
        if type(v) is C.SymFloat:
            return ["n", E.eval_float(m, v)]
        if isinstance(v, C.SymInt):
            return ["n", E.eval_int(m, v)]
        if isinstance(v, (bool, str)) or v is None:
            return ["v", v]
        if isinstance(v, (int, float)):
            return ["n", v]
        if isinstance(v, (list, tuple)):
            return ["l", [self.enc(m, x) for x in v]]
        if hasattr(v, "name") and hasattr(v, "value"):
            return ["v", v.name]
        if self.C.z3.is_expr(v):
            return ["v", self.C.z3.is_true(m.eval(v, model_completion=True))]
        return ["v", type(v).__name__]

    def run(self, task, slice_s):
        hid, ci, prefixes = task
        out = dict(status=collections.Counter(), notes=collections.Counter(), covers=set(), cands=[], samples=[], nchecks=0,
                   approx=0, nonlinear=0, dropped=0)
        st0 = dict(self.engine.stats)
        t0 = time.time()
        stack = list(prefixes)
        while stack and time.time() - t0 < slice_s:
            p = stack.pop()
            stack.extend(self.path(hid, ci, p, out))
        st = self.engine.stats
        out["stats"] = {k: st[k] - st0.get(k, 0) for k in st}
        out["functions"] = self.functions
        out["t"] = time.time() - t0
        return out, stack


class C_UNENC(Exception):
    pass


def worker_main(conn, hs, cfgs, findings, tier, seed, repo):
    try:
        signal.signal(signal.SIGALRM, Alarm.handler)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        sys.setrecursionlimit(3000)
        w = Worker(hs, cfgs, findings, tier, seed, repo)
        while True:
            msg = conn.recv()
            if msg is None:
                break
            task, slice_s = msg
            try:
                out, rest = w.run(task, slice_s)
                conn.send(("ok", out, rest))
            except Exception:
                conn.send(("err", traceback.format_exc(), None))
                return
    except (EOFError, KeyboardInterrupt):
        pass


# ================================================================================================ replay
def replay(pid, cases, timeout=60, tier="quick"):
    """Run cases on the real package; list of results (dict) in the same order."""
    env = dict(os.environ, PYTHONPATH=VERIF + os.pathsep + os.environ.get("ESTRADE_REPO", "/repo"), PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", SYMX_TIER=tier)
    env.pop("VIRTUAL_ENV", None)
    try:
        p = subprocess.run([PYREAL, "-m", "symx.replay", pid], input=json.dumps(cases), capture_output=True, text=True, env=env,
                           cwd="/", timeout=timeout)
        res = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
        err = p.stderr[-2000:]
    except subprocess.TimeoutExpired as e:
        so = e.stdout or b""
        so = so.decode() if isinstance(so, bytes) else so
        res = [json.loads(l) for l in so.splitlines() if l.startswith("{")]
        err = "timeout"
    while len(res) < len(cases):
        res.append(dict(status="notrun", detail=err))
    return res


def close(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "n":
        return abs(a[1] - b[1]) <= 1e-6 * max(1.0, abs(b[1])) if not (isinstance(a[1], int) and isinstance(b[1], int)) else a[1] == b[1]
    if a[0] == "l":
        return len(a[1]) == len(b[1]) and all(close(x, y) for x, y in zip(a[1], b[1]))
    return a[1] == b[1]


# ================================================================================================ property run
class Run:
    def __init__(self, pid, tier, seed, budget):
        self.pid, self.tier, self.seed, self.budget = pid, tier, seed, budget
        self.t0 = time.time()
        self.agg = dict(status=collections.Counter(), notes=collections.Counter(), covers=set(), nchecks=0, approx=0, nonlinear=0,
                        dropped=0)
        self.stats = collections.Counter()
        self.functions = set()
        self.samples = []
        self.unreproduced = []
        self.known_ok = {}
        self.violation = None
        self.per_cfg = collections.Counter()
        self.cfg_s = collections.Counter()
        self.exhaustive = True
        self.tried = collections.Counter()
        self.replayed_ok = 0
        self.mismatches = []
        self.validated = 0

    def out_dir(self):
        d = os.path.join(VERIF, "out", self.pid)
        os.makedirs(d, exist_ok=True)
        return d

    def report(self, case, res):
        p = os.path.join(self.out_dir(), "violation.json")
        with open(p, "w") as f:
            json.dump(dict(case, property=self.pid, replay_result=res), f, indent=1, default=str)
        self.violation = (p, case, res)

    def handle(self, cands):
        """Replay candidates; True when a violation was reproduced."""
        for c in cands:
            key = (c["kind"], c.get("known"), tuple(c["labels"][:2]))
            if c["kind"] == "known" and c["known"] in self.known_ok:
                continue
            self.tried[key] += 1
            if self.tried[key] > 24 or self.tried[("total", c["kind"])] > 120:
                continue
            self.tried[("total", c["kind"])] += 1
            res = replay(self.pid, [c], timeout=45, tier=self.tier)[0]
            if c["kind"] == "known":
                if res["status"] in ("ok", "fail") and any(k == c["known"] for k, _ in res.get("known", [])):
                    self.known_ok[c["known"]] = (c, res)
            if res["status"] in ("fail", "exception", "hang"):
                self.report(c, res)
                return True
            if c["kind"] in ("violation",):
                self.unreproduced.append((c, res))
                if os.environ.get("SYMX_STRICT"):
                    print("  unreproduced", c["harness"], c["config"], c["labels"], c["inputs"], "approx" if c["approx"] else "", str(res)[:300])
            elif c["kind"] != "known":
                self.replayed_ok += res["status"] == "ok"
        return False

    def explore(self, hs, cfgs, findings, repo):
        ctxm = mp.get_context("fork")
        workers = []
        for i in range(NW):
            a, b = ctxm.Pipe()
            p = ctxm.Process(target=worker_main, args=(b, hs, cfgs, findings, self.tier, self.seed * 1000 + i, repo), daemon=True)
            p.start()
            b.close()
            workers.append([p, a, None])
        pool = collections.deque()
        for hid in range(len(hs)):
            for ci in range(len(cfgs[hid])):
                pool.append((hid, ci, [[]]))
        err = None
        try:
            while True:
                left = self.budget - (time.time() - self.t0)
                if left <= 0:
                    self.exhaustive = False
                    break
                for w in workers:
                    if w[2] is None and pool:
                        task = pool.popleft()
                        w[2] = task
                        slow = 0.25 if len(pool) < 2 * NW else 1.5
                        w[1].send((task, slow))
                busy = [w for w in workers if w[2] is not None]
                if not busy:
                    break
                ready = mp.connection.wait([w[1] for w in busy], timeout=1.0)
                for w in busy:
                    if w[1] not in ready:
                        continue
                    try:
                        kind, out, rest = w[1].recv()
                    except EOFError:
                        kind, out = "err", "worker died"
                    if kind == "err":
                        err = out
                        break
                    hid, ci, _ = w[2]
                    w[2] = None
                    self.merge(hid, ci, out)
                    if rest:
                        # the shortest prefixes hold the largest subtrees: hand them out separately
                        rest.sort(key=len)
                        k = min(len(rest), 2 * NW if len(pool) < NW else 2)
                        for j in range(k):
                            pool.append((hid, ci, rest[j::k]))
                    if self.handle(out["cands"]):
                        return None
                if err:
                    break
        finally:
            for w in workers:
                try:
                    w[0].kill()
                except Exception:
                    pass
            for w in workers:
                w[0].join(5)
        if pool:
            self.exhaustive = False
        return err

    def merge(self, hid, ci, out):
        a = self.agg
        for k in ("status", "notes"):
            a[k].update(out[k])
        a["covers"] |= out["covers"]
        for k in ("nchecks", "approx", "nonlinear", "dropped"):
            a[k] += out[k]
        self.stats.update(out["stats"])
        self.functions |= out["functions"]
        self.samples += out["samples"]
        self.per_cfg[(hid, ci)] += sum(out["status"].values())
        self.cfg_s[(hid, ci)] += out["t"]

    def validate(self):
        """Replay sampled paths on the real package and compare their observations."""
        cs = self.samples
        cap = 1500 if self.tier == "thorough" else 400
        if len(cs) > cap:
            rnd = random.Random(self.seed)
            cs = rnd.sample(cs, cap)
        if not cs:
            return
        k = min(NW, max(1, len(cs) // 10))
        chunks = [cs[i::k] for i in range(k)]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(k) as ex:
            results = list(ex.map(lambda c: replay(self.pid, c, timeout=200, tier=self.tier), chunks))
        for chunk, ress in zip(chunks, results):
            for c, r in zip(chunk, ress):
                if r["status"] in ("fail", "exception", "hang"):
                    c = dict(c)
                    c.pop("obs", None)
                    c["labels"] = ["found while validating a sampled path"]
                    self.report(c, r)
                    return
                if r["status"] == "ok":
                    self.validated += 1
                    if c["approx"] or c.get("obs") is None:
                        continue
                    o1, o2 = c["obs"], r["obs"]
                    if len(o1) != len(o2) or any(a[0] != b[0] or not close(a[1], b[1]) for a, b in zip(o1, o2)):
                        self.mismatches.append((c, r))
                elif r["status"] == "mismatch":
                    if not c["approx"]:
                        self.mismatches.append((c, r))


def main(pid, tier, seed, budget=None, only=None, config=None):
    from symx import loader
    repo = os.environ.get("ESTRADE_REPO", "/repo")
    prop = None
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        for l in f:
            d = json.loads(l)
            if d["id"] == pid:
                prop = d
    budget = budget or float(os.environ.get("SYMX_BUDGET") or (3000 if tier == "thorough" else 420))
    run = Run(pid, tier, seed, budget)
    t0 = time.time()
    fnd = [f for f in load_findings() if f["property"] == pid]
    err = None
    load_exc = None
    try:
        loader.install()
    except Exception:
        load_exc = traceback.format_exc()
    if load_exc:
        print(load_exc, file=sys.stderr)
        print("ERROR property=%s the package cannot be loaded" % pid)
        return 2
    mod = importlib.import_module("harness." + pid.lower())
    hs = [h for h in mod.HARNESSES if h.configs(tier) and (only is None or h.name in only)]
    cfgs = [[c for i, c in enumerate(h.configs(tier)) if config is None or i in config] for h in hs]
    err = run.explore(hs, cfgs, [f["id"] for f in fnd], repo)
    t_explore = time.time() - t0
    if not err and not run.violation:
        run.validate()
    bad, weak = [], []
    if err:
        bad.append("engine error: %s" % err)
    # a path given up may have been the one that reaches a cover: then the run is INCOMPLETE, not vacuous
    lost = any(run.agg["status"][k] for k in ("cut", "unsupported", "timeout", "exception")) or not run.exhaustive
    for h in hs:
        for c in h.covers if config is None else ():
            if (h.name, c) not in run.agg["covers"] and not lost:
                bad.append("cover %s of %s not reached" % (c, h.name))
    hard = [(c, r) for c, r in run.unreproduced if not c["approx"]]
    if hard:
        p = os.path.join(run.out_dir(), "unreproduced.json")
        with open(p, "w") as f:
            json.dump([dict(c, replay_result=r) for c, r in hard[:20]], f, indent=1, default=str)
        weak.append("%d counterexamples of the encoding do not reproduce on the real code (%s)" % (len(hard), p))
    if run.mismatches:
        p = os.path.join(run.out_dir(), "mismatches.json")
        with open(p, "w") as f:
            json.dump([dict(case=c, real=r) for c, r in run.mismatches[:20]], f, indent=1, default=str)
        # a few paths whose encoding the real code contradicts are paths left undecided; more than that and no verdict is given
        (bad if 5 * len(run.mismatches) > run.validated else weak).append("%d sampled paths behave differently on the real code (%s)" % (len(run.mismatches), p))
    if run.agg["status"]["ok"] == 0:
        bad.append("no path was explored to its end")
    st = run.agg["status"]
    complete = run.exhaustive and not (st["unsupported"] or st["timeout"] or st["cut"] or st["exception"] or run.stats["unknown"]) \
        and not run.unreproduced and not weak
    if os.environ.get("SYMX_STRICT"):
        bad += weak
    ev = evidence(run, prop, hs, cfgs, complete, t_explore, bad + [w for w in weak if w not in bad], repo)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    cov = ev["coverage"]
    print("%s tier=%s paths=%d checks=%d queries=%d unknown=%d solver=%.1fs wall=%.1fs complete=%s status=%s validated=%d approx=%d" % (
        pid, tier, cov["states"], cov["obligations_stated"], cov["queries"], cov["unknown"], cov["solver_s"], ev["wall_s"], complete,
        dict(st), run.validated, run.agg["approx"]))
    for (k, n), c in run.agg["notes"].most_common(12):
        print("  note %s x%d: %s" % (k, c, n))
    for f in fnd:
        if f["id"] in run.known_ok:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, f["id"], f["what"]))
        elif not run.violation:
            print("  note: finding %s did not show on this tree" % f["id"])
    if run.violation:
        p, c, r = run.violation
        print("  harness %s %s labels %s" % (c["harness"], c["config"], c["labels"]))
        print("  inputs %s" % (c["inputs"],))
        print("  real code: %s %s" % (r["status"], r.get("failed") or r.get("detail")))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if bad:
        for b in bad:
            print("ERROR property=%s %s" % (pid, b))
        return 2
    for w in weak:
        print("  undecided: " + w)
    if not complete:
        print("INCOMPLETE property=%s held on everything explored, but the exploration is not exhaustive (see the evidence)" % pid)
    return 0


def evidence(run, prop, hs, cfgs, complete, t_explore, bad, repo):
    samples = []
    for c in run.samples[:: max(1, len(run.samples) // 4)][:4]:
        samples.append({"harness": c["harness"], "config": c["config"], "inputs": c["inputs"], "branch_decisions": c["decisions"],
                        "observations": c.get("obs")})
    st = run.agg["status"]
    return {
        "property": run.pid, "tier": run.tier, "seed": run.seed, "level": "model_checking",
        "coverage": {
            "explanation": "bounded symbolic execution of the real code: states = execution paths (each stands for all inputs satisfying "
                           "its path condition), transitions = branch decisions taken by the solver; the negated property is "
                           "unsatisfiable on every completed path",
            "states": sum(st.values()), "transitions": run.stats["branches"],
            "traces_validated_against_impl": run.validated,
            "samples": samples or ["no path completed"],
            "paths_by_status": dict(st),
            "exhaustive_within_bounds": complete,
            "obligations_stated": run.agg["nchecks"],
            "queries": run.stats["queries"], "solver_s": round(run.stats["solver_s"], 2), "unknown": run.stats["unknown"],
            "paths_with_rounding_nondeterminism": run.agg["approx"], "nonlinear_terms": run.agg["nonlinear"],
            "functions_encoded": sorted(run.functions),
            "harnesses": [{"name": h.name, "bounds": h.bounds, "configs": [dict(c) for c in cs],
                           "paths": [run.per_cfg[(i, j)] for j in range(len(cs))],
                           "cpu_s": [round(run.cfg_s[(i, j)], 1) for j in range(len(cs))]} for i, (h, cs) in enumerate(zip(hs, cfgs))],
            "covers_reached": sorted("%s:%s" % c for c in run.agg["covers"]),
            "notes": {"%s: %s" % k: v for k, v in run.agg["notes"].items()},
            "unreproduced_candidates": len(run.unreproduced),
            "known_findings_shown": sorted(run.known_ok),
            "violation": None if not run.violation else {"replay": run.violation[0], "labels": run.violation[1]["labels"]},
            "errors": bad,
            "source": repo,
        },
        "wall_s": round(time.time() - run.t0, 2),
    }
