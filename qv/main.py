"""Check driver.

    python -m qv.main <property> [--tier quick|thorough] [--jobs N] [--only SUBSTR]
    python -m qv.main --replay FILE

A check is a module qv.checks.<property> with

    PROPERTY, LEVEL, TECH, BOUNDS, TRUSTED
    cases(tier) -> list of (case id, callable)

Cases are executed in worker processes.  A case returns a dict of counters or
raises Violation (reproduced), Undecided/Unsupported/ReplayMismatch (no answer).
"""
import argparse
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVID = os.path.join(ROOT, "evidence")
SCRATCH = None


def load(prop):
    return importlib.import_module("qv.checks." + prop.lower())


META = ("LEVEL", "FUNCTIONS", "BOUNDS", "OUTSIDE", "HOW", "TRUSTED", "ASSUME")


# ------------------------------------------------------------------ worker
def in_repo(tb):
    """does the innermost frame of the traceback that belongs to harness or repo belong to the repo?"""
    src = os.path.realpath(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
    last = None
    for f in traceback.extract_tb(tb):
        p = os.path.realpath(f.filename)
        if p.startswith(src):
            last = "repo"
        elif p.startswith(os.path.realpath(HERE)):
            last = "harness"
    return last == "repo"


def run_case(fn):
    from .prog import Violation, ReplayMismatch
    from .pathsum import Undecided, Unsupported
    from .smt import STATS, z3
    q0, t0, u0, s0 = STATS.queries, STATS.time, STATS.unsat, STATS.sat
    start = time.time()
    res = {}
    try:
        info = fn() or {}
        res["status"] = "ok"
        res["info"] = {k: v for k, v in info.items() if isinstance(v, (int, float, str))}
    except Violation as e:
        res["status"] = "violation"
        res["msg"] = str(e)
        res["replay"] = e.replay
    except (Undecided, Unsupported, ReplayMismatch) as e:
        res["status"] = type(e).__name__.lower()
        res["msg"] = str(e)
    except Exception as e:
        tb = traceback.format_exc()
        if in_repo(e.__traceback__) and not isinstance(e, (ImportError, MemoryError)):
            # the implementation rejected a valid program: reproduce once
            try:
                fn()
                res["status"] = "flaky"
                res["msg"] = "exception not reproduced: " + tb[-1500:]
            except Exception as e2:
                if type(e2) is type(e):
                    res["status"] = "violation"
                    res["msg"] = "implementation raised %s: %s" % (type(e).__name__, str(e)[:300])
                    res["replay"] = {"traceback": tb[-3000:]}
                else:
                    res["status"] = "flaky"
                    res["msg"] = tb[-1500:]
        else:
            res["status"] = "error"
            res["msg"] = tb[-3000:]
    res["wall"] = time.time() - start
    res["queries"] = STATS.queries - q0
    res["solver_s"] = STATS.time - t0
    res["unsat"] = STATS.unsat - u0
    res["sat"] = STATS.sat - s0
    return res


def worker(prop, tier):
    proto = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    from .env import setup
    setup()
    import warnings
    warnings.filterwarnings("ignore")
    mod = load(prop)
    cs = dict(mod.cases(tier))
    proto.write(json.dumps({"ready": list(cs), "meta": {k: getattr(mod, k) for k in META if hasattr(mod, k)}}) + "\n")
    proto.flush()
    for line in sys.stdin:
        cid = json.loads(line)
        res = run_case(cs[cid])
        res["case"] = cid
        proto.write(json.dumps(res, default=str) + "\n")
        proto.flush()


# ------------------------------------------------------------------ driver
class Worker:
    alive = []

    def __init__(self, prop, tier):
        env = dict(os.environ)
        env["QV_SCRATCH"] = SCRATCH
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env.setdefault("PYTHONHASHSEED", "0")
        for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
            env[v] = "1"
        env["XLA_FLAGS"] = env.get("XLA_FLAGS", "") + " --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
        self.log = open(os.devnull, "w") if not os.environ.get("QV_LOG") else None
        self.p = subprocess.Popen([sys.executable, "-m", "qv.main", "--worker", prop, "--tier", tier],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log,
                                  cwd=ROOT, env=env, text=True)
        Worker.alive.append(self)
        self.q = queue.Queue()
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        for line in self.p.stdout:
            self.q.put(line)
        self.q.put(None)

    def recv(self, timeout):
        try:
            line = self.q.get(timeout=timeout)
        except queue.Empty:
            return "timeout"
        if line is None:
            return "died"
        return json.loads(line)

    def send(self, cid):
        self.p.stdin.write(json.dumps(cid) + "\n")
        self.p.stdin.flush()

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


def drive(prop, tier, jobs, only, case_timeout, budget):
    t0 = time.time()
    results = {}
    todo = queue.Queue()
    first = Worker(prop, tier)
    hello = first.recv(300)
    if not isinstance(hello, dict):
        first.kill()
        # one more try, visible
        w = subprocess.run([sys.executable, "-m", "qv.main", "--list", prop, "--tier", tier], cwd=ROOT,
                           capture_output=True, text=True)
        print(w.stdout[-2000:], w.stderr[-4000:])
        raise SystemExit(3)
    ids = [c for c in hello["ready"] if not only or only in c]
    for c in ids:
        todo.put(c)
    stop = threading.Event()

    def loop(w):
        while not stop.is_set():
            try:
                cid = todo.get_nowait()
            except queue.Empty:
                break
            if w is None:
                w = Worker(prop, tier)
                h = w.recv(300)
                if not isinstance(h, dict):
                    w.kill()
                    w = None
                    results[cid] = {"case": cid, "status": "error", "msg": "worker did not start"}
                    continue
            w.send(cid)
            res = w.recv(case_timeout)
            if res == "timeout" or res == "died":
                w.kill()
                w = None
                res = {"case": cid, "status": "undecided" if res == "timeout" else "error",
                       "msg": "case %s after %ds" % (res, case_timeout), "wall": case_timeout}
            results[cid] = res
            if os.environ.get("QV_VERBOSE"):
                print("  [%6.1fs] %-11s %-50s %.1fs %s" % (time.time() - t0, res["status"], cid,
                                                     res.get("wall", 0), res.get("msg", "")[:300]), flush=True)
        if w is not None:
            w.kill()

    n = max(1, min(jobs, len(ids)))
    ths = [threading.Thread(target=loop, args=(first if i == 0 else None,)) for i in range(n)]
    for t in ths:
        t.start()
    for t in ths:
        left = budget - (time.time() - t0)
        t.join(max(1, left))
    if any(t.is_alive() for t in ths):
        stop.set()
        for c in ids:
            if c not in results:
                results[c] = {"case": c, "status": "undecided", "msg": "time budget exhausted"}
    return ids, results, time.time() - t0, hello["meta"]


def digest():
    """hash of the source tree the encodings were generated from"""
    import hashlib
    h = hashlib.sha256()
    base = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "qrisp")
    for d, ds, fs in os.walk(base):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                with open(os.path.join(d, f), "rb") as fh:
                    h.update(f.encode() + fh.read())
    return h.hexdigest()


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("QV_JOBS", "0")))
    ap.add_argument("--only", default=None)
    ap.add_argument("--worker", default=None)
    ap.add_argument("--list", default=None)
    ap.add_argument("--replay", default=None)
    a = ap.parse_args()
    if a.worker:
        worker(a.worker, a.tier)
        return 0
    if a.list:
        from .env import setup
        setup()
        for c, _ in load(a.list).cases(a.tier):
            print(c)
        return 0
    if a.replay:
        return replay(a.replay)
    prop, tier = a.prop, a.tier
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="qv_scratch_")
    jobs = a.jobs or max(1, min(8, len(os.sched_getaffinity(0))))
    budget = 840 if tier == "quick" else 6 * 3600
    ids, results, wall, meta = drive(prop, tier, jobs, a.only, 400 if tier == "quick" else 7200, budget)
    tot = {"queries": 0, "solver_s": 0.0, "unsat": 0, "sat": 0}
    agg = {}
    for r in results.values():
        for k in tot:
            tot[k] += r.get(k, 0)
        for k, v in r.get("info", {}).items():
            if isinstance(v, (int, float)):
                agg[k] = agg.get(k, 0) + v
    ok = [c for c in ids if results[c]["status"] == "ok"]
    vio = [c for c in ids if results[c]["status"] == "violation"]
    bad = [c for c in ids if results[c]["status"] not in ("ok", "violation")]
    open_ = [c for c in bad if results[c]["status"] == "undecided"]
    kf = [f for f in known_findings() if f["property"] == prop]
    new, known = [], []
    for c in vio:
        hit = None
        for f in kf:
            if f["case"] == c and f["match"] in results[c].get("msg", ""):
                hit = f
        (known if hit else new).append((c, hit))
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    lines = []
    for c, f in known:
        lines.append("KNOWN-FINDING: property=%s case=%s %s" % (prop, c, f["what"]))
    vrec = []
    for c, _ in new:
        path = os.path.join(EVID, "replay", "%s-%s.json" % (prop, "".join(ch if ch.isalnum() else "_" for ch in c)[:80]))
        with open(path, "w") as fh:
            json.dump({"property": prop, "tier": tier, "case": c, "message": results[c]["msg"],
                       "replay": results[c].get("replay")}, fh, indent=1, default=str)
        lines.append("violation in case %s: %s" % (c, results[c]["msg"][:600]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        vrec.append({"case": c, "message": results[c]["msg"][:600], "replay": path})
    level = meta.get("LEVEL", "translation_validation")
    slow = sorted(ids, key=lambda c: -results[c].get("wall", 0))
    pick = list(dict.fromkeys(ids[:: max(1, len(ids) // 16)][:16] + slow[:8]))
    samples = [{"case": c, "status": results[c]["status"], "queries": results[c].get("queries", 0),
                "wall_s": round(results[c].get("wall", 0), 2), "info": results[c].get("info", {})} for c in pick]
    nq = tot["queries"]
    coverage = {"samples": samples, "solver_answers_sat": tot["sat"], "solver_time_s": round(tot["solver_s"], 3),
                "violated": len(vio), "violation_records": vrec, "cases_without_answer": bad, "counters": agg,
                "functions_encoded": meta.get("FUNCTIONS", []), "bounds": meta.get("BOUNDS", ""),
                "outside_bounds": meta.get("OUTSIDE", ""), "source_digest": digest(),
                "explanation": meta.get("HOW", ""),
                "trusted": meta.get("TRUSTED", "z3; the circuit interpreter and reference models under /verif/qv; CPython")}
    if level == "proof":
        coverage.update(obligations=nq, discharged=tot["unsat"] + tot["sat"], trusted_base=coverage.pop("trusted"),
                        checker_cmd="python -m qv.main %s --tier %s" % (prop, tier), configurations=len(ids))
    elif level == "other":
        coverage.update(configurations=len(ids), queries=nq)
    else:
        coverage.update(programs=len(ids), disagreements_checked=nq)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
          "level": level, "coverage": coverage, "wall_s": round(wall, 2),
          "assumptions": meta.get("ASSUME", []), "violations": len(vrec)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for ln in lines:
        print(ln)
    for c in bad[:20]:
        print("NO ANSWER case %s: %s %s" % (c, results[c]["status"], results[c].get("msg", "")[-1500:]))
    print("%s [%s]: %d cases, %d held, %d violated (%d known), %d without answer; %d queries, solver %.1fs, wall %.1fs" % (
        prop, tier, len(ids), len(ok), len(vio), len(known), len(bad), nq, tot["solver_s"], wall))
    sys.stdout.flush()
    if new:
        code = 1
    elif len(open_) > max(1, len(ids) // 50) or len(open_) < len(bad):
        # a few queries the solver leaves open are listed in the evidence as not covered; more than
        # that, or a failing harness, is no verdict
        code = 3
    elif not ids:
        code = 3
    else:
        code = 0
    for w in Worker.alive:
        w.kill()
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os._exit(code)


def replay(path):
    rec = json.load(open(path))
    from .env import setup
    setup()
    mod = load(rec["property"])
    cs = dict(mod.cases(rec["tier"]))
    res = run_case(cs[rec["case"]])
    print(json.dumps(res, indent=1, default=str))
    return 1 if res["status"] == "violation" else 0


if __name__ == "__main__":
    sys.exit(main())
