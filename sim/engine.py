"""Seeded search: case generation, execution pool, minimisation, replay, evidence."""
import copy
import gc
import hashlib
import json
import os
import pickle
import random
import re
import select
import shutil
import signal
import struct
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    pass


class Ctx:
    """Executes scenarios for one case and accounts for them."""

    def __init__(self):
        self.memo = {}
        self.stats = new_stats()

    @staticmethod
    def execute(sc, **kw):
        from . import world, zygote

        seed = sc.get("env", {}).get("hash")
        return world.execute(sc, **kw) if seed is None else zygote.execute(seed, sc, **kw)

    def run(self, sc, profile=False):
        from . import world

        key = json.dumps(sc, sort_keys=True)
        got = self.memo.get(key)
        if got is not None and (not profile or "prof" in got):
            return got
        rec = self.execute(sc, profile=profile)
        if rec.get("died") == signal.SIGALRM and "budget" not in sc:
            # no answer in time: find out whether the code makes progress
            rec = self.execute(dict(sc, budget=400_000), profile=False, force=True)
        if rec.get("died") == signal.SIGALRM:
            rec = world.hang_record()
        if "harness_error" in rec:
            raise HarnessError(rec["harness_error"])
        self.memo[key] = rec
        account(self.stats, rec)
        return rec


def new_stats():
    return {"runs": 0, "simtime": 0.0, "jumps": 0, "fired": {}, "sites": set(), "orders": set(), "yields": 0,
            "switches": 0, "solves": 0, "steps": 0, "ops": 0, "threads": 0, "aborts": 0, "io": 0, "clock_reads": 0,
            "solver_used": {}, "loose": 0, "opkinds": {}, "escaped": 0, "refused": 0}


def account(s, rec):
    s["runs"] += 1
    s["simtime"] += max(0.0, rec["simtime"])
    s["jumps"] += rec["clock_jumps"]
    if rec["clock_jumps"]:
        s["fired"]["clock:jump"] = s["fired"].get("clock:jump", 0) + rec["clock_jumps"]
    for kind, mode, where in rec["fired"]:
        k = f"{kind}:{mode}" if mode else kind
        s["fired"][k] = s["fired"].get(k, 0) + 1
        s["sites"].add(f"{k}@{where}")
    if rec["nthreads"] > 1:
        s["orders"].add((rec["order"], rec["ynum"]))
    s["yields"] += rec["ynum"]
    s["switches"] += rec["nswitch"]
    s["threads"] += rec["thread_starts"]
    c = rec["counters"]
    s["solves"] += c.get("solves", 0)
    s["io"] += c.get("io_ops", 0)
    s["clock_reads"] += c.get("clock_reads", 0)
    s["escaped"] += c.get("escaped_writes", 0)
    s["loose"] += c.get("loose", 0)
    for k, v in c.get("solver_used", {}).items():
        s["solver_used"][k] = s["solver_used"].get(k, 0) + v
    if rec["abort"]:
        s["aborts"] += 1
    rs = list(rec["recs"])
    for l in (rec["actors"] or {}).values():
        rs += l
    s["ops"] += len(rs)
    for r in rs:
        s["opkinds"][r["op"]] = s["opkinds"].get(r["op"], 0) + 1
        if r["status"] != "ok":
            s["refused"] += 1


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, set):
            a[k] |= v
        elif isinstance(v, dict):
            for x, y in v.items():
                a[k][x] = a[k].get(x, 0) + y
        else:
            a[k] += v


def signature(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def make_case(P, seed, i, ctx):
    r = random.Random(f"{P.id}:{seed}:{i}")
    case = P.gen(r, ctx, i)
    # what is checked is exactly what a replay file holds
    case = json.loads(json.dumps(case))
    return case


def decide(P, case, ctx):
    """violations and facts of one case; answers nobody can make sense of are violations"""
    try:
        return P.check(case, ctx)
    except HarnessError:
        raise
    except Exception as e:  # noqa: BLE001
        import traceback

        if os.environ.get("RFSIM_TB"):
            traceback.print_exc()
        at = traceback.extract_tb(e.__traceback__)[-1]
        return [("unreadable", f"what the library returned cannot be interpreted: {type(e).__name__}: {str(e)[:120]} ({os.path.basename(at.filename)}:{at.name})")], {}


def run_case(P, seed, i):
    ctx = Ctx()
    case = make_case(P, seed, i, ctx)
    v, info = decide(P, case, ctx)
    return case, v, info, ctx.stats


def warm():
    """import everything once; children are forked from here"""
    from . import boot, kernel, world

    boot.load()
    for sc in (
        {"ops": [
            {"op": "grid", "id": "g", "args": {"nx": 2, "ny": 1, "nz": 1, "dx": 300, "dy": 350, "dz": 40, "phi": 0.27, "kx": 270, "z": 0}},
            {"op": "fluid", "id": "f", "args": {"mu": 0.5, "B": 1, "rho": 50, "comp": 1e-5}},
            {"op": "model", "id": "m", "grid": "g", "fluid": "f", "args": {"pi": 4000, "dt": 1, "start_date": "2020-01-01"}},
            {"op": "compile", "m": "m"},
            {"op": "solve", "m": "m", "args": {"vectorize": False, "isolver": None}},
            {"op": "df", "m": "m"}]},
    ):
        world.execute(sc)
        # and once in this process, so that children start with warm imports
        k = None
        import io as _io

        so, sys.stdout = sys.stdout, _io.StringIO()
        se, sys.stderr = sys.stderr, _io.StringIO()
        try:
            w = world.World(sc, None)
            for op in sc["ops"]:
                try:
                    w.do(op)
                except Exception:  # a broken library is judged by the cases, not here
                    break
            del w
        finally:
            sys.stdout, sys.stderr = so, se
    gc.collect()
    if len(kernel.repo_codes()) < 100:
        raise HarnessError("instrumentation found too little repository code")
    gc.freeze()


class Pool:
    """forked workers; worker w takes the case numbers w, w+W, ..."""

    def __init__(self, P, seed, n, workers, deadline):
        self.P, self.seed, self.n, self.W, self.deadline = P, seed, n, workers, deadline
        self.pipes = {}
        self.pids = {}
        for w in range(workers):
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                try:
                    os.setpgid(0, 0)
                    self.work(w, wfd)
                finally:
                    os._exit(0)
            os.close(wfd)
            try:
                os.setpgid(pid, pid)
            except OSError:
                pass
            self.pipes[rfd] = w
            self.pids[w] = pid

    def work(self, w, wfd):
        f = os.fdopen(wfd, "wb")
        for i in range(w, self.n, self.W):
            if time.monotonic() > self.deadline:
                break
            try:
                case, v, info, st = run_case(self.P, self.seed, i)
                msg = ("case", i, case if (v or i < 40) else None, v, info, st, signature(case))
            except HarnessError as e:
                msg = ("error", i, str(e))
            except BaseException:  # noqa: BLE001
                import traceback

                msg = ("error", i, traceback.format_exc())
            data = pickle.dumps(msg, protocol=4)
            f.write(struct.pack("<Q", len(data)) + data)
            f.flush()
            gc.collect(0)
        data = pickle.dumps(("end", w))
        f.write(struct.pack("<Q", len(data)) + data)
        f.flush()

    def messages(self):
        bufs = {fd: b"" for fd in self.pipes}
        open_ = set(bufs)
        while open_:
            rs, _, _ = select.select(list(open_), [], [], 5.0)
            if not rs:
                yield None
                continue
            for fd in rs:
                d = os.read(fd, 1 << 20)
                if not d:
                    open_.discard(fd)
                    os.close(fd)
                    yield ("closed", self.pipes[fd])
                    continue
                b = bufs[fd] + d
                while len(b) >= 8:
                    (ln,) = struct.unpack("<Q", b[:8])
                    if len(b) < 8 + ln:
                        break
                    yield pickle.loads(b[8:8 + ln])
                    b = b[8 + ln:]
                bufs[fd] = b

    def stop(self):
        for pid in self.pids.values():
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        for pid in self.pids.values():
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------
def remap(case, key, keep):
    """drop operations; faults follow their operation"""
    c = copy.deepcopy(case)
    ops = c["sc"][key]
    idx = {old: new for new, old in enumerate(keep)}
    c["sc"][key] = [ops[o] for o in keep]
    if key == "ops" and "actors" not in c["sc"]:
        fs = []
        for f in c["sc"].get("faults", []):
            if f["op"] in idx:
                fs.append(dict(f, op=idx[f["op"]]))
        c["sc"]["faults"] = fs
    return c


def minimise(P, case, cls, budget=90.0):
    t0 = time.monotonic()
    evals = [0]

    def bad(c):
        if time.monotonic() - t0 > budget:
            return False
        evals[0] += 1
        try:
            v, _ = decide(P, json.loads(json.dumps(c)), Ctx())
        except Exception:  # noqa: BLE001
            return False
        return any(x[0] == cls for x in v)

    def ddmin(get, put, droppable=lambda x: True):
        nonlocal case
        n = 2
        while True:
            items = get(case)
            cand = [i for i, x in enumerate(items) if droppable(x)]
            if not cand:
                return
            size = max(1, len(cand) // n)
            done = True
            i = 0
            while i < len(cand):
                drop = set(cand[i:i + size])
                c = put(case, [j for j in range(len(items)) if j not in drop])
                if c is not None and bad(c):
                    case = c
                    done = False
                    break
                if time.monotonic() - t0 > budget:
                    return
                i += size
            if done:
                if size == 1:
                    return
                n = min(len(cand), n * 2)

    sc = case["sc"]
    # 1. a recorded schedule instead of a random one
    if sc.get("sched", {}).get("kind", "default") not in ("default", "list"):
        c = copy.deepcopy(case)
        c["sc"]["sched"] = {"kind": "default"}
        if bad(c):
            case = c
        else:
            from . import world

            try:
                rec = world.execute(json.loads(json.dumps(sc)))
                c = copy.deepcopy(case)
                c["sc"]["sched"] = {"kind": "list", "gran": sc["sched"].get("gran", "line"), "list": rec["switches"]}
                if bad(c):
                    case = c
            except Exception:  # noqa: BLE001
                pass

    def put_f(c, keep):
        c = copy.deepcopy(c)
        fs = c["sc"].get("faults", [])
        c["sc"]["faults"] = [fs[i] for i in keep]
        return c

    if case["sc"].get("faults"):
        ddmin(lambda c: c["sc"].get("faults", []), put_f)
    if case["sc"].get("ops"):
        ddmin(lambda c: c["sc"]["ops"], lambda c, keep: remap(c, "ops", keep), lambda o: not o.get("must"))
    for a in range(len(case["sc"].get("actors", []))):
        def put_a(c, keep, a=a):
            c = copy.deepcopy(c)
            ops = c["sc"]["actors"][a][1]
            c["sc"]["actors"][a][1] = [ops[i] for i in keep]
            return c

        ddmin(lambda c, a=a: c["sc"]["actors"][a][1], put_a, lambda o: not o.get("must"))

    def put_s(c, keep):
        c = copy.deepcopy(c)
        l = c["sc"]["sched"]["list"]
        c["sc"]["sched"]["list"] = [l[i] for i in keep]
        return c

    if case["sc"].get("sched", {}).get("kind") == "list":
        ddmin(lambda c: c["sc"]["sched"]["list"], put_s)
    # fewer steps per request
    for j, o in enumerate(case["sc"].get("ops", [])):
        for path in (("times",), ("args", "nsteps")):
            d = o
            for p in path[:-1]:
                d = d.get(p, {})
            while isinstance(d.get(path[-1]), int) and d[path[-1]] > 1:
                c = copy.deepcopy(case)
                t = c["sc"]["ops"][j]
                for p in path[:-1]:
                    t = t[p]
                t[path[-1]] -= 1
                if not bad(c):
                    break
                case = c
                o = case["sc"]["ops"][j]
                d = o
                for p in path[:-1]:
                    d = d.get(p, {})
    if hasattr(P, "shrink"):
        for c in P.shrink(case):
            if bad(c):
                case = c
    return case, evals[0]


# --------------------------------------------------------------------------
# check driver
# --------------------------------------------------------------------------
def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def match_known(pid, v, known):
    for k in known:
        if k["property"] == pid and k["class"] == v[0] and re.search(k["detail"], v[1]):
            return k
    return None


def tree_id():
    from .kernel import REPO

    h = hashlib.sha256()
    for root, ds, fs in os.walk(os.path.join(REPO, "reservoirflow")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def short(case, limit=1800):
    s = json.dumps(case)
    return case if len(s) <= limit else {"abridged": s[:limit]}


def check(P, tier, seed, workers=None, n=None, wall=None, quiet=False):
    t0 = time.monotonic()
    known = known_findings()["known"]
    n = n or P.cases[tier]
    wall = wall or {"quick": 420.0, "thorough": float(os.environ.get("RFSIM_THOROUGH_S", "3000"))}[tier]
    workers = workers or int(os.environ.get("RFSIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    base = tempfile.mkdtemp(prefix=f"rfsim-{os.getpid()}-")
    os.environ["RFSIM_SCRATCH"] = base
    try:
        warm()
        t1 = time.monotonic()
        pool = Pool(P, seed, n, workers, t1 + wall)
        stats = new_stats()
        infos = {}
        samples = []
        sigs = set()
        ncases = nontriv = 0
        found = []          # (i, case, violations)
        errors = []
        hits = {}
        done_upto = {w: w - workers for w in range(workers)}
        finished = set()
        ended = set()
        try:
            for msg in pool.messages():
                if msg is None:
                    if time.monotonic() - t1 > wall + 400:
                        errors.append("workers did not finish")
                        break
                    continue
                if msg[0] == "closed":
                    if msg[1] not in finished:
                        errors.append(f"worker {msg[1]} died")
                    ended.add(msg[1])
                    continue
                if msg[0] == "end":
                    finished.add(msg[1])
                    done_upto[msg[1]] = 1 << 60
                elif msg[0] == "error":
                    errors.append(f"case {msg[1]}: {msg[2]}")
                    done_upto[msg[1] % workers] = msg[1]
                else:
                    _, i, case, v, info, st, sig = msg
                    done_upto[i % workers] = i
                    merge(stats, st)
                    ncases += 1
                    if info.get("nontrivial") and sig not in sigs:
                        nontriv += 1
                    sigs.add(sig)
                    for k, x in info.items():
                        if isinstance(x, (int, float)) and not isinstance(x, bool):
                            infos[k] = infos.get(k, 0) + x
                    if case is not None and len(samples) < 3 and info.get("nontrivial"):
                        samples.append(short(case))
                    fresh = []
                    for x in v:
                        k = match_known(P.id, x, known)
                        if k is None:
                            fresh.append(x)
                        else:
                            hits[k["id"]] = hits.get(k["id"], 0) + 1
                    if fresh:
                        found.append((i, case, fresh))
                if found:
                    lo = min(x[0] for x in found)
                    if all(d + workers > lo for d in done_upto.values()):
                        break
        finally:
            pool.stop()
        wall_search = time.monotonic() - t1
        result = {"property": P.id, "errors": errors, "violation": None}
        if found:
            i, case, v = min(found, key=lambda x: x[0])
            cls = v[0][0]
            if not quiet:
                print(f"[{P.id}] violation in case {i} (seed {seed}): {cls}: {v[0][1]}", flush=True)
            mcase, ev = minimise(P, case, cls)
            mv, _ = decide(P, json.loads(json.dumps(mcase)), Ctx())
            mv = [x for x in mv if x[0] == cls] or v
            d = os.path.join(ROOT, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{P.id}-{seed}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": P.id, "seed": seed, "tier": tier, "case_index": i, "violation": {"class": cls, "detail": mv[0][1]},
                           "original_violation": {"class": v[0][0], "detail": v[0][1]}, "minimise_evaluations": ev,
                           "tree": tree_id(), "case": mcase}, f, indent=1)
                f.write("\n")
            rc = os.spawnv(os.P_WAIT, sys.executable, [sys.executable, os.path.join(ROOT, "check.py"), "--replay", path, "--quiet"])
            if rc != 1 and mcase is not case:
                # report the case as found rather than a shrunk one that does not replay
                with open(path) as f:
                    doc = json.load(f)
                doc["case"] = case
                doc["violation"] = doc["original_violation"]
                with open(path, "w") as f:
                    json.dump(doc, f, indent=1)
                    f.write("\n")
                rc = os.spawnv(os.P_WAIT, sys.executable, [sys.executable, os.path.join(ROOT, "check.py"), "--replay", path, "--quiet"])
            result["replayed"] = rc == 1
            if rc != 1:
                errors.append(f"case {i}: violation {cls} did not replay (exit {rc})")
            else:
                result["violation"] = (cls, mv[0][1], path)
        evidence(P, tier, seed, stats, infos, samples, ncases, nontriv, len(sigs), wall_search, time.monotonic() - t0,
                 1 if result["violation"] else 0, hits, errors, workers, n)
        result["hits"] = hits
        result["stats"] = stats
        result["cases"] = ncases
        result["infos"] = infos
        result["nontrivial"] = nontriv
        result["wall"] = wall_search
        return result
    finally:
        shutil.rmtree(base, ignore_errors=True)


REAL = ["reservoirflow (all packages, imported from /repo source)", "numpy", "scipy.sparse", "sympy", "pandas", "tqdm",
        "real linear solvers behind the solver seam", "real files inside a scratch directory behind the file seam"]
STUB = ["concurrent.futures.ThreadPoolExecutor -> simulated pool (same queueing; real OS threads run one at a time under the seeded scheduler)",
        "threading.Thread/Lock/RLock/Condition/Event/Semaphore created by repository code -> simulated",
        "time.*, datetime.date/datetime.now/today -> simulated clock",
        "iterative solvers run for real; when the caller leaves the tolerance at its default their answer is refined to a true residual of 1e-11"]


def evidence(P, tier, seed, s, infos, samples, ncases, nontriv, distinct, wall, total, viol, hits, errors, workers, n):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    per_h = lambda x: round(x / max(wall, 1e-9) * 3600)
    ev = {
        "property": P.id, "tier": tier, "seed": seed, "level": P.level,
        "coverage": {
            "evaluations": ncases,
            "distinct_nontrivial": nontriv,
            "rule": P.rule,
            "samples": samples or [{"note": "no non-trivial case in this run"}],
            "cases_planned": n,
            "simulated_runs": s["runs"],
            "simulated_runs_per_hour": per_h(s["runs"]),
            "cases_per_hour": per_h(ncases),
            "seeds": {"base": seed, "derived": ncases, "scheme": "random.Random('<property>:<seed>:<case>')"},
            "seeds_per_hour": per_h(ncases),
            "simulated_clock_seconds": round(s["simtime"], 3),
            "operations_executed": s["ops"],
            "operations_by_kind": dict(sorted(s["opkinds"].items())),
            "operations_refused_or_interrupted": s["refused"],
            "linear_solves": s["solves"],
            "linear_solvers_used": s["solver_used"],
            "iterative_solves_compared_loosely": s["loose"],
            "faults_injected": dict(sorted(s["fired"].items())),
            "distinct_fault_sites": len(s["sites"]),
            "distinct_interleavings": len(s["orders"]),
            "interleaving_measure": "hash of the sequence of (scheduling point, thread chosen) over executions with more than one thread",
            "scheduling_points": s["yields"],
            "context_switches": s["switches"],
            "worker_threads_started": s["threads"],
            "disk_operations": s["io"],
            "clock_reads": s["clock_reads"],
            "aborted_runs": s["aborts"],
            "writes_redirected_into_scratch": s["escaped"],
            "probes": {k: v for k, v in sorted(infos.items())},
            "known_finding_hits": hits,
            "workers": workers,
            "real_components": REAL,
            "stubbed_components": STUB,
            "harness_errors": len(errors),
        },
        "assumptions": P.assumptions,
        "wall_s": round(total, 2),
        "violations": viol,
    }
    tmp = os.path.join(d, f".{P.id}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, f"{P.id}.json"))


def replay(path, quiet=False):
    from . import props

    with open(path) as f:
        doc = json.load(f)
    P = props.BY_ID[doc["property"]]
    base = tempfile.mkdtemp(prefix=f"rfsim-{os.getpid()}-")
    os.environ["RFSIM_SCRATCH"] = base
    try:
        warm()
        v, _ = decide(P, doc["case"], Ctx())
    finally:
        shutil.rmtree(base, ignore_errors=True)
    want = doc["violation"]
    same = [x for x in v if x[0] == want["class"] and x[1] == want["detail"]]
    if not quiet:
        for x in v:
            print(f"  {x[0]}: {x[1]}")
    if same:
        if not quiet:
            print(f"VIOLATION property={P.id} replay={path}")
        return 1
    if any(x[0] == want["class"] for x in v):
        if not quiet:
            print(f"VIOLATION property={P.id} replay={path} (same class, different detail)")
        return 1
    if v:
        return 3
    if not quiet:
        print("no violation")
    return 0
