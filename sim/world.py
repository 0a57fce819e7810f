"""Executes a scenario (plain JSON) against the real library in a fresh fork."""
import base64
import copy
import gc
import hashlib
import io
import json
import os
import pickle
import random
import shutil
import struct
import sys
import tempfile
import traceback
import warnings

import numpy as np

from . import boot, draw, kernel, procstate
from .kernel import Kernel

WALL = float(os.environ.get("RFSIM_WALL", "40"))


class Tee(io.StringIO):
    pass


def arr(x):
    return np.array(x, dtype=float, copy=True)


def plain(x):
    """Library values as comparable plain data."""
    import pandas as pd
    import scipy.sparse as ss

    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, np.generic):
        return x.item()
    if ss.issparse(x):
        return arr(x.toarray())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [plain(v) for v in x.tolist()]
        return x.copy()
    if isinstance(x, pd.DataFrame):
        return {"cols": [str(c) for c in x.columns], "vals": [[plain(v) for v in row] for row in x.values.tolist()],
                "index": [plain(v) for v in x.index.tolist()], "iname": x.index.name}
    if isinstance(x, pd.Series):
        return [plain(v) for v in x.tolist()]
    if isinstance(x, dict):
        return {"__d": sorted(((plain_key(k), plain(v)) for k, v in x.items()), key=lambda t: str(t[0]))}
    if isinstance(x, (set, frozenset)):
        return {"__s": sorted((plain(v) for v in x), key=str)}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return str(x)


def plain_key(k):
    if isinstance(k, np.generic):
        return k.item()
    if isinstance(k, (int, float, str, bool)):
        return k
    if isinstance(k, tuple):
        return tuple(plain_key(v) for v in k)
    return str(k)


def eq_plain(e):
    """flow equations {cell: (lhs coefficients, rhs)} as numbers"""
    out = {}
    for cid, (lhs, rhs) in e.items():
        out[int(cid)] = ({str(k): float(v) for k, v in lhs.items()}, float(rhs))
    return out


class World:
    def __init__(self, sc, k):
        self.sc = sc
        self.k = k
        self.rf = boot.load()
        self.g, self.f, self.m, self.w = {}, {}, {}, {}
        self.held = {}          # objects handed to the library
        self.recs = []
        self.fnames = {}

    def scrub(self, text):
        return text.replace(self.k.scratch, "<scratch>")

    # -- snapshots -----------------------------------------------------------
    def snap_solution(self, s):
        d = {"p": arr(s.pressures), "q": arr(s.rates), "t": int(s.tstep), "n": int(s.nsteps)}
        e = getattr(s, "error", None)
        d["mb"] = None if e is None else float(e)
        # the recorded systems, one for each step
        d["sys"] = [len(x) for x in (getattr(s, "As", None), getattr(s, "ds", None)) if x is not None]
        return d

    def snap_model(self, mid):
        m = self.m[mid]
        d = {"sols": {}, "active": None}
        for name, s in m.solutions.items():
            if "numerical" not in name:
                continue
            d["sols"][name] = self.snap_solution(s)
            if s is m.solution:
                d["active"] = name
        d["ip"], d["iq"] = (arr(x) for x in m.get_init_arrays())
        d["wells"] = {
            int(c): {k: plain(v) for k, v in w.items() if k in ("q", "pwf", "constrain", "q_sp", "pwf_sp", "r", "s", "G", "r_eq")}
            for c, w in m.wells.items()
        }
        d["wp"] = {int(c): [float(v) for v in l] for c, l in m.w_pressures.items()}
        d["bdict"] = {int(b): [str(v[0]), float(v[1])] for b, v in m.bdict.items()}
        d["verbose"] = bool(m.verbose)
        d["scalers"] = plain(m.scalers_dict)
        d["fit"] = [self.fitted(getattr(m, n, None)) for n in ("time_scaler", "space_scaler", "pressures_scaler", "rates_scaler")]
        d["ctime"] = float(m.solution.ctime) if m.solution is not None else 0.0
        d["rtime"] = float(getattr(m.solution, "run_ctime", 0.0) or 0.0) if m.solution is not None else 0.0
        d["sd"] = str(m.start_date)
        d["comp"] = float(m.comp)
        d["nsol"] = [n for n in m.solutions if "numerical" in n]
        d["comp_name"] = str(m.compiler) if getattr(m, "compiler", None) is not None else None
        return d

    @staticmethod
    def fitted(scaler):
        """what the scaler maps 0 and 1 back to"""
        try:
            with np.errstate(all="ignore"):
                return plain(scaler.inverse_transform(np.array([[0.0], [1.0]])))
        except Exception as e:  # noqa: BLE001
            return type(e).__name__

    def snap(self):
        return {mid: self.snap_model(mid) for mid in self.m}

    # -- operations ----------------------------------------------------------
    def stepped(self, op):
        """the model, or one of its solutions asked directly"""
        m = self.m[op["m"]]
        return m.solutions[op["sol"]] if op.get("sol") else m

    def do(self, op):
        rf = self.rf
        o = op["op"]
        if o == "grid":
            a = dict(op["args"])
            if op.get("np"):
                a = {k: (np.array(v) if isinstance(v, list) else v) for k, v in a.items()}
            self.g[op["id"]] = rf.grids.RegularCartesian(dtype=op.get("dtype", "double"), **a)
        elif o == "fluid":
            self.f[op["id"]] = rf.fluids.SinglePhase(dtype=op.get("dtype", "double"), **op["args"])
        elif o == "model":
            a = dict(op["args"])
            if "well" in a:
                a["well"] = self.w[a["well"]]
            self.m[op["id"]] = rf.models.BlackOil(self.g[op["grid"]], self.f[op["fluid"]], dtype=op.get("dtype", "double"), **a)
        elif o == "wellobj":
            self.w[op["id"]] = rf.wells.SingleCell(**op["args"])
        elif o == "wellobj_set":
            for k_, v in op["args"].items():
                setattr(self.w[op["id"]], k_, v)
        elif o == "wellobj_get":
            w = self.w[op["id"]]
            return {k_: plain(getattr(w, k_, None)) for k_ in ("cell_id", "q", "pwf", "r", "s")}
        elif o == "well":
            a = dict(op["args"])
            if "well" in a:
                a["well"] = self.w[a["well"]]
            if op.get("np"):
                a = {k_: np.int64(v) if isinstance(v, int) else v if not isinstance(v, float) else np.float64(v) for k_, v in a.items()}
            self.m[op["m"]].set_well(**a)
        elif o == "bounds":
            key = op.get("hold")
            d = {b: (c, v) for b, c, v in op["items"]}
            if key:
                d = self.held.setdefault(key, d)
            self.m[op["m"]].set_boundaries(d)
        elif o == "hold_mutate":
            d = self.held.get(op["hold"])
            if d is None:
                return None
            for b, c, v in op["items"]:
                d[b] = (c, v)
            for b in op.get("drop", ()):
                d.pop(b, None)
        elif o == "held":
            d = self.held.get(op["hold"], {})
            return {int(b): [c, float(v)] for b, (c, v) in d.items()}
        elif o == "bound":
            self.m[op["m"]].set_boundary(np.int64(op["b"]) if op.get("np") else op["b"], op["cond"], op["v"])
        elif o == "boundall":
            self.m[op["m"]].set_all_boundaries(op["cond"], op["v"])
        elif o == "compile":
            a = {"stype": "numerical", "method": "FDM", "sparse": True}
            a.update(op.get("args", {}))
            self.m[op["m"]].compile(**a)
        elif o == "setsol":
            self.m[op["m"]].set_solution(op["name"])
        elif o == "solve":
            m = self.stepped(op)
            for _ in range(op.get("times", 1)):
                m.solve(**op.get("args", {}))
        elif o == "run":
            self.stepped(op).run(**op.get("args", {}))
        elif o == "run_to":
            m = self.m[op["m"]]
            n = op["target"] - int(m.solution.tstep)
            if n > 0:
                if op.get("single"):
                    a = dict(op.get("args", {}))
                    for _ in range(n):
                        m.solve(**a)
                else:
                    m.run(nsteps=n, **op.get("args", {}))
        elif o == "df":
            df = self.m[op["m"]].get_df(**op.get("args", {}))
            return plain(df)
        elif o == "save":
            df = self.m[op["m"]].get_df(**dict(op.get("args", {}), save=True))
            return dict(plain(df), csv=df.to_csv())
        elif o in ("show", "gif", "gshow"):
            at = len(draw.LAST)
            draw.PLAN[:] = op.get("slide", ())
            if o == "show":
                self.m[op["m"]].show(**op.get("args", {}))
            elif o == "gif":
                self.m[op["m"]].save_gif(**op.get("args", {}))
            else:
                self.g[op["g"]].show(**op.get("args", {}))
            return [draw.report(p) for p in draw.LAST[at:]]
        elif o == "slide":
            open_ = [p for p in draw.LAST if p._shown and p._slider]
            if not open_:
                return None
            p = open_[op["w"] % len(open_)]
            return [open_.index(p), p.slide(op["v"])]
        elif o == "plot":
            try:
                getattr(self.m[op["m"]], op["what"])(**op.get("args", {}))
            finally:
                figs = draw.figures()
            return figs
        elif o == "files":
            return self.files()
        elif o == "analytic":
            # a solution of another kind next to the numerical ones
            m = self.m[op["m"]]
            name = next(n for n, x in m.solutions.items() if x is m.solution)
            try:
                m.compile("analytical", op.get("method", "1D1P"))
                with np.errstate(all="ignore"):
                    if op.get("calc"):
                        m.solution.calc_solution(N=op["calc"], scale=bool(op.get("scale")))
                    if op.get("n"):
                        m.run(nsteps=op["n"])
            finally:
                m.set_solution(name)
        elif o == "scalers":
            d = {c: [t, list(r) if op.get("aslist") else tuple(r) if r is not None else None] for c, t, r in op["items"]}
            if op.get("hold"):
                d = self.held.setdefault(op["hold"], d)
            self.m[op["m"]].set_scalers(d)
        elif o == "scalers_mutate":
            for c, t, r in op["items"]:
                e = self.held.get(op["hold"], {}).get(c)
                if e is None:
                    continue
                e[0] = t
                if isinstance(e[1], list):
                    e[1][:] = r
                else:
                    e[1] = tuple(r)
        elif o == "scalers_held":
            return plain(self.held.get(op["hold"], {}))
        elif o == "update_scalers":
            self.m[op["m"]].update_scalers(op.get("boundary", True))
        elif o == "props":
            a = dict(op["args"])
            self.g[op["g"]].set_props(**a)
        elif o == "gq":
            return self.grid_query(self.g[op["g"]], op)
        elif o == "inspect":
            return self.inspect(self.m[op["m"]], op)
        elif o == "scribble":
            return self.scribble(op)
        elif o == "mcomp":
            self.m[op["m"]].set_comp(op["v"])
        elif o == "prop":
            self.g[op["g"]].set_prop(op["name"], op["v"], op.get("id"), op.get("coords"))
        elif o == "fprops":
            self.f[op["f"]].set_props(**op["args"])
        elif o == "check_mb":
            self.m[op["m"]].solution.check_MB()
        elif o == "solutions":
            return list(self.m[op["m"]].get_solutions())
        elif o == "clock":
            c = self.k.clock
            c.armed = True
            d = op.get("jump", 0.0)
            if d:
                c.t += d
                c.njumps += 1
                c.mono += max(0.0, min(d, 10.0))
        elif o == "verbose":
            self.m[op["m"]].verbose = op["v"]
        elif o == "drop":
            # the caller forgets its objects
            for d in (self.m, self.g, self.f, self.w, self.held):
                for k_ in op.get("ids", list(d)):
                    d.pop(k_, None)
            gc.collect()
        elif o == "checkpoint":
            return base64.b64encode(pickle.dumps((self.m, self.g, self.f), protocol=4)).decode()
        elif o == "load":
            self.m, self.g, self.f = pickle.loads(base64.b64decode(op["data"]))
        elif o == "twin":
            objs = (self.m, self.g, self.f)
            objs = copy.deepcopy(objs) if op["how"] == "deepcopy" else pickle.loads(pickle.dumps(objs))
            for d, c in zip((self.m, self.g, self.f), objs):
                d.update({k_ + op["sfx"]: v for k_, v in c.items()})
        elif o == "random":
            random.seed(op["v"])
            np.random.seed(op["v"])
        else:
            raise AssertionError("unknown op " + o)
        return None

    def files(self):
        out = {}
        for root, _, fs in os.walk(self.k.scratch):
            for f in fs:
                p = os.path.join(root, f)
                with boot._real_open(p, "rb") as h:
                    out[os.path.relpath(p, self.k.scratch)] = h.read().decode("utf8", "replace")
        return out

    def grid_query(self, g, op):
        a = [tuple(x) if isinstance(x, list) and op.get("tup", True) else x for x in op.get("a", [])]
        kw = {k: (tuple(v) if isinstance(v, list) else v) for k, v in op.get("kw", {}).items()}
        if a and a[0] in ("$array", "$points"):
            n = g.get_n(True)
            a[0] = 1.5 * np.arange(n) + 3 if a[0] == "$array" else 1.5 * np.arange(3 * n).reshape(n, 3) + 3
        name = op["name"]
        v = getattr(g, name)
        if callable(v):
            v = v(*a, **kw)
        if op.get("keep"):
            self.held[op["keep"]] = v
        if name == "get_pyvista_grid":
            v = [np.array(v.points), tuple(v.dimensions), v.n_cells]
        return plain(v)

    def scribble(self, op):
        """the caller overwrites an answer it was given"""
        def go(v):
            try:
                if isinstance(v, np.ndarray):
                    v[...] = op.get("value", 7)
                elif isinstance(v, dict):
                    for x in v.values():
                        go(x)
                    v.clear()
                elif isinstance(v, (list, tuple)):
                    for x in v:
                        go(x)
                    if isinstance(v, list):
                        v.clear()
                elif isinstance(v, set):
                    v.clear()
                elif hasattr(v, "data") and hasattr(v, "nnz"):
                    v *= 0
            except (ValueError, TypeError, NotImplementedError):
                pass

        go(self.held.get(op["key"]))

    def inspect(self, m, op):
        w = op["what"]
        kw = op.get("kw", {})
        s = m.solution
        if w == "cells_eq":
            return eq_plain(s.get_cells_eq(**kw))
        if w == "cell_eq":
            lhs, rhs = s.get_cell_eq(kw["cell_id"])
            return eq_plain({kw["cell_id"]: (lhs, rhs)})
        if w == "matrices":
            A, d = (s.get_matrices_vect if op.get("vect") else s.get_matrices_symb)(**kw)
            return [plain(A), plain(d)]
        if w == "trans":
            return plain(m.get_cells_trans(**kw))
        if w == "trans_diag":
            return plain(m.get_cells_trans_diag(**kw))
        if w == "cell_trans":
            return plain(m.get_cell_trans(**kw))
        if w == "shape":
            return plain(m.get_shape(**kw))
        if w == "time":
            return plain(m.get_time(**kw))
        if w == "centers":
            return plain(m.get_centers(**kw))
        if w == "domain":
            return plain(m.get_domain(**kw))
        if w == "alpha":
            return plain(m.get_alpha())
        if w == "report":
            m.report(**kw)
            m.grid.report(**kw)
            m.fluid.report(**kw)
            return [repr(m.compiler), str(m.compiler)]
        if w == "init":
            return plain(m.get_init_arrays())
        if w == "wells":
            return plain({str(c): [m.wells[c].get(a) for a in ("constrain", "q", "pwf")] for c in sorted(m.wells)})
        raise AssertionError(w)

    def peek(self, op):
        """what the caller sees outside the operation itself: (step, answer)"""
        p = op.get("peek")
        if p is None:
            return None
        s = self.m[op["m"]].solution
        t = getattr(s, "tstep", None)
        try:
            return [t, plain(self.inspect(self.m[op["m"]], p))]
        except kernel.SimAbort:
            raise
        except Exception as e:  # noqa: BLE001
            return [t, f"{type(e).__name__}: {self.scrub(str(e)[:160])}"]

    # -- driver ----------------------------------------------------------------
    def run_op(self, i, op, snap=True):
        k = self.k
        rec = {"i": i, "op": op["op"], "status": "ok", "exc": None, "msg": "", "ret": None}
        out = sys.stdout
        pos = out.tell() if isinstance(out, io.StringIO) else 0
        k.begin_op(i)
        sol0 = k.solver_calls
        nf = len(k.fired)
        rec["sl0"] = len(k.solver_log)
        th0 = k.thread_starts
        watch = self.sc.get("process")
        if watch:
            given = json.dumps(op, sort_keys=True)
            gc.collect()
            before = procstate.look(k)
        try:
            rec["ret"] = self.do(op)
        except kernel.SimAbort:
            raise
        except BaseException as e:  # noqa: BLE001
            rec["status"] = "raise"
            rec["exc"] = type(e).__name__
            rec["msg"] = self.scrub(str(e)[:200])
            if os.environ.get("RFSIM_TB"):
                rec["tb"] = traceback.format_exc()
        finally:
            rec["events"] = k.op_events
            rec["tevents"] = dict(k.op_tevents)
            rec["counts"] = dict(k.op_counts)
            k.end_op()
        rec["solves"] = k.solver_calls - sol0
        rec["sl1"] = len(k.solver_log)
        rec["faulted"] = [f[:2] for f in k.fired[nf:]]
        rec["threads"] = k.thread_starts - th0
        if watch:
            gc.collect()
            d = procstate.diff(before, procstate.look(k), ("model_data.csv",) if op["op"] == "save" else (op.get("args", {}).get("file_name", "grid_animated.gif"),) if op["op"] == "gif" else (), any(f[0] == "wait" for f in rec["faulted"]))
            if d is None and json.dumps(op, sort_keys=True) != given:
                d = ["arguments", given[:200], json.dumps(op, sort_keys=True)[:200]]
            rec["process"] = d
        if isinstance(out, io.StringIO):
            rec["out"] = self.scrub(out.getvalue()[pos:][-2000:])
        if op.get("snap", snap):
            try:
                rec["snap"] = self.snap()
            except kernel.SimAbort:
                raise
            except Exception as e:  # noqa: BLE001
                rec["snap_error"] = f"{type(e).__name__}: {self.scrub(str(e)[:160])}"
        self.recs.append(rec)
        return rec

    def run(self):
        for i, op in enumerate(self.sc["ops"]):
            before = self.peek(op)
            rec = self.run_op(i, op)
            retry = op.get("retry", 0)
            if retry:
                # every scripted fault of the operation may cost one attempt
                retry = max(retry, sum(1 for f in self.sc.get("faults", []) if f.get("op") == i))
            tries = 0
            while rec["status"] == "raise" and tries < retry:
                # the user asks again; faults of this op that fired stay fired
                tries += 1
                if before is not None:
                    after = self.peek(op)
                    if after[0] == before[0]:
                        rec["peek"] = [before, after]
                    before = after
                rec = self.run_op(i, op)
                rec["retry"] = tries
            if before is not None and rec["status"] == "ok" and op["peek"].get("always"):
                rec["peek"] = [before, self.peek(op)]
            if rec["status"] == "raise" and op.get("must"):
                break

    # -- several callers ---------------------------------------------------------
    def run_actors(self):
        k = self.k
        setup = self.sc.get("ops", [])
        for i, op in enumerate(setup):
            self.run_op(i, op)
        self.actor_recs = {}
        ths = []

        def body(name, ops):
            def go():
                out = []
                self.actor_recs[name] = out
                for i, op in enumerate(ops):
                    fault = dict(op["fault"]) if op.get("fault") else None
                    for _ in range(1 + op.get("retry", 0)):
                        rec = {"i": i, "op": op["op"], "status": "ok", "exc": None, "msg": "", "ret": None}
                        k.actor_op(fault)
                        try:
                            rec["ret"] = self.do(op)
                        except kernel.SimAbort:
                            raise
                        except kernel._Killed:
                            raise
                        except BaseException as e:  # noqa: BLE001
                            rec["status"] = "raise"
                            rec["exc"] = type(e).__name__
                            rec["msg"] = self.scrub(str(e)[:200])
                            if os.environ.get("RFSIM_TB"):
                                rec["tb"] = traceback.format_exc()
                        finally:
                            k.actor_op(None)
                        if rec["status"] == "ok" or fault is None:
                            break
                    out.append(rec)
                    if rec["status"] == "raise" and op.get("must"):
                        break

            return go

        for name, ops in self.sc["actors"]:
            ths.append(k.spawn(body(name, ops), name, role="actor"))
        k.join_all(ths)
        # final per-model snapshots taken once all callers are done
        self.final = self.snap()


def digest(rec):
    """content hash of a record (used to prove determinism)"""
    h = hashlib.sha256()

    def up(x):
        if isinstance(x, np.ndarray):
            h.update(str(x.shape).encode())
            h.update(np.ascontiguousarray(x, dtype=float).tobytes() if x.dtype != object else str(x.tolist()).encode())
        elif isinstance(x, dict):
            h.update(b"{")
            for k in x:
                h.update(str(k).encode())
                up(x[k])
            h.update(b"}")
        elif isinstance(x, (list, tuple)):
            h.update(b"[")
            for v in x:
                up(v)
            h.update(b"]")
        elif isinstance(x, float):
            h.update(struct.pack("<d", x))
        else:
            h.update(repr(x).encode())

    up(rec)
    return h.hexdigest()[:24]


def _child(sc, wfd, opts):
    k = None

    def send(result):
        data = pickle.dumps(result, protocol=4)
        with os.fdopen(wfd, "wb", closefd=False) as f:
            f.write(struct.pack("<Q", len(data)))
            f.write(data)
            f.flush()
        os._exit(0)

    try:
        import signal

        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(int(WALL))
        rand = sc.get("env", {}).get("rand", 0)
        random.seed(rand)
        np.random.seed(rand)
        ambient = sc.get("env", {}).get("ambient", ())
        scratch = opts["scratch"]
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        dn = boot._real_open(os.devnull, "w")
        sys.stdout = io.StringIO()
        sys.stderr = dn
        sys.path[0] = scratch
        warnings.simplefilter("ignore")
        procstate.ambient(ambient)
        k = Kernel(
            sched=sc.get("sched"),
            faults=sc.get("faults", ()),
            clock=sc.get("clock"),
            budget=sc.get("budget", 3_000_000),
            profile=opts.get("profile", False),
        )
        k.scratch = scratch
        k.solver_log = []
        need = (
            opts.get("profile")
            or opts.get("force")
            or k.sched.get("kind", "default") != "default"
            or any(f["kind"] in ("line", "wait") for f in k.faults)
        )
        w = World(sc, k)
        if need:
            kernel.instrument(k.gran)

        def result(abort=None):
            r = {
                "recs": w.recs,
                "final": getattr(w, "final", None),
                "actors": getattr(w, "actor_recs", None),
                "abort": abort,
                "fired": list(k.fired),
                "switches": list(k.switches),
                "ynum": k.ynum,
                "nswitch": k.nswitch,
                "order": k.order_hash,
                "nthreads": len(k.threads),
                "thread_starts": k.thread_starts,
                "counters": dict(k.counters),
                "simtime": k.clock.t - k.clock.start,
                "clock_jumps": k.clock.njumps,
                "solver_log": list(k.solver_log),
                "texc": [(t.name, repr(t.exc)) for t in k.threads if t.exc is not None],
            }
            if opts.get("profile"):
                r["prof"] = k.prof
                r["lines"] = k.lines
            return r

        def on_abort(kind, detail):
            kernel.K = None
            send(result([kind, detail]))

        k.on_abort = on_abort
        kernel.K = k
        if "prog" in sc:
            from . import programs

            programs.PROGRAMS[sc["prog"]](w)
        elif "actors" in sc:
            w.run_actors()
        else:
            w.run()
        kernel.K = None
        send(result())
    except BaseException:  # noqa: BLE001
        kernel.K = None
        try:
            send({"harness_error": traceback.format_exc()})
        finally:
            os._exit(3)


_n = [0]


def hang_record():
    return {"recs": [], "final": None, "actors": None, "abort": ["hang", "the operation never came back"], "fired": [],
            "switches": [], "ynum": 0, "nswitch": 0, "order": 0, "nthreads": 1, "thread_starts": 0, "counters": {},
            "simtime": 0.0, "clock_jumps": 0, "solver_log": [], "texc": [], "prof": {}, "lines": []}


def execute(sc, profile=False, force=False):
    """Run one scenario in a forked child; returns its record."""
    boot.load()
    _n[0] += 1
    base = os.environ.get("RFSIM_SCRATCH") or tempfile.gettempdir()
    scratch = os.path.join(base, f"rfsim-{os.getpid()}-{_n[0]}")
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(sc, wfd, {"scratch": scratch, "profile": profile, "force": force})
        os._exit(4)
    os.close(wfd)
    try:
        buf = b""
        with os.fdopen(r, "rb") as f:
            buf = f.read()
        _, st = os.waitpid(pid, 0)
        if len(buf) < 8:
            return {"harness_error": f"child died without a record (status {st})", "died": os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0}
        res = pickle.loads(buf[8:])
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
