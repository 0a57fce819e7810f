"""Refinement of a recorded execution against the reference model.

Walks the operations of a scenario together with the records of the execution
and checks, after every operation, everything the library let the caller see:
which steps were recorded, whether each recorded step is the reference step
from the previous recorded one, that nothing else moved, and what the tables
say.  Only public observables are used.
"""
import datetime

import numpy as np

from .oracles import Checker
from .ref import Geo, RefModel
from .table import Expect

LOOSE = 1.0


def same(a, b):
    """bitwise equal, NaN equal to NaN"""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def eqv(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return same(a, b)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(eqv(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b or (a == b)


class MState:
    def __init__(self, g, f, m):
        self.g, self.f, self.m = g, f, m
        self.R = RefModel(g, f, m)
        self.ck = Checker(self.R)
        self.wells = []
        self.dt = float(m.get("dt", 1))
        self.wp = {}            # solution name -> last seen well pressures
        self.snap = None
        self.known = True       # the reference knows the configuration
        self.compiled = {}


STEP_OPS = ("solve", "run", "run_to")
SETTINGS = ("bdict", "sd", "comp")
STATIC = ("q_sp", "pwf_sp", "r", "s", "r_eq", "G")
SHOWN = ("q", "pwf", "constrain")


def requested(op, prev):
    o = op["op"]
    if o == "solve":
        return 0 if op.get("args", {}).get("update") is False else op.get("times", 1)
    if o == "run":
        return op.get("args", {}).get("nsteps", 10)
    if o == "run_to":
        t = prev["sols"][prev["active"]]["t"] if prev and prev["active"] else 0
        return max(0, op["target"] - t)
    return 0


class Walk:
    """opts: physics, tables, wells (check well limits), settings"""

    def __init__(self, sc, rec, physics=True, tables=True, settings=True, limits=True, counts=True, solver=True):
        self.sc = sc
        self.rec = rec
        self.o = dict(physics=physics, tables=tables, settings=settings, limits=limits, counts=counts, solver=solver)
        self.g, self.f, self.wobj = {}, {}, {}
        self.m = {}
        self.held = {}
        self.v = []
        self.steps = 0
        self.switches = 0
        self.checked_tables = 0

    def add(self, cls, detail, i):
        self.v.append((cls, f"op {i} ({self.sc['ops'][i]['op']}): {detail}"))

    def run(self):
        rec = self.rec
        if "harness_error" in rec:
            return [("harness", rec["harness_error"])]
        if rec["abort"]:
            self.v.append((rec["abort"][0], rec["abort"][1][:400]))
            return self.v
        slog = {}
        for e in rec["solver_log"]:
            slog.setdefault(e[0], []).append(e)
        for r in rec["recs"]:
            i = r["i"]
            op = self.sc["ops"][i]
            self.one(i, op, r, slog)
            if len(self.v) > 6:
                break
        return self.v

    # ------------------------------------------------------------------
    def one(self, i, op, r, slog):
        o = op["op"]
        ok = r["status"] == "ok"
        faulted = bool(r.get("faulted"))
        mine = [e for e in slog.get(i, ()) if r.get("sl0", 0) <= e[4] < r.get("sl1", 1 << 60)]
        if not ok and not faulted and not op.get("bad") and not op.get("may"):
            refused = any(e[2] for e in mine)
            if not refused:
                self.add("raise", f"unexpected {r['exc']}: {r['msg'][:160]}", i)
        # --- effect on the reference
        if ok:
            self.apply(i, op, r)
        elif op.get("bad") is None and faulted and o in ("well", "bounds", "bound", "boundall", "compile"):
            pass
        # --- observed state
        if r.get("snap_error"):
            self.add("broken", f"the model can no longer be looked at: {r['snap_error']}", i)
        snap = r.get("snap")
        if snap is not None:
            for mid, s in snap.items():
                self.model(i, op, r, mid, s, mine)
        if self.o["tables"] and ok and o in ("df", "save"):
            self.table(i, op, r)

    def apply(self, i, op, r):
        o = op["op"]
        if o == "grid":
            self.g[op["id"]] = dict(op["args"])
        elif o == "fluid":
            self.f[op["id"]] = op["args"]
        elif o == "wellobj":
            self.wobj[op["id"]] = dict(op["args"])
        elif o == "wellobj_set":
            self.wobj[op["id"]].update(op["args"])
        elif o == "model":
            a = {k: v for k, v in op["args"].items() if k != "well"}
            ms = self.m[op["id"]] = MState(dict(self.g[op["grid"]]), self.f[op["fluid"]], a)
            # the clock stands still until the model is constructed where no date is given
            clk = (self.sc.get("clock") or {}).get("start", 1_700_000_000.0)
            ms.sd = a.get("start_date") or datetime.datetime.fromtimestamp(clk, datetime.timezone.utc).strftime("%Y-%m-%d")
            if "well" in op["args"]:
                self.set_well(ms, {"well": op["args"]["well"]})
        elif o == "well":
            self.set_well(self.m[op["m"]], op["args"])
        elif o == "bounds":
            items = op["items"]
            if op.get("hold"):
                items = [list(x) for x in self.held.setdefault(op["hold"], [list(x) for x in items])]
            self.m[op["m"]].R.set_bounds(items)
        elif o == "hold_mutate":
            if op["hold"] not in self.held:
                return
            d = {b: [b, c, v] for b, c, v in self.held[op["hold"]]}
            for b, c, v in op["items"]:
                d[b] = [b, c, v]
            for b in op.get("drop", ()):
                d.pop(b, None)
            self.held[op["hold"]] = list(d.values())
        elif o == "held":
            want = {int(b): [c, float(v)] for b, c, v in self.held.get(op["hold"], ())}
            if r["ret"] != want:
                self.add("caller-object", f"the caller's dictionary became {r['ret']} instead of {want}", i)
        elif o == "bound":
            self.m[op["m"]].R.set_bound(op["b"], op["cond"], op["v"])
        elif o == "boundall":
            ms = self.m[op["m"]]
            ms.R.set_bounds([[b, op["cond"], op["v"]] for b in ms.R.geo.boundary])
        elif o == "props":
            a = op["args"]
            for ms in self.m.values():
                ms.known = False
            g = self.g[op["g"]]
            if a.get("id") is None and a.get("coords") is None:
                g.update({k: v for k, v in a.items() if v is not None})
            elif a.get("id") is not None:
                for k, v in a.items():
                    if k in ("kx", "ky", "kz", "phi", "z") and v is not None:
                        geo = Geo(g)
                        old = g.get(k, 0)
                        l = list(old) if isinstance(old, (list, tuple)) else [old] * geo.N
                        l[a["id"]] = v
                        g[k] = l
        elif o in ("fprops", "mcomp"):
            if o == "fprops":
                self.f[op["f"]] = dict(self.f[op["f"]], **{k: v for k, v in op["args"].items() if v is not None})
            for ms in self.m.values():
                ms.known = False
        if op.get("bad"):
            # the library accepted something the generator thought invalid:
            # the reference does not know what it means
            for ms in self.m.values():
                ms.known = False

    def set_well(self, ms, a):
        a = dict(a)
        if "well" in a:
            w = dict(self.wobj[a.pop("well")])
            if a.get("cell_id") is not None:
                w["cell_id"] = a["cell_id"]
            ms.R.wells.pop(w["cell_id"], None)
            a = w
        ms.R.set_well(**{k: v for k, v in a.items() if k in ("cell_id", "q", "pwf", "r", "s")})
        if a["cell_id"] not in ms.wells:
            ms.wells.append(a["cell_id"])

    # ------------------------------------------------------------------
    def model(self, i, op, r, mid, s, mine):
        ms = self.m.get(mid)
        if ms is None:
            return
        o = op["op"]
        ok = r["status"] == "ok"
        prev = ms.snap
        ms.snap = s
        target = op.get("m") == mid
        # internal consistency of what is shown
        if s["active"] and s.get("comp_name") not in (None, s["active"]):
            self.add("active", f"{mid}: the assigned solution is {s['active']} but the compiler says {s['comp_name']}", i)
            return
        for name, so in s["sols"].items():
            t = so["t"]
            if not (so["n"] == t + 1 == so["p"].shape[0] == so["q"].shape[0]) or any(x != t + 1 for x in so.get("sys", ())):
                self.add("inconsistent", f"{mid}/{name}: step counter {t}, number of steps {so['n']}, "
                         f"{so['p'].shape[0]} pressure rows, {so['q'].shape[0]} rate rows, {so.get('sys')} systems", i)
                return
        if s["active"]:
            t = s["sols"][s["active"]]["t"]
            for c, l in s["wp"].items():
                if len(l) != t + 1:
                    self.add("inconsistent", f"{mid}: well {c} has {len(l)} pressures after step {t}", i)
                    return
        if prev is None:
            if s["active"]:
                ms.wp[s["active"]] = s["wp"]
            for name, so in s["sols"].items():
                if ok:
                    self.start(i, mid, ms, name, so)
            return
        # --- which solution may have grown
        active = prev["active"]
        if o in ("compile", "setsol") and target:
            if ok:
                active = s["active"]
                if o == "setsol" and active != op["name"]:
                    self.add("active", f"{mid}: active solution is {active} instead of {op['name']}", i)
            elif s["active"] != prev["active"]:
                self.add("active", f"{mid}: active solution became {s['active']} by a refused call", i)
        elif s["active"] != prev["active"]:
            self.add("active", f"{mid}: active solution changed from {prev['active']} to {s['active']}", i)
        n = requested(op, prev) if (o in STEP_OPS and target) else 0
        if o == "compile" and target and ok:
            if set(prev["nsol"]) - set(s["nsol"]):
                self.add("solutions", f"{mid}: compiled solutions disappeared: {s['nsol']}", i)
        elif prev["nsol"] != s["nsol"]:
            self.add("solutions", f"{mid}: solutions became {s['nsol']}", i)
        for name, so in s["sols"].items():
            if so["t"] == 0 and (target or o in ("solve", "run")) and ok:
                self.start(i, mid, ms, name, so)
            po = prev["sols"].get(name)
            if po is None or (o == "compile" and target and ok and name == s["active"]):
                if so["t"] != 0:
                    self.add("counts", f"{mid}/{name}: a new solution starts at step {so['t']}", i)
                ms.wp.pop(name, None)
                continue
            grow = so["t"] - po["t"]
            mayg = n if (target and name == (op.get("sol") or prev["active"])) else 0
            if ok and grow != mayg or not ok and not 0 <= grow <= mayg:
                self.add("counts", f"{mid}/{name}: {grow} steps recorded, {mayg} asked ({r['status']})", i)
                return
            # --- history must not move
            k0 = 0
            if po["t"] == 0 and target and ok and o in ("bounds", "bound", "boundall"):
                k0 = 1
            for what in ("p", "q"):
                a, b = po[what][k0:], so[what][k0:po[what].shape[0]]
                if not same(a, b):
                    self.add("history", f"{mid}/{name}: recorded {'pressures' if what == 'p' else 'rates'} changed", i)
                    return
            if grow:
                self.new_steps(i, op, r, mid, ms, name, po, so, s, mine)
        # --- well pressure series
        if s["active"]:
            old = ms.wp.get(s["active"])
            if old is not None:
                for c, l in old.items():
                    new = s["wp"].get(c)
                    k0 = 1 if len(l) == 1 and target and o in ("bounds", "bound", "boundall", "well") else 0
                    if new is None or not eqv(l[k0:], new[k0:len(l)]):
                        self.add("history", f"{mid}: recorded well pressures of well {c} changed", i)
                        break
            ms.wp[s["active"]] = s["wp"]
        if (not target or o in STEP_OPS) and not eqv(prev.get("fit"), s.get("fit")):
            self.add("scalers", f"{mid}: the scalers of the model map values back differently: {str(prev['fit'])[:150]} became {str(s['fit'])[:150]}", i)
        if self.o["settings"]:
            self.settings(i, op, r, mid, prev, s, target, ok)
        if self.o["counts"] and target and o in STEP_OPS and ok and n:
            cap = n * (len(s["wells"]) + 3)
            if r["solves"] > cap:
                self.add("solves", f"{mid}: {r['solves']} linear solves for {n} steps with {len(s['wells'])} wells", i)
        if self.o["solver"] and target and o in STEP_OPS and mine:
            self.solver(i, op, prev, mine)

    @staticmethod
    def shown_bounds(ms, p, k):
        """boundary cells with a fixed pressure show it"""
        for b, (kind, v) in ms.R.given.items():
            if kind == "p" and abs(float(p[b]) - v) > 1e-9 * max(1.0, abs(v)):
                return [("bpressure", f"step {k} boundary {b}: shown with pressure {float(p[b])}, set to {v}")]
        return []

    def start(self, i, mid, ms, name, so):
        """what a simulation without steps shows is its configuration"""
        if not ms.known or not self.o["physics"] or so["t"] != 0:
            return
        p, q = so["p"][0], so["q"][0]
        vs = self.shown_bounds(ms, p, 0)
        pi = ms.m.get("pi")
        if pi is not None:
            got = p[ms.R.geo.interior]
            if not np.all(np.abs(got - pi) <= 1e-9 * max(1.0, abs(pi))):
                vs.append(("initial", f"initial pressures {got.tolist()[:6]} instead of {pi}"))
        for b, (kind, v, c, T) in ms.R.bounds.items():
            if kind == "q" and abs(float(q[b]) - v) > 1e-9 * max(1.0, abs(v)) and c is not None:
                vs.append(("brate", f"boundary {b}: shown with rate {float(q[b])} before the first step, set to {v}"))
                break
        for cls, d in vs[:2]:
            self.add(cls, f"{mid}/{name} {d}", i)

    def new_steps(self, i, op, r, mid, ms, name, po, so, s, mine):
        loose = any(e[3] for e in mine)
        for k in range(po["t"] + 1, so["t"] + 1):
            self.steps += 1
            p1, q1 = so["p"][k], so["q"][k]
            bad = ~np.isfinite(p1[ms.R.geo.interior])
            if bad.any() or not np.all(np.isfinite(q1)):
                self.add("nonfinite", f"{mid} step {k}: values recorded which are not finite", i)
                return
            if not ms.known or not self.o["physics"]:
                continue
            wp = {c: l[k] for c, l in s["wp"].items()} if name == s["active"] else None
            if wp is not None and set(wp) != set(ms.R.wells):
                self.add("wells", f"{mid} step {k}: wells {sorted(wp)} instead of {sorted(ms.R.wells)}", i)
                return
            ms.ck.rt = LOOSE if loose else 1e-6
            try:
                vs = ms.ck.step(so["p"][k - 1], p1, q1, wp, k=k)
            except (np.linalg.LinAlgError, RuntimeError):
                continue
            if loose:
                vs = [x for x in vs if x[0] == "ghost"]
            elif k == so["t"] and r["status"] == "ok" and op.get("args", {}).get("check_MB", True):
                vs += ms.ck.reported(so["mb"], p1, q1, k)
            if self.o["limits"] and wp is not None and not loose:
                vs += ms.ck.constraints(p1, q1, wp, k=k)
            vs += self.shown_bounds(ms, p1, k)
            for cls, d in vs[:3]:
                self.add(cls, f"{mid} {d}", i)
            if vs:
                return

    def settings(self, i, op, r, mid, prev, s, target, ok):
        o = op["op"]
        cfg = target and ok
        if not (cfg and o in ("bounds", "bound", "boundall")) and prev["bdict"] != s["bdict"]:
            self.add("settings", f"{mid}: boundary conditions became {s['bdict']}", i)
        for k in ("sd", "comp"):
            if not eqv(prev[k], s[k]):
                self.add("settings", f"{mid}: {k} became {s[k]}", i)
        if prev["verbose"] != s["verbose"] and not (cfg and o == "verbose"):
            self.add("verbose", f"{mid}: verbose became {s['verbose']}", i)
        if not eqv(prev["scalers"], s["scalers"]) and not (cfg and o in ("scalers", "model")):
            self.add("settings", f"{mid}: scalers became {s['scalers']}", i)
        if not (cfg and o in ("bounds", "bound", "boundall")):
            if not same(prev["ip"], s["ip"]) or not same(prev["iq"], s["iq"]):
                self.add("settings", f"{mid}: initial arrays changed", i)
        po, so = (x["sols"].get(s["active"]) for x in (prev, s))
        same_sol = s["active"] == prev["active"] and po is not None and so is not None and not (o == "compile" and target)
        grew = same_sol and so["t"] > po["t"]
        if same_sol and not grew and o != "check_mb" and not eqv(po["mb"], so["mb"]):
            self.add("mberror", f"{mid}: the reported material balance error became {so['mb']} from {po['mb']} without a step", i)
        if target and grew:
            for c, w in s["wells"].items():
                for k, x in (("q", so["q"][-1][c]), ("pwf", s["wp"][c][-1])):
                    if isinstance(w.get(k), (int, float)) and abs(w[k] - x) > 1e-9 * max(1.0, abs(x)):
                        self.add("settings", f"{mid}: well {c} is shown with {k} {w[k]}, recorded {x}", i)
        own = None
        if cfg and o == "well":
            a = op["args"]
            own = a.get("cell_id")
            if own is None and "well" in a:
                own = self.wobj[a["well"]].get("cell_id")
        for c in set(prev["wells"]) | set(s["wells"]):
            if c == own:
                continue
            a, b = prev["wells"].get(c), s["wells"].get(c)
            if a is None or b is None:
                self.add("settings", f"{mid}: well {c} {'appeared' if a is None else 'disappeared'}", i)
                continue
            for k in STATIC + (() if target and o in STEP_OPS and (grew or op.get("sol")) else SHOWN):
                if not eqv(a.get(k), b.get(k)):
                    self.add("settings", f"{mid}: well {c}: {k} became {b.get(k)} from {a.get(k)}", i)

    def solver(self, i, op, prev, mine):
        a = op.get("args", {})
        sparse = (op.get("sol") or prev["active"]).endswith("True") if prev and prev["active"] else True
        req = a.get("isolver", "cgs" if op["op"] == "solve" or (op["op"] == "run_to" and op.get("single")) else None)
        names = {e[1] for e in mine}
        if not sparse:
            bad = names - {"solve", "npsolve"}
            if bad:
                self.add("solver", f"dense solution solved with {sorted(bad)}", i)
            return
        if req:
            bad = names - {req}
        else:
            bad = names - {"spsolve", "splu", "factorized"}
        if bad:
            self.add("solver", f"solver {sorted(bad)} used, {req or 'direct'} requested", i)

    def table(self, i, op, r):
        mid = op["m"]
        ms = self.m.get(mid)
        s = r.get("snap", {}).get(mid) if r.get("snap") else (ms.snap if ms else None)
        if ms is None or s is None or not s["active"] or r.get("ret") is None or "cols" not in r["ret"]:
            return
        self.checked_tables += 1
        e = Expect(ms.R.geo, s["sols"][s["active"]], s["wp"], list(s["wells"]), ms.dt, ms.sd, s["scalers"],
                   op.get("args", {}), ms.m.get("unit", "field"))
        for cls, d in e.compare(r["ret"])[:2]:
            self.add(cls, f"{mid}: {d}", i)
