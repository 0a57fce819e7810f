"""The properties: how their cases are made and what decides them."""
import copy
import random

import numpy as np

from . import gen
from .gen import pick, rnd
from .ref import RefModel
from .walk import Walk, STEP_OPS, eqv, same  # noqa: F401

LINE_EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "MemoryError", "RuntimeError", "OSError"]
WORKER_EXC = ["MemoryError", "RuntimeError", "OSError", "ValueError"]
STRICT = 1e-9


# --------------------------------------------------------------------------
# comparison of two executions
# --------------------------------------------------------------------------
def num_close(a, b, rt, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    if a.size == 0 or na.all():
        return True
    x, y = a[~na], b[~na]
    if scale is None:
        f = np.abs(y[np.isfinite(y)])
        scale = max(1e-9, float(f.max()) if f.size else 1.0)
    with np.errstate(invalid="ignore"):
        return bool(np.all((x == y) | (np.abs(x - y) <= rt * scale)))


def val_close(a, b, rt, scale=None):
    """recursively compare plain values, numbers with tolerance"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            return num_close(a, b, rt, scale)
        except (TypeError, ValueError):
            return eqv(a, b)
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return num_close(a, b, rt, scale)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(val_close(a[k], b[k], rt, scale) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(val_close(x, y, rt, scale) for x, y in zip(a, b))
    return a == b


def eq_close(a, b, rt):
    """flow equations {cell: (coefficients, rhs)}"""
    if not isinstance(a, dict) or not isinstance(b, dict) or a.keys() != b.keys():
        return False
    for c in a:
        (l1, r1), (l2, r2) = a[c], b[c]
        keys = {k for k, v in l1.items() if v != 0} | {k for k, v in l2.items() if v != 0}
        sc = max([abs(v) for v in l2.values()] + [1e-12])
        for k in keys:
            if abs(l1.get(k, 0.0) - l2.get(k, 0.0)) > rt * sc:
                return False
        if abs(r1 - r2) > rt * (abs(r2) + sc):
            return False
    return True


def uses_iter(ops):
    for o in ops:
        if o["op"] in STEP_OPS:
            a = o.get("args", {})
            if a.get("isolver", "cgs" if o["op"] == "solve" else None):
                return True
    return False


def any_loose(*recs):
    return any(e[3] for r in recs for e in r["solver_log"])


def tolerance(sc, *recs):
    if any_loose(*recs):
        return 1.0
    ops = list(sc.get("ops", []))
    for _, l in sc.get("actors", []):
        ops += l
    return 1e-6 if uses_iter(ops) else 1e-7


def snap_diff(a, b, rt, mid="m", settings=True, wells=True):
    """first difference between two model snapshots, or None"""
    for name in b["sols"]:
        if name not in a["sols"]:
            return f"{mid}: solution {name} is missing"
        x, y = a["sols"][name], b["sols"][name]
        if x["t"] != y["t"] or x["n"] != y["n"] or x["p"].shape != y["p"].shape:
            return f"{mid}/{name}: step {x['t']} (rows {x['p'].shape[0]}), expected step {y['t']} (rows {y['p'].shape[0]})"
        ps = float(np.nanmax(np.abs(y["p"]))) if np.isfinite(y["p"]).any() else 1.0
        if not num_close(x["p"], y["p"], rt, ps):
            return f"{mid}/{name}: pressures differ {where(x['p'], y['p'])}"
        qs = max(1.0, float(np.nanmax(np.abs(y["q"]))) if y["q"].size else 1.0)
        if not num_close(x["q"], y["q"], max(rt, 1e-7) * 50, qs):
            return f"{mid}/{name}: rates differ {where(x['q'], y['q'])}"
    if wells and a["active"] == b["active"] and a["active"]:
        if set(a["wp"]) != set(b["wp"]):
            return f"{mid}: wells {sorted(a['wp'])} instead of {sorted(b['wp'])}"
        for c in b["wp"]:
            x, y = np.array(a["wp"][c], float), np.array(b["wp"][c], float)
            ps = max(1.0, float(np.nanmax(np.abs(y))) if np.isfinite(y).any() else 1.0)
            if not num_close(x, y, max(rt, 1e-7) * 20, ps):
                return f"{mid}: pressures of well {c} differ {where(x, y)}"
    if settings:
        for k in ("active", "verbose", "bdict", "sd", "comp", "nsol", "comp_name"):
            if not eqv(a[k], b[k]):
                return f"{mid}: {k} is {a[k]} instead of {b[k]}"
        if not eqv(a["scalers"], b["scalers"]):
            return f"{mid}: scalers are {a['scalers']} instead of {b['scalers']}"
        if not same(a["ip"], b["ip"]) or not val_close(a["iq"], b["iq"], 1e-12):
            return f"{mid}: initial arrays differ"
        if set(a["wells"]) != set(b["wells"]):
            return f"{mid}: wells {sorted(a['wells'])} instead of {sorted(b['wells'])}"
        for c in b["wells"]:
            for k in ("q_sp", "pwf_sp", "r", "s", "r_eq", "G"):
                if not val_close(a["wells"][c].get(k), b["wells"][c].get(k), 1e-12):
                    return f"{mid}: well {c}: {k} is {a['wells'][c].get(k)} instead of {b['wells'][c].get(k)}"
    return None


def where(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(invalid="ignore"):
        d = np.abs(np.nan_to_num(a, nan=1e300, posinf=1e301, neginf=-1e301) - np.nan_to_num(b, nan=1e300, posinf=1e301, neginf=-1e301))
    i = np.unravel_index(int(np.argmax(d)), d.shape)
    return f"at {tuple(int(x) for x in i)}: {a[i]:.9g} instead of {b[i]:.9g}"


def last_by_op(rec):
    out = {}
    for r in rec["recs"]:
        out[r["i"]] = r
    return out


def compare_ops(sc, main, base, rt, only=None, settings=True, idx=None, rets=("inspect", "gq", "df", "save", "held", "solutions")):
    """Compare main to base operation by operation (last attempt of each)."""
    out = []
    A, B = last_by_op(main), last_by_op(base)
    for i, op in enumerate(sc["ops"]):
        j = i if idx is None else idx.get(i)
        if j is None or (only is not None and not only(op)):
            continue
        a, b = A.get(i), B.get(j)
        if b is None:
            continue
        if a is None:
            out.append(("missing", f"op {i} ({op['op']}) was never reached"))
            break
        if a["status"] != b["status"]:
            if a["status"] == "raise" and any_loose(main):
                break
            if a["status"] == "raise":
                out.append(("status", f"op {i} ({op['op']}): raised {a['exc']}: {a['msg'][:140]}"))
            else:
                out.append(("status", f"op {i} ({op['op']}): succeeded, {b['exc']} expected"))
            break
        if op["op"] in rets and a["status"] == "ok":
            x, y = a["ret"], b["ret"]
            if op["op"] == "inspect" and op["what"] in ("cells_eq", "cell_eq"):
                ok = eq_close(x, y, max(rt, STRICT))
            elif op["op"] in ("df", "save"):
                ok = df_close(x, y, rt)
            else:
                ok = val_close(x, y, rt)
            if not ok:
                out.append(("answer", f"op {i} ({op['op']} {op.get('what', op.get('name', ''))}): different answer: {brief(x)} instead of {brief(y)}"))
                break
        if "snap" in a and "snap" in b:
            d = None
            for mid in b["snap"]:
                if mid in a["snap"]:
                    d = snap_diff(a["snap"][mid], b["snap"][mid], rt, mid, settings)
                    if d:
                        break
            if d:
                out.append(("result", f"op {i} ({op['op']}): {d}"))
                break
    return out


def df_close(x, y, rt):
    if x is None or y is None:
        return x == y
    if x["cols"] != y["cols"] or len(x["vals"]) != len(y["vals"]) or x["index"] != y["index"]:
        return False
    for j, c in enumerate(x["cols"]):
        u = [r[j] for r in x["vals"]]
        v = [r[j] for r in y["vals"]]
        if v and isinstance(v[0], str):
            if u != v:
                return False
            continue
        u = [np.nan if q is None else q for q in u]
        v = [np.nan if q is None else q for q in v]
        sc = max([1.0] + [abs(q) for q in v if q == q and abs(q) != np.inf])
        if not num_close(u, v, max(rt, 1e-9) * 50, sc):
            return False
    return True


def brief(x):
    s = str(x).replace("\n", " ")
    return s if len(s) < 160 else s[:157] + "..."


def calm(sc, **kw):
    """the same scenario without faults, default schedule"""
    b = copy.deepcopy(sc)
    b["faults"] = []
    b["sched"] = {"kind": "default"}
    b.update(kw)
    return b


def unthread(sc):
    b = copy.deepcopy(sc)
    for o in b["ops"]:
        for d in (o.get("args"), o.get("kw")):
            if isinstance(d, dict) and "threading" in d:
                d["threading"] = False
    return b


def gen_sched(r, length=3000, threads=True):
    if not threads:
        return {"kind": "default"}
    k = r.random()
    gran = "instr" if r.random() < 0.25 else "line"
    if k < 0.6:
        return {"kind": "random", "seed": r.randrange(1 << 30), "p": pick(r, 0.01, 0.05, 0.2, 0.5), "gran": gran}
    return {"kind": "pct", "seed": r.randrange(1 << 30), "d": r.randint(1, 6), "len": length * (3 if gran == "instr" else 1), "gran": gran}


def line_sites(rec, op, want_tid):
    """(tid, ordinal, line id) of deliverable line events of one operation"""
    out = {}
    seen = {}
    for tid, lid in rec["prof"].get(op, ()):
        n = seen.get(tid, 0)
        seen[tid] = n + 1
        if lid > 0 and want_tid(tid):
            out.setdefault(lid, []).append((tid, n))
    return out


def pick_line(r, rec, op, want_tid=lambda t: t == 0, keep=None):
    sites = line_sites(rec, op, want_tid)
    if keep is not None:
        sites = {l: v for l, v in sites.items() if keep(rec["lines"][l - 1])}
    if not sites:
        return None
    # every distinct line of code is equally likely, then its occurrence
    lid = pick(r, *sorted(sites))
    tid, n = pick(r, *sites[lid])
    return tid, n


def refs_ok(spec):
    """the generated model has a well-posed step"""
    try:
        R = spec.ref()
        x = R.step(np.full(len(R.geo.interior), float(spec.m["pi"])) if R.comp else np.zeros(len(R.geo.interior)))
        return bool(np.all(np.isfinite(x[0]))) and x[5] < 1e9
    except (np.linalg.LinAlgError, RuntimeError):
        return False


def verge(r, spec):
    """give one well a target just above or below what its pressure limit allows in the first step"""
    ws = [w for w in spec.wells if "q" in w]
    if not ws:
        return
    w = pick(r, *ws)
    if r.random() < 0.3:
        w.pop("pwf", None)
    R = spec.ref()
    R.wells[w["cell_id"]] = {k: v for k, v in R.wells[w["cell_id"]].items() if k != "q"}
    if "pwf" not in w:
        R.wells[w["cell_id"]]["pwf"] = 0.0
    try:
        x = R.step(np.full(len(R.geo.interior), float(spec.m["pi"])) if R.comp else np.zeros(len(R.geo.interior)))
    except (np.linalg.LinAlgError, RuntimeError):
        return
    q = x[1][w["cell_id"]]
    new = round(q * (1 + pick(r, -1e-4, -1e-3, -1e-2, 1e-4, 1e-3, 1e-2)), 8)
    old = w["q"]
    if abs(new) > 1e-3:
        w["q"] = new
        if not refs_ok(spec):
            w["q"] = old


def spec_ok(r, **kw):
    while True:
        s = gen.gen_spec(r, **kw)
        if refs_ok(s):
            return s


def queries(r, spec, gid, n, keep=None):
    out = []
    for j in range(n):
        q = gen.gen_query(r, spec)
        o = {"op": "gq", "g": gid, "name": q["name"], "a": q["a"], "kw": q["kw"], "snap": False, "may": True}
        out.append(o)
    return out


def observe(r, spec, mid="m", gid="g", symb=True):
    """one call that only looks"""
    k = r.random()
    if k < 0.35:
        return {"op": "df", "m": mid, "args": gen.gen_df_args(r)}
    if k < 0.6:
        return queries(r, spec, gid, 1)[0]
    if k < 0.7:
        return {"op": "solve", "m": mid, "args": {"update": False, "vectorize": r.random() < 0.7 or not symb, "threading": False,
                                                 "isolver": None}}
    w = pick(r, "trans", "trans_diag", "cell_trans", "shape", "alpha", "report", "time", "centers", "domain", "init", *(["cells_eq", "cell_eq", "matrices"] if symb else ["matrices"]))
    o = {"op": "inspect", "m": mid, "what": w, "kw": {}}
    ge = spec.geo
    if w == "trans":
        o["kw"] = {"boundary": False, "sparse": r.random() < 0.5, "vectorize": r.random() < 0.5}
    elif w == "trans_diag":
        o["kw"] = {"boundary": r.random() < 0.3, "diag_n": r.randint(1, len(ge.fdir))}
        o["may"] = True     # boundary=True is not offered for all
    elif w == "cell_trans":
        o["kw"] = {"cell_id": pick(r, *ge.interior), "boundary": r.random() < 0.5}
    elif w == "cell_eq":
        o["kw"] = {"cell_id": pick(r, *ge.interior)}
    elif w == "cells_eq":
        o["kw"] = {"threading": r.random() < 0.4}
    elif w == "matrices":
        o["vect"] = r.random() < 0.6 or not symb
        o["kw"] = {"threading": r.random() < 0.3}
    elif w == "shape":
        o["kw"] = {"boundary": r.random() < 0.5}
    elif w == "time":
        o["kw"] = {"scale": r.random() < 0.3}
    elif w == "centers":
        o["kw"] = {"scale": r.random() < 0.5, "boundary": True}
    elif w == "domain":
        o["kw"] = {"scale": r.random() < 0.3, "boundary": True}
    elif w == "alpha":
        o["may"] = True     # needs compressibility and permeability along x
    elif w == "report" and r.random() < 0.6:
        o["kw"] = {"prop": pick(r, "dt", "n", "wells", "nonsense")}
    return o


def flavour(r, op):
    """sometimes the numbers come as numpy scalars"""
    if r.random() < 0.06:
        op["np"] = True
    return op


def reconf(r, spec, cur, mid="m", well_ok=True):
    """One configuration change.  `cur` tracks bounds/wells so models stay well posed."""
    pi = spec.m["pi"]
    ge = spec.geo
    faces = spec.faces()
    inc = not spec.f.get("comp") and not spec.g.get("comp")
    Rm = RefModel(spec.g, spec.f, spec.m)

    def cond(b, force=None):
        own, ax = ge.boundary_owner(b)
        T = ge.face_G(own, b, ax) / (Rm.mu * Rm.B)
        kd = force or pick(r, "p", "p", "q", "g")
        if kd == "p":
            return [b, pick(r, "pressure", "press", "p", "Pressure"), rnd(r, 0.6 * pi, 1.2 * pi, 0) if r.random() > 0.05 else pick(r, 0, 0.0, 14.7)]
        if kd == "q":
            return [b, pick(r, "rate", "q", "RATE"), 0 if r.random() < 0.4 else round(T * pi * r.uniform(-0.04, 0.04), 4)]
        return [b, pick(r, "gradient", "grad", "g"), rnd(r, -0.2, 0.2, 4)]

    k = r.random()
    first = cur.get("first")
    if first and r.random() < 0.12:
        # back to what it was in the beginning
        back = []
        if well_ok:
            back += [("well", w, o) for w in first["wells"] for o in cur["wells"] if o["cell_id"] == w["cell_id"] and o != w]
        now = {b[0]: b for b in cur["bounds"]}
        if cur["bounds"] != first["bounds"] and first["bounds"]:
            back.append(("bounds", first["bounds"], None))
        if not inc:
            back += [("bound", b, None) for b in first["bounds"] if now.get(b[0]) not in (None, b)] * 2
        if back:
            kd, x, old = pick(r, *back)
            if kd == "well":
                x = {n: v for n, v in x.items() if not (n == "q" and inc and "q" not in old)}
                old.update(x)
                return flavour(r, {"op": "well", "m": mid, "args": dict(x)})
            if kd == "bounds":
                cur["bounds"] = [list(b) for b in x]
                return {"op": "bounds", "m": mid, "items": [list(b) for b in x]}
            now[x[0]] = list(x)
            cur["bounds"] = list(now.values())
            return flavour(r, {"op": "bound", "m": mid, "b": x[0], "cond": x[1], "v": x[2]})
    if well_ok and spec.m.get("unit", "field") == "field" and spec.geo.fdir in ("x", "xy", "xyz") and k < 0.55:
        have = [w["cell_id"] for w in cur["wells"]]
        free = [c for c in ge.interior if c not in have]
        if have and (r.random() < 0.65 or not free):
            c = pick(r, *have)
            old = next(w for w in cur["wells"] if w["cell_id"] == c)
            new = gen.gen_well(r, spec, c, pick(r, "q", "p", "qp"))
            ch = {"cell_id": c}
            keys = r.sample(["q", "pwf", "r", "s"], r.randint(1, 3))
            if "q" not in old and "q" in keys and inc:
                keys = [x for x in keys if x != "q"] or ["s"]
            for x in keys:
                if x in ("r", "s"):
                    ch[x] = new[x]
                elif x == "q":
                    ch["q"] = new.get("q", gen.gen_well(r, spec, c, "q")["q"])
                    t = r.random()
                    if t < 0.12 and (not inc or old.get("pwf")):
                        ch["q"] = pick(r, 0, 0.0)
                    elif t < 0.2 and old.get("q") and not inc:
                        ch["q"] = -old["q"]
                elif r.random() < 0.08:
                    ch["pwf"] = 0
                else:
                    ch["pwf"] = new.get("pwf", rnd(r, 0.3 * pi, 0.95 * pi, 0))
            old.update(ch)
            return flavour(r, {"op": "well", "m": mid, "args": ch})
        if free:
            c = pick(r, *free)
            w = gen.gen_well(r, spec, c, pick(r, "q", "p", "qp", "qp"))
            cur["wells"].append(dict(w))
            return flavour(r, {"op": "well", "m": mid, "args": w})
    have = dict((b[0], b) for b in cur["bounds"])
    if k < 0.75:
        b = pick(r, *faces)
        np_ = [x for x in cur["bounds"] if x[1][0].lower() == "p"]
        force = "p" if inc and (not np_ or (len(np_) == 1 and np_[0][0] == b)) else None
        c = cond(b, force)
        have[b] = c
        cur["bounds"] = list(have.values())
        return flavour(r, {"op": "bound", "m": mid, "b": c[0], "cond": c[1], "v": c[2]})
    if k < 0.93 or inc:
        bs = r.sample(faces, r.randint(1, min(4, len(faces))))
        items = [cond(b, "p" if inc and n == 0 else None) for n, b in enumerate(bs)]
        cur["bounds"] = items
        return {"op": "bounds", "m": mid, "items": items}
    kd = pick(r, "p", "q0")
    if kd == "p":
        o = {"op": "boundall", "m": mid, "cond": "pressure", "v": rnd(r, 0.7 * pi, 1.1 * pi, 0)}
    else:
        o = {"op": "boundall", "m": mid, "cond": "rate", "v": 0}
    cur["bounds"] = [[b, o["cond"], o["v"]] for b in faces]
    return o


def current(spec):
    c = {"wells": [dict(w) for w in spec.wells], "bounds": [list(b) for b in spec.bounds]}
    return dict(c, first={n: [dict(x) if n == "wells" else list(x) for x in v] for n, v in c.items()})


def step_op(r, n, symb=0.25, mid="m", iterative=True, threads=0.4, single=None, mb=True):
    a = {"vectorize": r.random() >= symb, "threading": r.random() < threads}
    a["isolver"] = pick(r, *gen.ISOLV) if iterative else None
    if mb and r.random() < 0.2:
        a["check_MB"] = False
    if symb and r.random() < 0.06:
        a["print_arrays"] = True
    if single if single is not None else r.random() < 0.4:
        return {"op": "solve", "m": mid, "times": n, "args": a}
    return {"op": "run", "m": mid, "args": dict(a, nsteps=n)}


def to_runto(ops, mid="m", retry=3, t0=0):
    """rewrite step requests as 'bring the model to step k', asked again after a failure"""
    t = t0
    out = []
    for o in ops:
        if o["op"] == "solve" and o.get("args", {}).get("update", True) is not False and o["m"] == mid:
            t += o.get("times", 1)
            out.append({"op": "run_to", "m": mid, "target": t, "single": True, "args": o["args"], "retry": retry})
        elif o["op"] == "run" and o["m"] == mid:
            t += o["args"]["nsteps"]
            out.append({"op": "run_to", "m": mid, "target": t, "args": {k: v for k, v in o["args"].items() if k != "nsteps"}, "retry": retry})
        else:
            out.append(o)
    return out


def steps_idx(ops):
    return [i for i, o in enumerate(ops) if o["op"] in STEP_OPS and o.get("args", {}).get("update", True) is not False]


class Prop:
    id = ""
    level = "exploration"
    cases = {"quick": 200, "thorough": 20000}
    rule = ""
    assumptions = [
        "Pre-emption, interrupts and failures are injected between source lines or bytecode instructions of repository code and at the seams "
        "(pool, locks, clock, solver, files); a pre-emption inside a single C call of numpy, scipy, sympy or pandas is not modelled.",
        "A second fault inside except/finally clean-up code is outside the fault model.",
        "The linear solvers of scipy are trusted to solve the system they are given (or to report that they did not).",
    ]

    def gen(self, r, ctx, i):
        raise NotImplementedError

    def check(self, case, ctx):
        raise NotImplementedError


BY_ID = {}


def register(cls):
    BY_ID[cls.id] = cls()
    return cls


from . import props_threads, props_steps, props_shared, props_io, props_env, props_ckpt, props_proc, props_draw  # noqa: E402,F401
