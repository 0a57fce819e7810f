"""C03, C04, C05, C06, C09, C15, C17: stepping, interruption, reconfiguration, solvers, counts."""
import copy

import numpy as np

from . import gen
from .gen import pick, rnd
from .props import (
    LINE_EXC, Prop, Walk, brief, calm, compare_ops, current, eqv, gen_sched, observe, pick_line, queries, reconf, register, snap_diff, spec_ok,
    step_op, steps_idx, to_runto, tolerance, verge, unthread,
)
from .walk import STEP_OPS


def with_sched(r, sc, length=5000, p=0.5):
    if any(o.get("args", {}).get("threading") or o.get("kw", {}).get("threading") for o in sc["ops"]) and r.random() < p:
        sc["sched"] = gen_sched(r, length)
        sc["sched"]["gran"] = "line"


def mixed(r, spec, total, symb=0.25, obs=0.3, conf=0.3, iterative=True, threads=0.4, mid="m", gid="g", single=None):
    """steps mixed with observations and reconfigurations"""
    cur = current(spec)
    ops = []
    left = total
    while left:
        if r.random() < obs:
            ops.append(observe(r, spec, mid, gid))
        if r.random() < conf:
            for _ in range(r.choice([1, 1, 2])):
                ops.append(reconf(r, spec, cur, mid))
        n = r.randint(1, left)
        ops.append(step_op(r, n, symb=symb, mid=mid, iterative=iterative, threads=threads, single=single))
        left -= n
    if r.random() < 0.04:
        # a long history
        ops.append(step_op(r, r.randint(8, 30) if r.random() < 0.9 else r.randint(60, 120), symb=0.0, mid=mid, iterative=iterative, threads=0.1, single=single))
    return ops


def pick_spec(r, symb_ok=True, **kw):
    """mostly small models; sometimes larger ones stepped without symbolic assembly"""
    k = r.random()
    if k < 0.05 and "dims" not in kw:
        kw.pop("maxcells", None)
        return spec_ok(r, dims=pick(r, "x", "x", "xy", "xyz"), wide=2 if k < 0.02 else True, **kw), 0.0
    if k < 0.3:
        return spec_ok(r, small=False, **kw), 0.0
    spec = spec_ok(r, small=True, maxcells=kw.pop("maxcells", r.choice([3, 4, 6, 6, 10])), **kw)
    # symbolic equations cost most of the time and all of their code runs in small models
    n = len(spec.geo.interior)
    return spec, 0.35 if n <= 4 else 0.2 if n <= 6 else 0.06


def add_faults(r, ctx, sc, n, kinds=("line", "line", "line", "wait", "solver"), idx=None, exc=LINE_EXC, solver_modes=("memory", "interrupt", "linalg")):
    """place n faults inside step requests at points seen in a dry run"""
    prof = ctx.run(sc, profile=True)
    recs = {}
    for x in prof["recs"]:
        recs.setdefault(x["i"], x)
    ids = [j for j in (idx or steps_idx(sc["ops"])) if j in recs]
    for _ in range(n):
        if not ids:
            return
        j = pick(r, *ids)
        k = pick(r, *kinds)
        if k == "line":
            at = pick_line(r, prof, j)
            if at:
                sc["faults"].append({"kind": "line", "op": j, "tid": 0, "n": at[1], "exc": pick(r, *exc)})
        elif k == "wait" and recs[j]["counts"].get("wait"):
            sc["faults"].append({"kind": "wait", "op": j, "n": r.randrange(recs[j]["counts"]["wait"]), "advance": r.choice([0, 1, 5, 20, 100])})
        elif k == "solver" and recs[j]["solves"]:
            sc["faults"].append({"kind": "solver", "op": j, "n": r.randrange(recs[j]["solves"]), "mode": pick(r, *solver_modes),
                                 "i": r.randrange(20), "code": r.randint(1, 50)})


def peeks(sc, main):
    """what the caller sees before and after an attempt that must not change it"""
    for x in main["recs"]:
        if x.get("peek") and not eqv(*[p[1] for p in x["peek"]]):
            a, b = [brief(p[1]) for p in x["peek"]]
            o = sc["ops"][x["i"]]
            return [("left-behind", f"op {x['i']} ({x['op']}, {x['status']}): {o['peek']['what']} is {b} after it and was {a} before")]
    return []


def peek_op(r, symb, **kw):
    w = pick(r, "cells_eq", "matrices", "wells") if symb else pick(r, "matrices", "wells")
    return dict({"what": w, "kw": {"threading": False} if w != "wells" else {}, "vect": r.random() < 0.6 or not symb}, **kw)


@register
class C03(Prop):
    id = "C03"
    level = "fault_enumeration"
    cases = {"quick": 330, "thorough": 60000}
    rule = ("A case is a model, a history of step requests mixed with reconfigurations and tables, and one to four interruptions placed inside the "
            "requests (any line executed in a dry run of the same request: uniform over distinct lines then over occurrences; also while "
            "waiting for workers and inside the linear solver). Every interrupted request is asked again and the history is compared with the "
            "undisturbed one. Non-trivial: an interruption fired inside a step request.")

    def gen(self, r, ctx, i):
        spec, symb = pick_spec(r, wells=r.random() < 0.85)
        ops = spec.ops(sparse=r.random() < 0.65)
        if r.random() < 0.25:
            ops.append({"op": "verbose", "m": "m", "v": True})
        body = mixed(r, spec, r.randint(1, 6), symb=symb, obs=0.2, conf=0.3, threads=0.4)
        ops += to_runto(body, retry=5)
        ops.append({"op": "df", "m": "m", "args": {"columns": ["time", "cells", "wells"]}})
        sc = {"ops": ops, "sched": {"kind": "default"}, "faults": []}
        with_sched(r, sc, p=0.3)
        late = r.random() < 0.3
        if late:
            # the second and later solutions of a step: wells have switched by then
            prof = ctx.run(sc, profile=True)
            many = [(x["i"], x["solves"]) for x in prof["recs"] if x["op"] in STEP_OPS and x["solves"] > 1]
            if many:
                j, n = pick(r, *many)
                sc["faults"].append({"kind": "solver", "op": j, "n": r.randrange(1, n), "mode": pick(r, "memory", "interrupt", "linalg"),
                                     "i": r.randrange(20), "code": r.randint(1, 50)})
        if not late or not sc["faults"] or r.random() < 0.3:
            add_faults(r, ctx, sc, r.choice([1, 1, 2, 3, 4]))
        for j in {f["op"] for f in sc["faults"]}:
            if ops[j].get("op") == "run_to" and r.random() < 0.5:
                # what the caller sees of the model is the same before and after the failed attempt
                ops[j]["peek"] = peek_op(r, symb)
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        base = ctx.run(calm(sc))
        w = Walk(sc, main)
        v = w.run()
        v = v or peeks(sc, main)
        if not v:
            v = compare_ops(sc, main, base, tolerance(sc, main, base))
        if not v:
            # an interruption must reach the caller
            for x in main["recs"]:
                if x["status"] == "ok" and any(f[0] in ("line", "wait") and f[1] in ("KeyboardInterrupt", "") for f in x["faulted"]):
                    v.append(("swallowed", f"op {x['i']} ({x['op']}): an interrupt was delivered but the request returned normally"))
                    break
        hit = sum(1 for x in main["recs"] if x["faulted"] and x["op"] in STEP_OPS)
        mid = sum(1 for x in main["recs"] if x["faulted"] and x["status"] == "raise" and x["solves"] > 0)
        return v, {"nontrivial": hit > 0, "interrupted_requests": hit, "interrupted_after_a_solve": mid, "steps_checked": w.steps}


@register
class C04(Prop):
    id = "C04"
    cases = {"quick": 560, "thorough": 60000}
    rule = ("A case is a model whose steps are requested in a random partition of run and single-step calls with randomly switched storage, "
            "solver, assembly strategy and (scheduled) worker threads, interleaved with observations, trial solves and interrupted "
            "observations; compared step by step with one plain run call. Non-trivial: at least two step requests and one observation or "
            "strategy switch.")

    def gen(self, r, ctx, i):
        spec, symb = pick_spec(r, wells=r.random() < 0.85)
        sparse = r.random() < 0.6
        ops = spec.ops(sparse=sparse)
        if r.random() < 0.15:
            ops.append({"op": "verbose", "m": "m", "v": True})
        total = r.randint(2, 7)
        body = []
        left = total
        while left:
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                o = observe(r, spec)
                o["retry"] = 1
                o["snap"] = True
                if "m" in o and (o["op"] == "solve" or r.random() < 0.3):
                    o["peek"] = peek_op(r, symb, always=True)
                body.append(o)
            n = r.randint(1, min(left, 3))
            body.append(step_op(r, n, symb=symb))
            left -= n
        for _ in range(r.choice([0, 1])):
            body.append(dict(observe(r, spec), snap=True))
        body.append({"op": "df", "m": "m", "args": {"columns": ["time", "cells", "wells"], "drop_zero": False}})
        sc = {"ops": ops + body, "sched": {"kind": "default"}, "faults": []}
        with_sched(r, sc, p=0.4)
        if r.random() < 0.3:
            obs = [j for j, o in enumerate(sc["ops"]) if o.get("retry") == 1]
            if obs:
                add_faults(r, ctx, sc, 1, kinds=("line",), idx=obs)
        return {"sc": sc, "total": total}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        w = Walk(sc, main)
        v = w.run() or peeks(sc, main)
        steps = steps_idx(sc["ops"])
        total = sum(o.get("times", 1) if o["op"] == "solve" else o["args"]["nsteps"] for o in (sc["ops"][j] for j in steps))
        setup = [o for o in sc["ops"] if o.get("must")]
        plain = setup + [{"op": "run", "m": "m", "args": {"nsteps": total, "threading": False, "vectorize": True, "isolver": None}}]
        if sc["ops"][-1]["op"] == "df":
            plain.append(sc["ops"][-1])
        bsc = {"ops": plain, "faults": [], "sched": {"kind": "default"}}
        base = ctx.run(bsc)
        if not v and total and base["recs"] and all(x["status"] == "ok" for x in base["recs"]) and not any(
                x["status"] == "raise" and x["op"] in STEP_OPS for x in main["recs"]):
            a = next((x["snap"]["m"] for x in reversed(main["recs"]) if "snap" in x), None)
            b = next(x["snap"]["m"] for x in reversed(base["recs"]) if "snap" in x)
            a, b = dict(a), dict(b)
            a["verbose"] = b["verbose"] = None
            rt = max(tolerance(sc, main, base), 1e-6)
            d = snap_diff(a, b, rt)
            if d:
                v.append(("result", f"{d} (compared with one plain run of {total} steps)"))
        kinds = {json_key(sc["ops"][j]) for j in steps}
        return v, {"nontrivial": len(steps) > 1 and (len(kinds) > 1 or len(sc["ops"]) > len(setup) + len(steps)), "steps_checked": w.steps,
                   "tables_checked": w.checked_tables}


def json_key(o):
    a = o.get("args", {})
    return (a.get("vectorize"), a.get("threading"), a.get("isolver"))


@register
class C05(Prop):
    id = "C05"
    cases = {"quick": 700, "thorough": 100000}
    rule = ("A case is a generated model (dimensions, heterogeneity, anisotropy, irregular sizes, elevations with gravity, units, wells, boundary "
            "kinds, compressible or not), a history of steps in mixed strategies under seeded schedules with reconfigurations and, in some "
            "cases, interruptions; every recorded step is solved again by the independent reference and its residual, rates and balance are "
            "recomputed from the recorded values. Non-trivial: at least one step with flow was checked.")

    def gen(self, r, ctx, i):
        wells = r.random() < 0.75
        spec, symb = pick_spec(r, wells=wells, synonyms=r.random() < 0.3)
        ops = spec.ops(sparse=r.random() < 0.65, order=r if r.random() < 0.3 else None)
        body = mixed(r, spec, r.randint(1, 6), symb=symb, obs=0.1, conf=0.2)
        sc = {"ops": ops + body, "sched": {"kind": "default"}, "faults": []}
        if r.random() < 0.2:
            sc["ops"] = ops + to_runto(body, retry=4)
            with_sched(r, sc, p=0.4)
            add_faults(r, ctx, sc, r.choice([1, 2]))
        else:
            with_sched(r, sc, p=0.4)
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        w = Walk(sc, main)
        v = w.run()
        flow = 0
        for x in main["recs"]:
            s = x.get("snap", {}).get("m") if x.get("snap") else None
            if s and s["active"]:
                flow = max(flow, float(np.nanmax(np.abs(s["sols"][s["active"]]["q"]))))
        return v, {"nontrivial": w.steps > 0 and flow > 0, "steps_checked": w.steps, "models_3d": int(sum(sc["ops"][0]["args"].get("n" + a, 1) > 1 for a in "xyz") == 3),
                   "models_with_gravity": int(isinstance(sc["ops"][0]["args"].get("z"), list))}


@register
class C06(Prop):
    id = "C06"
    cases = {"quick": 450, "thorough": 90000}
    rule = ("A case is a model with one to five wells under rate and pressure limits whose boundaries and limits are changed between steps so that "
            "wells switch control in both directions, some of them in the same step, with interruptions in some cases; both limits and the "
            "deliverability relation are checked at every recorded step and against the reference. Non-trivial: some well changed control "
            "between two recorded steps or was limited by pressure.")

    def gen(self, r, ctx, i):
        nw = r.choice([1, 1, 2, 2, 3, 4, 5])
        big = r.random() < 0.3
        spec = spec_ok(r, small=not big, maxcells=None if big else 10, wells=True, nwells=nw, wellkinds=("qp", "qp", "qp", "qp", "q", "p"))
        symb = 0.0 if big else 0.3
        if r.random() < 0.35:
            verge(r, spec)
        ops = spec.ops(sparse=r.random() < 0.65)
        cur = current(spec)
        pi = spec.m["pi"]
        body = []
        for _ in range(r.randint(2, 6)):
            if body and r.random() < 0.6:
                k = r.random()
                ws = [w for w in cur["wells"]]
                ps = [b for b in cur["bounds"] if b[1][0].lower() == "p"]
                if k < 0.35 and ps:
                    # swing the support: wells run into their limits, or recover
                    b = pick(r, *ps)
                    v = rnd(r, 0.35 * pi, 1.5 * pi, 0)
                    b[2] = v
                    body.append({"op": "bound", "m": "m", "b": b[0], "cond": b[1], "v": v})
                elif k < 0.8 and ws:
                    w = pick(r, *ws)
                    ch = {"cell_id": w["cell_id"]}
                    if r.random() < 0.5 and "q" in w:
                        ch["q"] = round(w["q"] * pick(r, 0.05, 0.2, 0.5, 2, 5, 20), 4)
                    else:
                        ch["pwf"] = rnd(r, 0.1 * pi, 0.99 * pi, 0)
                    w.update(ch)
                    body.append({"op": "well", "m": "m", "args": ch})
                else:
                    body.append(reconf(r, spec, cur))
            body.append(step_op(r, r.randint(1, 3), symb=symb, threads=0.3))
        sc = {"ops": ops + body, "sched": {"kind": "default"}, "faults": []}
        if r.random() < 0.25:
            sc["ops"] = ops + to_runto(body, retry=4)
            add_faults(r, ctx, sc, r.choice([1, 2]))
        with_sched(r, sc, p=0.2)
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        w = Walk(sc, main)
        v = w.run()
        sw, lim, both = switches(main)
        return v, {"nontrivial": sw > 0 or lim > 0, "control_switches": sw, "steps_at_limit": lim, "steps_with_two_switches": both, "steps_checked": w.steps}


def switches(rec, mid="m"):
    """control changes between consecutive recorded steps, from the recorded rates"""
    last, sw, lim, both = {}, 0, 0, 0
    seen = 0
    for x in rec["recs"]:
        s = x.get("snap", {}).get(mid) if x.get("snap") else None
        if not s or not s["active"]:
            continue
        so = s["sols"][s["active"]]
        for k in range(seen + 1, so["t"] + 1):
            n = 0
            for c, w in s["wells"].items():
                if w.get("q_sp") is None:
                    continue
                q = so["q"][k][c]
                ctl = "q" if abs(q - w["q_sp"]) <= 1e-7 * abs(w["q_sp"]) + 1e-9 else "pwf"
                lim += ctl == "pwf"
                if c in last and last[c] != ctl:
                    n += 1
                last[c] = ctl
            sw += n
            both += n > 1
        seen = max(seen, so["t"])
    return sw, lim, both


@register
class C09(Prop):
    id = "C09"
    cases = {"quick": 400, "thorough": 80000}
    rule = ("A case is a model that is reconfigured between its steps (boundaries replaced, added or changed in kind, wells added, rate, pressure "
            "limit, radius or skin changed, well objects, two solutions) with the stepping strategy switched around each change and some "
            "interruptions; each later step is compared with the reference step of the new configuration from the recorded state, and all "
            "rows already recorded must stay bit-identical. Non-trivial: a step was checked after a configuration change made after step 1.")

    def gen(self, r, ctx, i):
        wells = r.random() < 0.85
        spec, symb = pick_spec(r, wells=wells, synonyms=r.random() < 0.3)
        ops = spec.ops(sparse=r.random() < 0.65, order=r if r.random() < 0.35 else None)
        cur = current(spec)
        body = []
        two = r.random() < 0.2
        if two:
            body.append({"op": "compile", "m": "m", "args": {"sparse": not next(o for o in ops if o["op"] == "compile")["args"]["sparse"]}})
        names = ["BlackOil-numerical-FDM-True", "BlackOil-numerical-FDM-False"]
        for n in range(r.randint(2, 5)):
            if two and r.random() < 0.5:
                body.append({"op": "setsol", "m": "m", "name": pick(r, *names)})
            body.append(step_op(r, r.randint(1, 2), symb=symb))
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                body.append(reconf(r, spec, cur))
            if r.random() < 0.2:
                body.append(observe(r, spec))
        body.append(step_op(r, r.randint(1, 3), symb=symb))
        sc = {"ops": ops + body, "sched": {"kind": "default"}, "faults": []}
        if r.random() < 0.2 and not two:
            sc["ops"] = ops + to_runto(body, retry=4)
            add_faults(r, ctx, sc, 1)
        with_sched(r, sc, p=0.2)
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        w = Walk(sc, main)
        v = w.run()
        first = next((j for j in steps_idx(sc["ops"])), None)
        n = 0
        conf = False
        for j, o in enumerate(sc["ops"]):
            if first is not None and j > first and o["op"] in ("well", "bound", "bounds", "boundall"):
                conf = True
            if conf and o["op"] in STEP_OPS:
                n += 1
        return v, {"nontrivial": n > 0, "requests_after_change": n, "steps_checked": w.steps}


SOLVER_MODES = ["nonconv", "nonconv", "breakdown", "breakdown", "nan", "inf", "-inf", "memory", "linalg"]


@register
class C15(Prop):
    id = "C15"
    level = "fault_enumeration"
    cases = {"quick": 520, "thorough": 80000}
    rule = ("A case is a model and step requests with every solver the library offers, where one to four linear solves (any ordinal, also the "
            "repeated solve after a well switches) report non-convergence, break down, fail or return non-finite values; the failed request is "
            "asked again with a healthy solver and the history is compared with the fault-free one. Non-trivial: a solver fault fired.")

    def gen(self, r, ctx, i):
        spec, symb = pick_spec(r, wells=r.random() < 0.85)
        sparse = r.random() < 0.75
        ops = spec.ops(sparse=sparse)
        body = mixed(r, spec, r.randint(1, 6), symb=symb * 0.6, obs=0.1, conf=0.2, threads=0.2)
        for o in body:
            if o["op"] in STEP_OPS and o.get("args", {}).get("update", True) is not False:
                o["args"]["isolver"] = pick(r, None, "cgs", "cgs", "bicgstab", "gmres", "bicg", "lgmres", "gcrotmk", "qmr", "tfqmr")
        ops += to_runto(body, retry=5)
        sc = {"ops": ops, "sched": {"kind": "default"}, "faults": []}
        add_faults(r, ctx, sc, r.choice([1, 1, 2, 3]), kinds=("solver",), solver_modes=SOLVER_MODES)
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        base = ctx.run(calm(sc))
        w = Walk(sc, main)
        v = w.run()
        if not v:
            for x in main["recs"]:
                if x["status"] == "ok" and any(f[0] == "solver" for f in x["faulted"]) and sc["ops"][x["i"]].get("args", {}).get("update", True) is not False:
                    v.append(("recorded", f"op {x['i']} ({x['op']}): the solver failed ({[f[1] for f in x['faulted']]}) but the request returned normally"))
                    break
        if not v:
            v = compare_ops(sc, main, base, tolerance(sc, main, base))
        return v, {"nontrivial": bool(main["fired"]), "steps_checked": w.steps, "solver_faults": len(main["fired"])}


@register
class C17(Prop):
    id = "C17"
    cases = {"quick": 330, "thorough": 60000}
    rule = ("A case is a model with wells on the verge of switching control, verbose on or off, and run/solve requests (including zero steps) of which "
            "some are interrupted or hit a failing solver; counters and the length of every recorded series, the number of linear solves per "
            "step, the display setting and the time totals are checked after every request. Non-trivial: at least three steps, or a failed request.")

    def gen(self, r, ctx, i):
        spec, symb = pick_spec(r, wells=r.random() < 0.9, nwells=r.choice([1, 2, 3, 4]))
        if r.random() < 0.3:
            verge(r, spec)
        ops = spec.ops(sparse=r.random() < 0.65)
        cur = current(spec)
        body = []
        for _ in range(r.randint(2, 6)):
            k = r.random()
            if k < 0.2:
                body.append({"op": "verbose", "m": "m", "v": r.random() < 0.6})
            elif k < 0.4 and body:
                body.append(reconf(r, spec, cur))
            elif k < 0.45:
                body.append(observe(r, spec))
            body.append(step_op(r, r.choice([0, 1, 1, 2, 3, 4]), symb=symb))
        sc = {"ops": ops + body, "sched": {"kind": "default"}, "faults": [],
              "clock": {"start": 1_700_000_000 + r.randrange(10 ** 7), "tick": pick(r, 0.001, 0.3, 7.0)}}
        with_sched(r, sc, p=0.2)
        if r.random() < 0.6:
            add_faults(r, ctx, sc, r.choice([1, 2, 3]), solver_modes=("memory", "interrupt", "linalg", "nan", "nonconv"))
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        w = Walk(sc, main)
        v = w.run()
        prev = 0.0
        failed = 0
        if not v:
            for x in main["recs"]:
                s = x.get("snap", {}).get("m") if x.get("snap") else None
                if not s or not s["active"]:
                    continue
                if s["ctime"] < prev - 1e-9:
                    v.append(("time", f"op {x['i']} ({x['op']}): total time fell from {prev} to {s['ctime']}"))
                    break
                if x["op"] == "run" and x["status"] == "ok" and abs(s["ctime"] - prev - s["rtime"]) > 1e-6 * (1.0 + s["ctime"]):
                    v.append(("time", f"op {x['i']} (run): took {s['rtime']} but the total time went from {prev} to {s['ctime']}"))
                    break
                prev = s["ctime"]
                failed += x["status"] == "raise"
        return v, {"nontrivial": w.steps >= 3 or failed > 0, "steps_checked": w.steps, "failed_requests": failed,
                   "solves": main["counters"].get("solves", 0)}
