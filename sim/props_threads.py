"""C01, C02, C16: worker threads and caller threads."""
import copy

from . import gen
from .gen import pick, rnd
from .props import (
    LINE_EXC, WORKER_EXC, Prop, Walk, calm, compare_ops, current, eq_close, gen_sched, observe, pick_line, queries, reconf, register,
    snap_diff, spec_ok, step_op, steps_idx, to_runto, tolerance, unthread, val_close, df_close, brief,
)


def threaded_ops(r, spec, total, inspect=True):
    """steps and inspections with worker threads"""
    ops = []
    cur = current(spec)
    left = total
    while left:
        k = r.random()
        if inspect and k < 0.3:
            w = pick(r, "cells_eq", "matrices", "matrices")
            o = {"op": "inspect", "m": "m", "what": w, "kw": {"threading": True}}
            if w == "matrices":
                o["vect"] = r.random() < 0.2
            ops.append(o)
        elif k < 0.42:
            ops.append(reconf(r, spec, cur))
        n = r.randint(1, left)
        a = {"vectorize": r.random() < 0.15, "threading": True, "isolver": pick(r, None, None, "cgs", "bicgstab")}
        if r.random() < 0.5:
            ops.append({"op": "solve", "m": "m", "times": n, "args": a})
        else:
            ops.append({"op": "run", "m": "m", "args": dict(a, nsteps=n)})
        left -= n
    return ops


@register
class C01(Prop):
    id = "C01"
    cases = {"quick": 230, "thorough": 30000}
    rule = ("A case is a generated model (1D/2D/3D, wells, boundaries, sparse/dense), a sequence of threaded steps, inspections and "
            "reconfigurations with cold or warmed query caches, and a seeded schedule (random or priority based, line or instruction "
            "granularity); it is compared with the same calls without threads and with the reference model. Non-trivial: at least two "
            "worker threads ran and the schedule switched between threads at least once.")

    def gen(self, r, ctx, i):
        big = r.random() < 0.06
        if big:
            # many workers
            spec = spec_ok(r, dims=pick(r, "x", "x", "xy", "xyz"), wells=r.random() < 0.8, wide=True)
        else:
            spec = spec_ok(r, small=r.random() < 0.8, maxcells=r.choice([2, 3, 4, 4, 6, 9]), wells=r.random() < 0.8)
        ops = spec.ops(sparse=r.random() < 0.6)
        if r.random() < 0.4:
            ops += queries(r, spec, "g", r.randint(1, 10))
        if r.random() < 0.1:
            ops.append({"op": "verbose", "m": "m", "v": True})
        ops += threaded_ops(r, spec, 1 if big else r.randint(1, 3))
        return {"sc": {"ops": ops, "sched": gen_sched(r, 6000), "budget": 2_000_000}}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        base = ctx.run(calm(unthread(sc)))
        w = Walk(sc, main)
        v = w.run()
        if not v:
            v = compare_ops(sc, main, base, tolerance(sc, main, base))
        return v, {"nontrivial": main["nthreads"] > 2 and main["nswitch"] > main["nthreads"], "steps_checked": w.steps,
                   "instruction_granularity": int(sc["sched"].get("gran") == "instr")}


@register
class C02(Prop):
    id = "C02"
    level = "fault_enumeration"
    cases = {"quick": 230, "thorough": 30000}
    rule = ("A case is a model, threaded steps and one to three failures of worker threads: an exception at a point of a worker's execution "
            "(chosen uniformly over the distinct lines the workers executed in a dry run, then over occurrences) or a thread that cannot be "
            "started; each failed request is asked again. Compared with a failure-free unthreaded execution. Non-trivial: a failure fired.")

    def gen(self, r, ctx, i):
        spec = spec_ok(r, small=r.random() < 0.85, maxcells=r.choice([2, 3, 4, 4, 6, 8]), wells=r.random() < 0.8)
        ops = spec.ops(sparse=r.random() < 0.6)
        if r.random() < 0.3:
            ops += queries(r, spec, "g", r.randint(1, 6))
        total = r.randint(1, 3)
        body = threaded_ops(r, spec, total, inspect=r.random() < 0.5)
        ops += to_runto(body, retry=4)
        for o in ops:
            if o["op"] == "inspect":
                o["retry"] = 2
        sched = {"kind": "default"} if r.random() < 0.5 else gen_sched(r, 5000)
        sched["gran"] = "line"
        sc = {"ops": ops, "sched": sched, "faults": [], "budget": 2_000_000}
        prof = ctx.run(sc, profile=True)
        cand = [x for x in prof["recs"] if x["threads"] > 0]
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if not cand:
                break
            rec = pick(r, *cand)
            if r.random() < 0.3:
                sc["faults"].append({"kind": "thread_start", "op": rec["i"], "n": r.randrange(rec["threads"])})
                continue
            at = pick_line(r, prof, rec["i"], lambda t: t > 0)
            if at:
                sc["faults"].append({"kind": "line", "op": rec["i"], "tid": at[0], "n": at[1], "exc": pick(r, *WORKER_EXC)})
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        base = ctx.run(calm(unthread(sc)))
        w = Walk(sc, main)
        v = w.run()
        if not v:
            v = compare_ops(sc, main, base, tolerance(sc, main, base))
        return v, {"nontrivial": bool(main["fired"]), "steps_checked": w.steps, "failures_fired": len(main["fired"]),
                   "requests_raised": sum(x["status"] == "raise" for x in main["recs"])}


@register
class C16(Prop):
    id = "C16"
    cases = {"quick": 200, "thorough": 25000}
    rule = ("A case is two or three caller threads, each building, querying, configuring, stepping and exporting its own model (sharing grid and "
            "fluid, or not), under a seeded schedule; every answer and the final state of each caller are compared with the caller running "
            "alone. In a third of the cases a caller is interrupted inside a query, step or table and asks again. Non-trivial: the schedule switched between callers inside their operations.")

    def gen(self, r, ctx, i):
        shared = r.random() < 0.75
        symb = 0.45
        spec0 = spec_ok(r, small=True, maxcells=r.choice([2, 3, 4, 4, 6]))
        setup = []
        if shared:
            setup = spec0.ops(compile=False)[:2]
        actors = []
        for a in range(r.choice([2, 2, 2, 3])):
            if shared:
                s = copy.deepcopy(spec0)
                s.m = dict(s.m, pi=rnd(r, 2000, 7000, 0), dt=pick(r, 1, 2, 5, 10))
                n = 0
                while True:
                    n += 1
                    cells = r.sample(s.geo.interior, min(len(s.geo.interior), r.choice([0, 1, 2])))
                    ok_w = s.geo.fdir in ("x", "xy", "xyz") and s.g.get("unit", "field") == "field"
                    s.wells = [gen.gen_well(r, s, c, pick(r, "q", "p", "qp")) for c in cells] if ok_w else []
                    from .props import refs_ok

                    if refs_ok(s):
                        break
                    if n > 5:
                        s.wells = []
                        s.bounds = [[s.faces()[0], "pressure", s.m["pi"]]]
            else:
                s = spec_ok(r, small=True, maxcells=r.choice([2, 3, 4, 4, 6]))
            sfx = str(a)
            gid = "g" if shared else "g" + sfx
            ops = s.ops(sfx=sfx, grid="g" if shared else None, fluid="f" if shared else None, sparse=r.random() < 0.6)
            mid = "m" + sfx
            cur = current(s)
            body = []
            left = r.randint(1, 3)
            if r.random() < 0.6:
                body += queries(r, s, gid, r.randint(1, 5))
            while left:
                k = r.random()
                if k < 0.3:
                    body.append(observe(r, s, mid, gid, symb=True))
                elif k < 0.45:
                    body.append(reconf(r, s, cur, mid))
                elif k < 0.5 and shared:
                    body += queries(r, s, gid, 2)
                o = step_op(r, 1, symb=symb, mid=mid, threads=0.25)
                body.append(o)
                left -= 1
            body.append({"op": "df", "m": mid, "args": {"columns": ["time", "cells", "wells"]}})
            actors.append([f"a{a}", ops + body])
        for _, ops in actors:
            for o in ops:
                o.pop("snap", None)
        if r.random() < 0.35:
            # one caller is interrupted and asks again; the others never notice
            for _ in range(r.choice([1, 1, 2])):
                n = r.randrange(len(actors))
                ops = actors[n][1] = to_runto(actors[n][1], mid=f"m{n}")
                prof = ctx.run({"ops": setup + ops, "sched": {"kind": "default"}, "faults": []}, profile=True)
                idx = [j for j, o in enumerate(ops) if o["op"] in ("gq", "inspect", "run_to", "df")]
                if not idx:
                    continue
                j = pick(r, *idx)
                at = pick_line(r, prof, j + len(setup))
                if at:
                    ops[j].update(retry=2, fault={"kind": "line", "n": at[1], "exc": pick(r, *LINE_EXC)})
        sched = gen_sched(r, 8000)
        return {"sc": {"ops": setup, "actors": actors, "sched": sched, "budget": 3_000_000}}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        if main["abort"]:
            return [(main["abort"][0], main["abort"][1][:400])], {}
        v = []
        acts = dict((n, o) for n, o in sc["actors"])
        switched = main["nswitch"] > 2 * len(acts)
        for n, t in main["texc"]:
            v.append(("caller", f"caller {n} died: {t[:200]}"))
        for name, ops in sc["actors"]:
            if v:
                break
            solo_sc = calm({"ops": list(sc["ops"]) + [{x: y for x, y in o.items() if x not in ("fault", "retry")} for o in ops]})
            solo = ctx.run(solo_sc)
            k0 = len(sc["ops"])
            br = {x["i"] - k0: x for x in solo["recs"]}
            rt = tolerance(solo_sc, main, solo)
            ar = {x["i"]: x for x in main["actors"].get(name, [])}
            for j, op in enumerate(ops):
                a, b = ar.get(j), br.get(j)
                if a is None and b is None:
                    continue
                if a is None or b is None or a["status"] != b["status"] or a["exc"] != b["exc"]:
                    v.append(("status", f"{name} op {j} ({op['op']}): {a and (a['status'], a['exc'], a['msg'][:120])}, alone {b and (b['status'], b['exc'])}"))
                    break
                x, y = a["ret"], b["ret"]
                if op["op"] == "inspect" and op["what"] in ("cells_eq", "cell_eq"):
                    ok = eq_close(x, y, max(rt, 1e-9))
                elif op["op"] in ("df", "save") and x is not None:
                    ok = df_close(x, y, rt)
                else:
                    ok = val_close(x, y, rt)
                if not ok:
                    v.append(("answer", f"{name} op {j} ({op['op']} {op.get('what', op.get('name', ''))}): {brief(x)}, alone {brief(y)}"))
                    break
            if not v and solo["recs"] and "snap" in solo["recs"][-1]:
                for mid, s in solo["recs"][-1]["snap"].items():
                    d = snap_diff(main["final"][mid], s, rt, mid) if mid in main["final"] else f"{mid} is missing"
                    if d:
                        v.append(("result", f"{name}: {d}"))
                        break
        return v, {"nontrivial": switched, "callers": len(acts)}
