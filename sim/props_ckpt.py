"""C19: models pickled, copied, and taken up again by another process."""
import copy

from . import gen
from .gen import pick
from .props import Prop, compare_ops, current, observe, queries, reconf, register, step_op, tolerance
from .props_steps import mixed, pick_spec, with_sched
from .walk import Walk


def renamed(o, sfx):
    """the operation on the copy of the model"""
    o = copy.deepcopy(o)
    for k in ("m", "g"):
        if k in o:
            o[k] += sfx
    return o


@register
class C19(Prop):
    id = "C19"
    level = "fault_enumeration"
    cases = {"quick": 260, "thorough": 60000}
    rule = ("A case is a history during which the model is pickled one to three times, also right after a request that failed; the process then "
            "goes on (steps, changes, failing solves) and dies, and another process - a fresh fork or an interpreter with another hash seed - "
            "continues from the bytes alone; or the model is deep-copied or pickled within the process and original and copy go on in a seeded "
            "interleaving. Each continuation is compared operation by operation with the history without copies. Non-trivial: steps before and after.")

    def gen(self, r, ctx, i):
        spec, symb = pick_spec(r, wells=r.random() < 0.9)
        ops = spec.ops(sparse=r.random() < 0.6, order=r if r.random() < 0.3 else None)
        if r.random() < 0.2:
            ops.append({"op": "compile", "m": "m", "args": {"sparse": not [o for o in ops if o["op"] == "compile"][0]["args"]["sparse"]}, "must": True})
        ops += queries(r, spec, "g", r.choice([0, 1, 2]))
        cur = current(spec)

        def part(cur, lo):
            b = mixed(r, spec, r.randint(lo, 3), symb=symb, obs=0.25, conf=0.0, threads=0.25)
            out = []
            for o in b:
                if r.random() < 0.35:
                    out.append(reconf(r, spec, cur))
                out.append(o)
            if r.random() < 0.4:
                out.append(observe(r, spec, symb=symb > 0))
            if r.random() < 0.3:
                out += queries(r, spec, "g", 1)
            out.append({"op": "df", "m": "m", "args": gen.gen_df_args(r)})
            return out

        sc = {"ops": [], "sched": {"kind": "default"}, "faults": []}
        if r.random() < 0.3:
            body = part(cur, 0)
            cur2 = copy.deepcopy(cur)
            a, b = part(cur, 1), [renamed(o, "c") for o in part(cur2, 1)]
            body.append({"op": "twin", "sfx": "c", "how": pick(r, "deepcopy", "pickle"), "snap": False, "must": True})
            while a or b:
                q = a if not b or a and r.random() < 0.5 else b
                body.append(q.pop(0))
            sc["ops"] = ops + body
        else:
            body = part(cur, 0)
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                k = {"op": "ckpt", "pre": [], "doom": []}
                if r.random() < 0.3:
                    k["pre"] = [step_op(r, 1, symb=symb, threads=0.2)]
                if r.random() < 0.5:
                    c = copy.deepcopy(cur)
                    k["doom"] = part(c, 1)
                    k["doomfault"] = r.random() < 0.5
                if r.random() < 0.4:
                    k["hash"] = pick(r, 101, 202)
                body += [k] + part(cur, 1)
            sc["ops"] = ops + body
        with_sched(r, sc, p=0.25)
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        if any(o["op"] == "twin" for o in sc["ops"]):
            return self.twins(sc, ctx)
        base = ctx.run({"ops": [o for o in sc["ops"] if o["op"] != "ckpt"], "sched": {"kind": "default"}, "faults": []})
        w = Walk({"ops": [o for o in sc["ops"] if o["op"] != "ckpt"], "faults": []}, base)
        v = w.run()
        segs = [[]]
        marks = []
        for o in sc["ops"]:
            if o["op"] == "ckpt":
                marks.append(o)
                segs.append([])
            else:
                segs[-1].append(o)
        data, done, env, restarts, failed = None, 0, {}, 0, 0
        for n, seg in enumerate(segs):
            if v:
                break
            ops = ([{"op": "load", "data": data, "snap": False}] if data is not None else []) + seg
            off = len(ops) - len(seg)
            run = {"ops": ops, "sched": sc["sched"], "faults": [], "env": env}
            at = None
            if n < len(marks):
                k = marks[n]
                for o in k["pre"]:
                    run["faults"].append({"kind": "solver", "op": len(ops), "n": 0, "mode": "memory"})
                    ops.append(o)
                at = len(ops)
                ops.append({"op": "checkpoint", "snap": False})
                for j, o in enumerate(k["doom"]):
                    if k.get("doomfault") and o["op"] in ("run", "solve"):
                        run["faults"].append({"kind": "solver", "op": len(ops), "n": 0, "mode": "interrupt"})
                    ops.append(o)
                env = {"hash": k["hash"]} if k.get("hash") else {}
            rec = ctx.run(run)
            A = {x["i"]: x for x in rec["recs"]}
            if at is not None and any(A[j]["status"] != "raise" for j in range(off + len(seg), at) if j in A):
                # nothing was solved, so nothing failed
                return [], {"nontrivial": False}
            failed += at is not None and bool(marks[n]["pre"])
            if data is not None:
                restarts += 1
                if A[0]["status"] != "ok":
                    v.append(("load", f"process {n}: the saved model cannot be loaded: {A[0]['exc']}: {A[0]['msg'][:150]}"))
                    break
            sub = {"ops": ops}
            d = compare_ops(sub, rec, base, tolerance(sc, rec, base), idx={off + j: done + j for j in range(len(seg))})
            v += [(c, f"process {n}" + (" (continued from the saved model)" if n else "") + ": " + t) for c, t in d]
            done += len(seg)
            if at is not None and not v:
                c = A.get(at)
                if c is None or c["status"] != "ok":
                    v.append(("save", f"process {n}: the model cannot be saved: {c and c['exc']}: {c and c['msg'][:150]}"))
                    break
                data = c["ret"]
        for kd, m in (("process:crash-restart", restarts), ("process:saved-after-failure", failed)):
            if m:
                ctx.stats["fired"][kd] = ctx.stats["fired"].get(kd, 0) + m
        return v, {"nontrivial": restarts > 0 and w.steps > 0, "steps_checked": w.steps, "restarts": restarts, "saved_after_a_failure": failed}

    def twins(self, sc, ctx):
        main = ctx.run(sc)
        t = next(j for j, o in enumerate(sc["ops"]) if o["op"] == "twin")
        sfx = sc["ops"][t]["sfx"]
        own = [j for j, o in enumerate(sc["ops"]) if j != t and (j < t or not o.get("m", o.get("g")).endswith(sfx))]
        cpy = [j for j, o in enumerate(sc["ops"]) if j != t and (j < t or o.get("m", o.get("g")).endswith(sfx))]
        v, steps = [], 0
        if main["recs"][-1]["i"] == t and main["recs"][-1]["status"] != "ok":
            x = main["recs"][-1]
            return [("save", f"the model cannot be copied: {x['exc']}: {x['msg'][:150]}")], {"nontrivial": False}
        for js, s in ((own, ""), (cpy, sfx)):
            ops = [copy.deepcopy(sc["ops"][j]) for j in js]
            recs = [dict(x) for x in main["recs"] if x["i"] in set(js)]
            for o in ops:
                for k in ("m", "g"):
                    if s and k in o and o[k].endswith(s):
                        o[k] = o[k][:-len(s)]
            for x in recs:
                if x.get("snap") is not None:
                    m = "m" + s if x["i"] > t else "m"
                    x["snap"] = {"m": x["snap"][m]} if m in x["snap"] else {}
            b = {"ops": ops, "sched": {"kind": "default"}, "faults": []}
            base = ctx.run(b)
            if not s:
                w = Walk(b, base)
                v += w.run()
                steps = w.steps
            if v:
                break
            d = compare_ops(sc, dict(main, recs=recs), base, tolerance(sc, main, base), idx={j: n for n, j in enumerate(js)})
            v += [(c, ("the copy: " if s else "the original: ") + x) for c, x in d]
        ctx.stats["fired"]["process:copied"] = ctx.stats["fired"].get("process:copied", 0) + 1
        return v, {"nontrivial": steps > 0, "steps_checked": steps, "copies": 1}
