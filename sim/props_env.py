"""C18: results depend on the program, not on the process it runs in."""
import copy

from . import gen, procstate
from .gen import pick, rnd
from .props import Prop, compare_ops, current, observe, queries, reconf, refs_ok, register, spec_ok, step_op, tolerance
from .props_io import csv_diff
from .props_steps import mixed, pick_spec, with_sched
from .walk import Walk


def twin(r, spec):
    """a model of the same shape with other values"""
    s = copy.deepcopy(spec)
    for _ in range(8):
        t = copy.deepcopy(s)
        for n in ("kx", "ky", "kz", "phi"):
            if n in t.g and t.g[n] is not None and r.random() < 0.7:
                f = rnd(r, 0.3, 0.9)
                t.g[n] = [x * f for x in t.g[n]] if isinstance(t.g[n], list) else t.g[n] * f
        if r.random() < 0.5:
            t.f["mu"] = rnd(r, 0.3, 3)
        if r.random() < 0.5:
            t.m["dt"] = pick(r, 1, 2, 5, 10)
        for w in t.wells:
            if w.get("q") is not None and r.random() < 0.5:
                w["q"] = w["q"] * 0.5
        if refs_ok(t):
            return t
    return s


@register
class C18(Prop):
    id = "C18"
    cases = {"quick": 330, "thorough": 60000}
    rule = ("A case is a program (model, steps, reconfigurations, tables, queries, saves) executed in a fresh interpreter and again in another "
            "process: an interpreter with another hash seed, another random state, other process settings (printing, pandas and numpy options, collector, limits) and/or after another program - the same one, a model of the "
            "same shape with other values, or any other - whose objects were thrown away before (so that memory is used again) and whose files are "
            "still there; all results are compared. Non-trivial: the process differed and at least one step was compared.")

    def gen(self, r, ctx, i):
        spec, symb = pick_spec(r, wells=r.random() < 0.85)
        ops = spec.ops(sparse=r.random() < 0.6, order=r if r.random() < 0.4 else None)
        ops += queries(r, spec, "g", r.choice([0, 1, 2]))
        ops += mixed(r, spec, r.randint(1, 4), symb=symb, obs=0.3, conf=0.3, threads=0.3)
        ops.append({"op": "df", "m": "m", "args": gen.gen_df_args(r)})
        if r.random() < 0.4:
            ops += [{"op": "save", "m": "m", "args": {"columns": ["time", "cells", "wells"]}}, {"op": "files", "snap": False}]
        env = {}
        if r.random() < 0.5:
            env["hash"] = pick(r, 101, 202)
        if r.random() < 0.5:
            env["rand"] = r.randint(1, 10 ** 6)
        if r.random() < 0.4:
            env["ambient"] = sorted(r.sample(procstate.AMBIENT, r.randint(1, 4)))
        pre = []
        if not env or r.random() < 0.6:
            k = r.random()
            if k < 0.3:
                pre = copy.deepcopy(ops)
            else:
                other = twin(r, spec) if k < 0.75 else spec_ok(r, small=True, maxcells=8)
                pre = other.ops(sparse=r.random() < 0.6) + queries(r, other, "g", r.choice([0, 2]))
                pre += mixed(r, other, r.randint(1, 4), symb=symb if k < 0.75 else 0.2, obs=0.2, conf=0.3, threads=0.3)
                pre.append({"op": "save", "m": "m", "args": {"columns": ["time", "cells", "wells"]}})
            for o in pre:
                o.pop("must", None)
                o["snap"] = False
            pre.append({"op": "drop", "snap": False})
        if r.random() < 0.3:
            pre.append({"op": "random", "v": r.randint(1, 10 ** 6), "snap": False})
        sc = {"ops": pre + ops, "sched": {"kind": "default"}, "faults": [], "env": env}
        with_sched(r, sc, p=0.3)
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        off = 0
        for i, o in enumerate(sc["ops"]):
            if o["op"] in ("drop", "random"):
                off = i + 1
        main = ctx.run(sc)
        for kind, n in (("hash-seed", "hash" in sc["env"]), ("random-state", "rand" in sc["env"]), ("settings", "ambient" in sc["env"]), ("discarded-program", off > 0)):
            if n:
                ctx.stats["fired"]["process:" + kind] = ctx.stats["fired"].get("process:" + kind, 0) + 1
        b = dict(sc, ops=sc["ops"][off:], sched={"kind": "default"}, env={})
        base = ctx.run(b)
        w = Walk(b, base)
        v = w.run()
        rt = tolerance(sc, main, base)
        if not v:
            v = compare_ops(sc, main, base, rt, idx={i + off: i for i in range(len(b["ops"]))})
        if not v:
            A, B = ({x["i"]: x for x in rec["recs"]} for rec in (main, base))
            for i, o in enumerate(b["ops"]):
                if o["op"] == "files" and rt < 1e-3:
                    x, y = A.get(i + off), B.get(i)
                    if x and y and x["status"] == y["status"] == "ok":
                        for f in y["ret"]:
                            d = "is missing" if f not in x["ret"] else csv_diff(x["ret"][f], y["ret"][f], 1e-5)
                            if d:
                                v.append(("file", f"op {i + off} (files): {f}: {d}"))
                                break
        return v, {"nontrivial": w.steps > 0 and (off > 0 or bool(sc["env"])), "steps_checked": w.steps, "other_hash_seeds": int("hash" in sc["env"]),
                   "other_random_states": int("rand" in sc["env"]),
                   "other_settings": int("ambient" in sc["env"]), "after_discarded_programs": int(off > 0)}
