"""C20: a call leaves the process as it found it."""
import copy

from . import gen, procstate
from .gen import pick
from .props import Prop, current, observe, queries, reconf, register, step_op
from .props_draw import gen_draw
from .props_io import IO_MODES, scaler_item
from .props_shared import BADQ, bad_op
from .props_steps import add_faults, pick_spec, with_sched

EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RuntimeError", "OSError"]


@register
class C20(Prop):
    id = "C20"
    level = "fault_enumeration"
    cases = {"quick": 400, "thorough": 60000}
    rule = ("A case is a history of every kind of call - building a model, configuration, refused calls, steps, queries, tables, saves, drawings - with up to "
            "four faults (interrupts and errors at executed lines, failing solves, workers given up, disk faults); before and after each call the "
            "process is inspected: working directory, environment, standard streams, hooks, warning filters, numpy and pandas settings, "
            "random states, signal handlers, files, open files, threads, and the arguments given. Non-trivial: a call failed or was interrupted.")

    def gen(self, r, ctx, i):
        spec, symb = pick_spec(r, wells=r.random() < 0.9)
        ops = spec.ops(sparse=r.random() < 0.6, order=r if r.random() < 0.4 else None)
        for o in ops:
            o.pop("snap", None)
        cur = current(spec)
        body = []
        for _ in range(r.randint(3, 7)):
            k = r.random()
            if k < 0.15:
                body.append(reconf(r, spec, cur))
            elif k < 0.3:
                body.append(bad_op(r, spec))
            elif k < 0.4:
                body += queries(r, spec, "g", 1)
            elif k < 0.5:
                body.append(observe(r, spec, symb=symb > 0))
            elif k < 0.6:
                body.append({"op": "scalers", "m": "m", "items": [scaler_item(r, x) for x in r.sample(["time", "space", "pressure"], r.randint(1, 2))]})
            elif k < 0.68:
                body.append({"op": "verbose", "m": "m", "v": r.random() < 0.7})
            elif k < 0.75:
                n_, a, kw = pick(r, *BADQ)
                body.append({"op": "gq", "g": "g", "name": n_, "a": copy.deepcopy(a), "kw": dict(kw), "snap": False})
            if r.random() < 0.8:
                body.append(step_op(r, r.randint(1, 3), symb=symb, threads=0.4))
            if r.random() < 0.4:
                a = gen.gen_df_args(r)
                body.append({"op": pick(r, "df", "save"), "m": "m", "args": a})
            if r.random() < 0.25:
                body.append(gen_draw(r, spec))
        sc = {"ops": ops + body, "sched": {"kind": "default"}, "faults": [], "process": True}
        if r.random() < 0.5:
            # settings are restored to what they were, not to what they usually are
            sc["env"] = {"ambient": sorted(r.sample(procstate.AMBIENT, r.randint(1, 5)))}
        if r.random() < 0.8:
            add_faults(r, ctx, sc, r.choice([1, 2, 3, 4]), idx=list(range(len(sc["ops"]))) if r.random() < 0.5 else None, exc=EXC)
        saves = [j for j, o in enumerate(sc["ops"]) if o["op"] in ("save", "gif")]
        if saves and r.random() < 0.7:
            sc["faults"].append({"kind": "io", "op": pick(r, *saves), "n": r.choice([0, 0, 1, 1, 2, 3, 5]), "mode": pick(r, *IO_MODES), "frac": pick(r, 0.0, 0.5, 1.0)})
        with_sched(r, sc, p=0.25)
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        v = []
        if main["abort"]:
            return [(main["abort"][0], main["abort"][1][:300])], {}
        bad = n = 0
        for x in main["recs"]:
            n += 1
            bad += x["status"] == "raise"
            if x.get("process") and not v:
                what, a, b = x["process"]
                v.append(("process", f"op {x['i']} ({x['op']}, {x['status']} {x['exc'] or ''}): {what} was {a} before and is {b} after it"))
        return v, {"nontrivial": bad > 0, "calls_inspected": n, "failed_calls_inspected": bad}
