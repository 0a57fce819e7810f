"""C07, C08, C10: sharing, memoised queries, rejected configuration calls."""
import copy

from . import gen
from .gen import pick, rnd
from .props import (
    Prop, Walk, brief, calm, compare_ops, current, df_close, eqv, gen_sched, num_close, observe, pick_line, queries, reconf, refs_ok,
    register, snap_diff, spec_ok, step_op, steps_idx, to_runto, tolerance, val_close,
)
from .props_steps import add_faults, with_sched
from .walk import STEP_OPS

SOLS = {True: "BlackOil-numerical-FDM-True", False: "BlackOil-numerical-FDM-False"}


def variant(r, spec0):
    """another model on the same grid and fluid"""
    s = copy.deepcopy(spec0)
    s.m = dict(s.m, pi=rnd(r, 2000, 7000, 0), dt=pick(r, 1, 2, 5, 10))
    ok_w = s.geo.fdir in ("x", "xy", "xyz") and s.g.get("unit", "field") == "field"
    for _ in range(6):
        cells = r.sample(s.geo.interior, min(len(s.geo.interior), r.choice([0, 1, 1, 2])))
        s.wells = [gen.gen_well(r, s, c, pick(r, "q", "p", "qp")) for c in cells] if ok_w else []
        if refs_ok(s):
            return s
    s.wells = []
    s.bounds = [[s.faces()[0], "pressure", s.m["pi"]]]
    return s


def snapped(ops):
    """every operation that can change a model is followed by a look at all models"""
    for o in ops:
        if o["op"] not in ("gq", "grid", "fluid", "wellobj", "scribble"):
            o.pop("snap", None)
    return ops


@register
class C07(Prop):
    id = "C07"
    cases = {"quick": 170, "thorough": 50000}
    rule = ("A case is one to three models sharing grid, fluid, a well object, a boundary dictionary or scaler settings, each with one or two "
            "solutions, and a seeded interleaving of their operations (steps, reconfigurations, tables, switches of solution, changes the "
            "caller makes to its own objects); every solution's history is compared with the one obtained when only it is used, and the "
            "caller's objects with what the caller put there. Non-trivial: at least two models or solutions were stepped alternately.")

    def gen(self, r, ctx, i):
        spec0 = spec_ok(r, small=r.random() < 0.75, maxcells=12, wells=r.random() < 0.9)
        symb = 0.25 if len(spec0.geo.interior) <= 10 else 0.0
        nm = r.choice([1, 2, 2, 2, 3])
        specs = [spec0] + [variant(r, spec0) for _ in range(nm - 1)]
        ops = spec0.ops(compile=False)[:2]
        ok_w = spec0.geo.fdir in ("x", "xy", "xyz") and spec0.g.get("unit", "field") == "field"
        wobj = ok_w and r.random() < 0.5
        if wobj:
            c = pick(r, *spec0.geo.interior)
            w = gen.gen_well(r, spec0, c, "q", frac=0.05)
            ops.append({"op": "wellobj", "id": "w", "args": {"cell_id": c, "q": w["q"], "r": w["r"], "s": w["s"] or 1}, "snap": False, "must": True})
            wc = c
        hold = r.random() < 0.5
        sch = r.random() < 0.35
        queues = []
        for a, s in enumerate(specs):
            mid = f"m{a}"
            q = []
            inc = not s.f.get("comp") and not s.g.get("comp")
            mo = s.ops(sfx=str(a), grid="g", fluid="f", compile=False)
            if wobj and r.random() < 0.8:
                mo[0] = dict(mo[0], args=dict(mo[0]["args"], well="w"))
                s.wells = [x for x in s.wells if x["cell_id"] != wc]
                mo = [o for o in mo if not (o["op"] == "well" and o["args"]["cell_id"] == wc)]
            if hold and s.bounds:
                if a == 0:
                    held_items = s.bounds
                for o in mo:
                    if o["op"] == "bounds":
                        o["hold"] = "b"
                        o["items"] = specs[0].bounds
                s.bounds = [list(b) for b in specs[0].bounds]
            q += mo
            if sch:
                q.append({"op": "scalers", "m": mid, "hold": "s", "aslist": True, "snap": False,
                          "items": [["pressure", "MinMax", [-1, 1]], ["time", "minmaxscaler", [0, 1]]]})
            kinds = [r.random() < 0.6]
            if r.random() < 0.5:
                kinds.append(not kinds[0])
            for sp in kinds:
                q.append({"op": "compile", "m": mid, "args": {"sparse": sp}, "must": True})
            queues.append({"mid": mid, "spec": s, "kinds": kinds, "cur": current(s), "left": r.randint(2, 4), "q": q})
        body = []
        if len(queues) > 1 and r.random() < 0.5:
            # interleave the set-ups as well
            pend = [list(x["q"]) for x in queues]
            while any(pend):
                j = r.choice([j for j, p in enumerate(pend) if p])
                body.append(pend[j].pop(0))
        else:
            for x in queues:
                body += x["q"]
        alive = list(queues)
        while alive:
            x = r.choice(alive)
            s, mid = x["spec"], x["mid"]
            k = r.random()
            if k < 0.2 and len(x["kinds"]) > 1:
                body.append({"op": "setsol", "m": mid, "name": SOLS[pick(r, *x["kinds"])]})
            elif k < 0.4:
                body.append(reconf(r, s, x["cur"], mid))
            elif k < 0.5:
                body.append(observe(r, s, mid, "g"))
            elif k < 0.56 and hold:
                b = pick(r, *spec0.faces())
                body.append({"op": "hold_mutate", "hold": "b", "items": [[b, "pressure", rnd(r, 1000, 6000, 0)]]})
            elif k < 0.6 and wobj:
                body.append({"op": "wellobj_set", "id": "w", "args": {"q": -round(r.uniform(1, 30), 2), "r": rnd(r, 3, 5, 1)}})
            elif k < 0.64 and sch:
                body.append({"op": "scalers_mutate", "hold": "s", "items": [["pressure", "MinMax", [r.randint(-9, 0), r.randint(2, 9)]]]})
            elif k < 0.69:
                # settings of this model alone
                body.append({"op": "scalers", "m": mid, "items": [pick(r, ["pressure", "MinMax", [0, 7]], ["time", "MinMax", [2, 3]], ["space", "minmax", [0, 9]], ["pressure", None, None])]})
            elif k < 0.75:
                body.append({"op": "df", "m": mid, "args": {"columns": ["time", "cells", "wells"], "scale": r.random() < 0.6}})
            elif k < 0.79 and list(s.geo.fdir) == ["x"] and s.f.get("comp") and "comp" in s.g:
                body.append({"op": "analytic", "m": mid, "calc": pick(r, 0, 3, 3), "n": pick(r, 0, 0, 1, 3), "scale": r.random() < 0.5})
            else:
                body.append(step_op(r, r.randint(1, 2), symb=symb, mid=mid, threads=0.2))
                if len(x["kinds"]) > 1 and r.random() < 0.2:
                    # asked directly, whether it is the assigned one or not
                    body[-1]["sol"] = SOLS[pick(r, *x["kinds"])]
                x["left"] -= 1
                if x["left"] <= 0:
                    alive.remove(x)
        if hold and spec0.bounds:
            body.append({"op": "held", "hold": "b"})
        if wobj:
            body.append({"op": "wellobj_get", "id": "w"})
        for x in queues:
            body.append({"op": "df", "m": x["mid"], "args": {"columns": ["time", "cells", "wells"]}})
        sc = {"ops": snapped(ops + body), "sched": {"kind": "default"}, "faults": []}
        with_sched(r, sc, p=0.3)
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        w = Walk(sc, main)
        v = w.run()
        ops = sc["ops"]
        if v:
            return v, {}
        # the caller's own objects
        wo = {}
        for j, o in enumerate(ops):
            if o["op"] == "wellobj":
                wo = dict(o["args"])
            elif o["op"] == "wellobj_set":
                wo.update(o["args"])
            elif o["op"] == "wellobj_get":
                got = main["recs"][j]["ret"] if j < len(main["recs"]) else None
                if got is not None and any(got.get(k) != x for k, x in wo.items()):
                    v.append(("caller-object", f"op {j}: the caller's well became {got} instead of {wo}"))
        used = [r for r in main["recs"] if ops[r["i"]]["op"] in STEP_OPS and r["status"] == "ok"]
        pairs = set()
        alt = 0
        last = None
        mids = [o["id"] for o in ops if o["op"] == "model"]
        active = {}
        per = {}
        for r in main["recs"]:
            o = ops[r["i"]]
            if o["op"] == "compile" and r["status"] == "ok":
                active[o["m"]] = SOLS[o["args"].get("sparse", True)]
            elif o["op"] == "setsol" and r["status"] == "ok":
                active[o["m"]] = o["name"]
            per[r["i"]] = o.get("sol") or active.get(o.get("m"))
            if o["op"] in STEP_OPS:
                key = (o["m"], per[r["i"]])
                pairs.add(key)
                alt += last is not None and last != key
                last = key
        final = next((x["snap"] for x in reversed(main["recs"]) if x.get("snap")), {})
        for mid in mids:
            if v or mid not in final:
                break
            for name in final[mid]["sols"]:
                keep = []
                for j, o in enumerate(ops):
                    if o["op"] in ("setsol", "df", "save", "inspect", "gq", "held", "wellobj_get", "solutions", "scalers_held", "analytic"):
                        continue
                    if o["op"] == "model" and o["id"] != mid or o.get("m", mid) != mid:
                        if o["op"] == "bounds" and o.get("hold"):
                            pass
                        continue
                    if o["op"] == "compile" and SOLS[o["args"].get("sparse", True)] != name:
                        continue
                    if o["op"] in STEP_OPS and per.get(j) != name:
                        continue
                    keep.append(j)
                # the shared dictionary is what the first user of it put there
                solo_ops = []
                first = next((o for o in ops if o["op"] == "bounds" and o.get("hold")), None)
                for j in keep:
                    o = copy.deepcopy(ops[j])
                    o.pop("sol", None)
                    solo_ops.append(o)
                held_first = first is not None and any(o["op"] in ("bounds",) and o.get("hold") for o in solo_ops)
                if first is not None and not held_first:
                    solo_ops = [o for o in solo_ops if o["op"] != "hold_mutate"]
                elif held_first:
                    # changes made before this model saw the dictionary are part of what it was given
                    seen = next(n for n, o in enumerate(solo_ops) if o["op"] == "bounds" and o.get("hold"))
                    pre = [o for o in solo_ops[:seen] if o["op"] == "hold_mutate"]
                    solo_ops = [o for n, o in enumerate(solo_ops) if not (n < seen and o["op"] == "hold_mutate")]
                    tgt = next(o for o in solo_ops if o["op"] == "bounds" and o.get("hold"))
                    d = {b[0]: b for b in tgt["items"]}
                    for o in pre:
                        for b in o["items"]:
                            d[b[0]] = b
                    tgt["items"] = list(d.values())
                scal = next((n for n, o in enumerate(solo_ops) if o["op"] == "scalers" and o.get("hold")), None)
                if scal is None:
                    solo_ops = [o for o in solo_ops if o["op"] != "scalers_mutate"]
                else:
                    solo_ops = [o for n, o in enumerate(solo_ops) if not (n < scal and o["op"] == "scalers_mutate")]
                solo = ctx.run(calm({"ops": solo_ops}))
                b = next((x["snap"] for x in reversed(solo["recs"]) if x.get("snap")), {}).get(mid)
                if b is None or name not in b["sols"]:
                    v.append(("alone", f"{mid}/{name}: cannot be built alone: {[ (x['op'], x['msg'][:80]) for x in solo['recs'] if x['status'] != 'ok'][:2]}"))
                    break
                a = dict(final[mid])
                a = dict(a, sols={name: a["sols"][name]}, nsol=[name])
                rt = tolerance(sc, main, solo)
                wells = a["active"] == name
                if not wells:
                    a = dict(a, active=None)
                    b = dict(b, active=None)
                d = snap_diff(a, b, rt, mid, settings=wells and scal is None, wells=wells)
                if d:
                    v.append(("result", f"{d} (compared with {mid}/{name} used alone)"))
                    break
        return v, {"nontrivial": alt > 1, "models": len(mids), "solutions": len(pairs), "alternations": alt, "steps_checked": w.steps}


BADQ = [
    ("get_cell_coords", [10 ** 6, True], {}), ("get_cell_coords", [-3, False], {}), ("get_cells_d", ["q", True, False], {}),
    ("get_boundaries", ["foo", "list"], {}), ("get_boundaries", ["id", "bar"], {}), ("get_cell_neighbors", [10 ** 6, None, False, "dict"], {}),
    ("get_cell_neighbors", [], {"id": 1, "fmt": "zzz"}), ("get_order", ["spiral", True, False], {}), ("get_prop", ["nope", True, True], {}),
    ("get_cell_k", ["w", 1, None], {}), ("get_cells_icoords", [True, False, None], {}), ("get_cell_A", [7, 1, None], {}),
    ("get_cell_d", ["x", 10 ** 6, None], {}), ("get_cell_G", [10 ** 6, None, True], {}), ("get_cell_center", [10 ** 6, None], {}),
    ("get_cells_id", [True, False, "nofmt"], {}), ("get_cell_boundaries", [], {"id": 0, "fmt": "dict"}), ("get_cells_A", ["q"], {}),
]


def new_props(r, spec, whole=None):
    """a change of rock properties"""
    ge = spec.geo
    a = {}
    whole = r.random() < 0.6 if whole is None else whole
    names = ["k" + d for d in ge.fdir] + ["phi"]
    if r.random() < 0.2:
        names.append("z")
    for n in r.sample(names, r.randint(1, min(2, len(names)))):
        base = {"phi": (0.05, 0.4, 4), "z": (1000, 4000, 1)}.get(n, (5, 500, 2))
        if not whole:
            a[n] = rnd(r, *base)
        elif r.random() < 0.4:
            a[n] = [rnd(r, *base) for _ in range(ge.N)]
        else:
            a[n] = rnd(r, *base)
    if not whole:
        a["id"] = pick(r, *ge.interior)
    return a


def qkey(op):
    return (op["name"], str(op["a"]), str(op["kw"]))


@register
class C08(Prop):
    id = "C08"
    cases = {"quick": 380, "thorough": 40000}
    rule = ("A case is two grids and a sequence of queries on them (repeated, failing, interrupted, answers overwritten by the caller), changes of "
            "rock properties and steps of a model; each answer is compared with the same query asked first on a fresh grid that has the current "
            "properties (in a process of its own), and later steps with those on a grid that was never queried. Non-trivial: some query was "
            "answered after the same query, an overwrite, a failure or a property change.")

    def gen(self, r, ctx, i):
        spec = spec_ok(r, small=r.random() < 0.8, maxcells=14, wells=r.random() < 0.75)
        other = spec_ok(r, small=True, maxcells=8, wells=False)
        if r.random() < 0.5:
            # a twin that differs in one thing only: the hardest to keep apart
            other = copy.deepcopy(spec)
            other.g["phi"] = 0.11
            a = pick(r, *["k" + d for d in spec.geo.fdir])
            other.g[a] = rnd(r, 5, 400, 1)
        change = r.random() < 0.35
        if change and r.random() < 0.6:
            # all cells alike until their properties change
            for n in ("kx", "ky", "kz", "phi", "dx", "dy", "dz"):
                if isinstance(spec.g.get(n), list):
                    spec.g[n] = spec.g[n][0]
        symb = 0.25 if len(spec.geo.interior) <= 8 else 0.0
        ops = [spec.ops(compile=False)[0], dict(other.ops(compile=False)[0], id="h")]
        if change:
            ge = spec.geo
            d, ci = pick(r, *ge.fdir), pick(r, *ge.interior)
            qs = [("get_cells_G", [False, r.random() < 0.5], {}), ("get_cells_G_diag_%d" % r.randint(1, len(ge.fdir)), [False], {}), ("get_cell_G", [ci, None, True], {}),
                  ("is_isotropic", [], {}), ("is_homogeneous", [], {}), ("get_prop", ["k" + d, True, False], {}), ("get_cell_k", [d, ci, None], {}),
                  ("get_cells_k", [d, False, True], {}), ("get_prop", ["phi", True, True], {})]
            qs = [{"op": "gq", "g": "g", "name": n, "a": a, "kw": kw, "snap": False, "may": True} for n, a, kw in r.sample(qs, r.randint(2, 4))]
            for _ in range(r.choice([1, 1, 2])):
                a = {"k" + d: [rnd(r, 5, 500, 2) for _ in range(ge.N)]} if r.random() < 0.6 else new_props(r, spec)
                ops += [copy.deepcopy(q) for q in qs] + [{"op": "props", "g": "g", "args": a, "snap": False}]
            ops += [copy.deepcopy(q) for q in qs]
        pool = [gen.gen_query(r, spec) for _ in range(r.randint(3, 7))]
        opool = [gen.gen_query(r, other) for _ in range(2)]
        nq = r.randint(6, 14)
        keeps = 0
        hasm = False
        prop = r.random() < 0.6
        left = r.randint(1, 2)
        for n in range(nq):
            k = r.random()
            if k < 0.55:
                q = pick(r, *pool)
                o = {"op": "gq", "g": "g", "name": q["name"], "a": q["a"], "kw": q["kw"], "snap": False, "may": True}
                if r.random() < 0.35:
                    keeps += 1
                    o["keep"] = f"k{keeps}"
                    ops.append(o)
                    ops.append({"op": "scribble", "key": o["keep"], "value": 7, "snap": False})
                else:
                    ops.append(o)
            elif k < 0.67:
                q = pick(r, *(opool if r.random() < 0.4 else [p for p in pool] + opool))
                ops.append({"op": "gq", "g": "h", "name": q["name"], "a": q["a"], "kw": q["kw"], "snap": False, "may": True})
            elif k < 0.75:
                n_, a, kw = pick(r, *BADQ)
                ops.append({"op": "gq", "g": pick(r, "g", "g", "h"), "name": n_, "a": a, "kw": kw, "snap": False, "may": True})
            elif k < 0.88 and prop and not hasm:
                ops.append({"op": "props", "g": "g", "args": new_props(r, spec), "snap": False})
            elif k < 0.92:
                ops.append({"op": "props", "g": "h", "args": new_props(r, other), "snap": False})
            else:
                if not hasm:
                    hasm = True
                    ops += spec.ops(grid="g")[0:]
                if left:
                    ops.append(step_op(r, 1, symb=symb, threads=0.2))
                    left -= 1
        if not hasm:
            ops += spec.ops(grid="g")
        ops.append(step_op(r, 1, symb=symb, threads=0.2))
        for _ in range(2):
            q = pick(r, *pool)
            ops.append({"op": "gq", "g": "g", "name": q["name"], "a": q["a"], "kw": q["kw"], "snap": False, "may": True})
        ops.append({"op": "solve", "m": "m", "args": {"isolver": None}})
        sc = {"ops": ops, "sched": {"kind": "default"}, "faults": []}
        if r.random() < 0.3:
            qi = [j for j, o in enumerate(ops) if o["op"] == "gq" and o["g"] == "g"]
            if qi:
                add_faults(r, ctx, sc, r.choice([1, 2]), kinds=("line",), idx=qi)
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        ops = sc["ops"]
        main = ctx.run(sc)
        # properties changed under a model that exists: its physics is not in the reference
        w = Walk(sc, main)
        v = w.run()
        if v:
            return v, {}
        grids, props = {}, {}
        n = hist = 0
        asked = set()
        eventful = False
        for x in main["recs"]:
            o = ops[x["i"]]
            if o["op"] == "grid":
                grids[o["id"]] = copy.deepcopy(o)
                props[o["id"]] = []
            elif o["op"] == "props" and x["status"] == "ok":
                a = o["args"]
                if a.get("id") is None and not props[o["g"]]:
                    # the current properties given at construction
                    grids[o["g"]]["args"].update(a)
                else:
                    props[o["g"]].append(dict(o))
                eventful = True
            elif o["op"] == "scribble":
                eventful = True
            elif o["op"] == "gq":
                if x["faulted"]:
                    eventful = True
                    continue
                fresh = {"ops": [grids[o["g"]]] + props[o["g"]] + [{k: y for k, y in o.items() if k not in ("keep", "retry")}], "faults": [],
                         "sched": {"kind": "default"}}
                fr = ctx.run(fresh)
                b = fr["recs"][-1]
                n += 1
                k = (o["g"],) + qkey(o)
                if k in asked or eventful:
                    hist += 1
                asked.add(k)
                if b["op"] != "gq":
                    continue
                if x["status"] != b["status"] or x["exc"] != b["exc"]:
                    v.append(("answer", f"op {x['i']} ({o['name']}{o['a']}{o['kw']}): {x['status']} {x['exc']} {x['msg'][:80]}, on a fresh grid {b['status']} {b['exc']}"))
                    break
                if not eqv(x["ret"], b["ret"]) and not val_close(x["ret"], b["ret"], 1e-12):
                    v.append(("answer", f"op {x['i']} ({o['name']}{o['a']}{o['kw']}): {brief(x['ret'])}, on a fresh grid {brief(b['ret'])}"))
                    break
                if x["status"] == "raise":
                    eventful = True
        if not v:
            drop = {j for j, o in enumerate(ops) if o["op"] in ("gq", "scribble") or o.get("g") == "h" or o.get("id") == "h"}
            keep = [j for j in range(len(ops)) if j not in drop]
            base = ctx.run({"ops": [ops[j] for j in keep], "faults": [], "sched": {"kind": "default"}})
            v = compare_ops(sc, main, base, tolerance(sc, main, base), idx={j: n_ for n_, j in enumerate(keep)})
        return v, {"nontrivial": hist > 0, "answers_checked": n, "answers_with_history": hist, "steps_checked": w.steps}


def bad_op(r, spec, mid="m", gid="g"):
    """a configuration call the library has to refuse"""
    ge = spec.geo
    pi = spec.m["pi"]
    faces = spec.faces()
    ci, cb = pick(r, *ge.interior), pick(r, *faces)
    ok_w = ge.fdir in ("x", "xy", "xyz") and spec.g.get("unit", "field") == "field"
    good = [cb, "pressure", rnd(r, 0.7 * pi, 1.1 * pi, 0)]
    good2 = [pick(r, *faces), "rate", 0]
    have = {w["cell_id"] for w in spec.wells}
    free = [c for c in ge.interior if c not in have]
    o = pick(r, *([
        {"op": "well", "args": {"cell_id": cb, "q": -50, "r": 3, "s": 0}},
        {"op": "well", "args": {"cell_id": 10 ** 6, "pwf": 500, "r": 3}},
        {"op": "well", "args": {"cell_id": -1, "q": -50, "r": 3, "s": 0}},
        {"op": "well", "args": {"q": -50, "r": 3, "s": 0}},
        {"op": "well", "args": {"cell_id": ci, "q": -50, "r": "x", "s": 0}},
        {"op": "well", "args": {"cell_id": ci, "q": -70, "pwf": 0.5 * pi, "r": 3, "s": "x"}},
        {"op": "well", "args": {"cell_id": pick(r, *(free or [cb])), "q": -50}},
        {"op": "well", "args": {"cell_id": pick(r, *(free or [cb])), "pwf": 0.4 * pi, "s": 2}},
    ] if ok_w else []),
        {"op": "bounds", "items": [good, [ci, "pressure", 3000]]},
        {"op": "bounds", "items": [good, [good2[0], "flux", 3]] if good2[0] != cb else [[cb, "flux", 3]]},
        {"op": "bounds", "items": [[cb, "pressure", "x"]]},
        {"op": "bounds", "items": [good2, [cb, "rate", None]] if good2[0] != cb else [[cb, "rate", None]]},
        {"op": "bounds", "items": [good, [10 ** 6, "rate", 0]]},
        {"op": "bound", "b": ci, "cond": "pressure", "v": 3000},
        {"op": "bound", "b": cb, "cond": "presure", "v": 3000},
        {"op": "bound", "b": cb, "cond": "gradient", "v": "steep"},
        {"op": "bound", "b": 10 ** 6, "cond": "rate", "v": 0},
        {"op": "boundall", "cond": "nothing", "v": 0},
        {"op": "boundall", "cond": "rate", "v": "x"},
        {"op": "scalers", "items": [["pressure", "MinMax", [0, 5]], ["colour", "MinMax", [0, 1]]]},
        {"op": "scalers", "items": [["time", "MinMax", [2, 3]], ["pressure", "Robust", [0, 1]]]},
        {"op": "scalers", "items": [["all", "Fancy", [0, 1]]]},
        {"op": "setsol", "name": "BlackOil-numerical-FDM"},
        {"op": "setsol", "name": "x"},
        {"op": "compile", "args": {"stype": "quantum"}},
        {"op": "compile", "args": {"method": "FXM"}},
        {"op": "compile", "args": {"stype": "analytical", "method": "FDM"}},
        {"op": "compile", "args": {"sparse": 1}},
        {"op": "compile", "args": {"method": pick(r, "FVM", "FEM", "fvm")}},
        {"op": "compile", "args": {"stype": "analytical", "method": pick(r, "1D2P", "D2P1", "3D3P")}},
        {"op": "compile", "args": {"stype": "neurical", "method": pick(r, "PINN", "deeponet")}},
        {"op": "compile", "args": {"sparse": "yes"}},
        {"op": "mcomp", "v": -1},
        {"op": "props", "args": {"k" + ge.fdir[0]: [100.0] * (ge.N + 1)}},
        {"op": "props", "args": {"k" + ge.fdir[0]: 55.0, "phi": [0.2] * (ge.N + 2)}},
        {"op": "props", "args": {"phi": 0.3, "z": "deep"}},
        {"op": "props", "args": {"phi": 0.31, "comp": -1}},
        {"op": "props", "args": {"phi": 0.3, "id": 10 ** 6}},
        {"op": "props", "args": {"k" + ge.fdir[-1]: 77.0, "phi": 0.3, "id": 10 ** 6}},
        {"op": "fprops", "args": {"mu": 1.7, "comp": -1}},
        {"op": "fprops", "args": {"mu": 2.1, "B": 1.4, "rho": "dense"}},
        {"op": "fprops", "args": {"B": 0.7, "rho": 31.0, "comp": -1e-6}},
        {"op": "prop", "name": "colour", "v": 3},
        {"op": "prop", "name": "phi", "v": [0.1] * (ge.N + 1)},
        {"op": "prop", "name": "k" + ge.fdir[0], "v": [0.1] * (ge.N + 3)},
        {"op": "prop", "name": "k" + ge.fdir[-1], "v": "tight"},
        {"op": "prop", "name": pick(r, "phi", "k" + ge.fdir[0]), "v": 0.2, "id": 10 ** 6},
    )
    o = copy.deepcopy(o)
    o["bad"] = True
    if o["op"] in ("props", "prop"):
        o["g"] = gid
    elif o["op"] == "fprops":
        o["f"] = "f"
    else:
        o["m"] = mid
    return o


def grid_looks(r, spec, gid="g"):
    ge = spec.geo
    d = pick(r, *ge.fdir)
    q = [("get_prop", [pick(r, "k" + d, "k" + d, "phi", "z"), True, False]), ("get_cells_k", [d, True, True]), ("is_isotropic", []), ("is_homogeneous", []),
         ("get_cells_G", [False, False]), ("get_cell_G", [pick(r, *ge.interior), None, True]), ("get_cell_k", [d, pick(r, *ge.interior), None])]
    return [{"op": "gq", "g": gid, "name": n, "a": a, "kw": {}, "snap": False, "may": True} for n, a in r.sample(q, r.choice([1, 1, 2]))]


CONF = ("well", "bounds", "bound", "boundall", "scalers", "compile", "props")


def good_conf(r, spec, cur, mid="m"):
    k = r.random()
    if k < 0.75:
        # adding to a well which an earlier failed call did not create may be refused
        return dict(reconf(r, spec, cur, mid), may=True)
    if k < 0.87:
        return {"op": "scalers", "m": mid, "items": [[pick(r, "pressure", "p", "time", "space"), pick(r, "MinMax", "minmaxscaler"), [0, r.randint(1, 5)]]]}
    return {"op": "compile", "m": mid, "args": {"sparse": r.random() < 0.5}}


@register
class C10(Prop):
    id = "C10"
    level = "fault_enumeration"
    cases = {"quick": 280, "thorough": 60000}
    rule = ("A case is a history of steps and configuration changes with refused calls (arguments of every setter that the library refuses, alone or "
            "as the last item of an otherwise valid call) and valid calls failing part-way (a memory error on entering a function they call); "
            "the model right after the failure and all later steps, tables and settings are compared with the history without that call; some "
            "failed calls are made again. Non-trivial: a call was refused or failed and a step followed.")

    def gen(self, r, ctx, i):
        spec = spec_ok(r, small=r.random() < 0.75, maxcells=12, wells=r.random() < 0.85)
        symb = 0.25 if len(spec.geo.interior) <= 8 else 0.0
        ops = spec.ops(sparse=r.random() < 0.65)
        if r.random() < 0.15:
            ops.append({"op": "verbose", "m": "m", "v": True})
        two = r.random() < 0.25
        if two:
            ops.append({"op": "compile", "m": "m", "args": {"sparse": not [o for o in ops if o["op"] == "compile"][0]["args"]["sparse"]}, "must": True})
        cur = current(spec)
        body = []
        for _ in range(r.randint(2, 5)):
            for _ in range(r.choice([0, 1, 1, 2])):
                body.append(bad_op(r, spec))
                if body[-1]["op"] in ("props", "prop") and r.random() < 0.6:
                    body += grid_looks(r, spec)
            if r.random() < 0.5:
                body.append(good_conf(r, spec, cur))
            if r.random() < 0.2:
                body.append({"op": "df", "m": "m", "args": {"columns": ["time", "cells", "wells"], "scale": False}})
            body.append(step_op(r, r.randint(1, 2), symb=symb, threads=0.15))
        body.append({"op": "df", "m": "m", "args": {"columns": ["time", "cells", "wells"]}})
        # some wrong calls before anything was computed
        pre = [bad_op(r, spec) for _ in range(r.choice([0, 0, 1]))]
        k = len([o for o in ops if o["op"] in ("grid", "fluid", "model")])
        pre = [o for o in pre if o["op"] not in ("setsol",)]
        # and some before there was a model
        for _ in range(r.choice([0, 0, 1, 2])):
            o = bad_op(r, spec)
            if o["op"] in ("props", "prop"):
                ops[1:1] = [o] + (grid_looks(r, spec) if r.random() < 0.5 else [])
        k = max(j for j, o in enumerate(ops) if o["op"] == "model") + 1
        ops = snapped(ops[:k] + pre + ops[k:] + body)
        sc = {"ops": ops, "sched": {"kind": "default"}, "faults": []}
        if r.random() < 0.55:
            prof = ctx.run(sc, profile=True)
            first = {}
            for j in sorted(prof["prof"]):
                for _, lid in prof["prof"][j]:
                    f, q, ln = prof["lines"][abs(lid) - 1]
                    first.setdefault((f, q), ln)
            idx = [x["i"] for x in prof["recs"] if ops[x["i"]]["op"] in CONF and not ops[x["i"]].get("bad") and not ops[x["i"]].get("must")]
            for _ in range(r.choice([1, 1, 2])):
                if not idx:
                    break
                j = pick(r, *idx, *[x for x in idx if ops[x]["op"] in ("bounds", "bound", "boundall")])
                at = pick_line(r, prof, j, keep=lambda l: first.get((l[0], l[1])) == l[2])
                if at:
                    sc["faults"].append({"kind": "line", "op": j, "tid": 0, "n": at[1], "exc": "MemoryError"})
                    if r.random() < 0.5:
                        ops[j]["retry"] = 3
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        ops = sc["ops"]
        main = ctx.run(sc)
        w = Walk(sc, main)
        v = w.run()
        # refused calls, and failed ones that were not made again, never happened
        lost = set()
        for x in main["recs"]:
            if x["status"] == "raise" and ops[x["i"]]["op"] in CONF + ("setsol", "mcomp", "prop", "fprops"):
                # a call that was neither wrong nor failed by us has to be refused in the other history, too
                if ops[x["i"]].get("bad") or x["faulted"]:
                    lost.add(x["i"])
            elif x["status"] == "ok":
                lost.discard(x["i"])
        follow = any(x["op"] in STEP_OPS and x["i"] > min(lost) for x in main["recs"]) if lost else False
        fail = sum(1 for x in main["recs"] if x["faulted"])
        accepted = sum(1 for x in main["recs"] if x["status"] == "ok" and ops[x["i"]].get("bad"))
        if not v:
            keep = [j for j in range(len(ops)) if j not in lost]
            base = ctx.run({"ops": [dict(ops[j]) for j in keep], "faults": [], "sched": {"kind": "default"}})
            v = compare_ops(sc, main, base, tolerance(sc, main, base), idx={j: n for n, j in enumerate(keep)})
        return v, {"nontrivial": bool(lost or fail) and (follow or fail > 0), "refused_calls": len(lost), "calls_failing_part_way": fail,
                   "wrong_calls_accepted": accepted, "steps_checked": w.steps}
