"""C21: drawings and animations show the recorded history and change nothing."""
import datetime
import json
import re

import numpy as np

from .gen import pick
from .props import Prop, calm, compare_ops, current, reconf, register, step_op, tolerance
from .props_io import IO_MODES
from .props_shared import SOLS
from .props_steps import add_faults, pick_spec, with_sched
from .table import centers, parse_date
from .walk import Walk

DRAW = ("show", "gif", "gshow", "slide", "plot")
LABELS = [None, None, "id", "coords", "icoords", "i", "dx", "dy", "dz", "Ax", "Ay", "Az", "V", "center", "sphere", "area_x", "volume"]


def gen_draw(r, spec):
    k = r.random()
    a = {}
    for n, p in (("boundary", 0.5), ("wells", 0.5), ("ruler", 0.2), ("desc", 0.3), ("info", 0.75), ("cbar", 0.7)):
        if r.random() < 0.5:
            a[n] = r.random() < p
    if r.random() < 0.5:
        a["label"] = pick(r, *LABELS)
        if a["label"] == "icoords":
            # not implemented for boundary cells
            a["boundary"] = False
    if r.random() < 0.6:
        a["prop"] = pick(r, "pressures", "rates", "p", "q", "Pressure", "rate")
    if r.random() < 0.15:
        a["opacity"] = pick(r, 1, 0.4)
    if k < 0.45:
        s = [r.uniform(0, 12) if r.random() < 0.5 else float(r.randint(0, 12)) for _ in range(r.randint(0, 5))]
        if r.random() < 0.4:
            a["static"] = r.random() < 0.5
            a["notebook"] = r.random() < 0.5
        return {"op": "show", "m": "m", "args": a, "slide": s}
    if k < 0.75:
        if r.random() < 0.4:
            a["file_name"] = pick(r, "a.gif", "run 1.gif")
        if r.random() < 0.3:
            a["fps"] = pick(r, 1, 5, 30)
        return {"op": "gif", "m": "m", "args": a}
    if k < 0.87:
        b = {n: a[n] for n in ("boundary", "label", "ruler", "desc", "opacity") if n in a}
        if r.random() < 0.3:
            b["corners"] = True
        return {"op": "gshow", "g": "g", "args": b, "snap": False}
    if r.random() < 0.6:
        b = {"prop": pick(r, "pressures", "rates")}
        if r.random() < 0.6:
            b["id"] = pick(r, *(spec.geo.interior + spec.geo.boundary))
        elif r.random() < 0.5:
            b["tstep"] = r.randint(0, 2)
        return {"op": "plot", "m": "m", "what": "plot", "args": b, "may": True}
    b = {"property": pick(r, "pressures", "rates")}
    if r.random() < 0.5:
        b["tstep"] = r.randint(0, 2)
    return {"op": "plot", "m": "m", "what": "plot_grid", "args": b, "may": True}


@register
class C21(Prop):
    id = "C21"
    level = "fault_enumeration"
    cases = {"quick": 300, "thorough": 60000}
    rule = ("A case is a history of steps, changes and switches of solution with drawings in between: windows whose slider a simulated user moves while "
            "they are open and also later, when the model has been run further, animations, grid drawings and plots, with disk faults, "
            "interrupts and errors in some; what the stub window was given at every slider event and in every frame is compared with the recorded "
            "arrays, and the rest of the history with the one without drawings. Non-trivial: a drawing of at least two steps was checked.")

    def gen(self, r, ctx, i):
        spec, symb = pick_spec(r, wells=r.random() < 0.9)
        sp = r.random() < 0.6
        ops = spec.ops(sparse=sp)
        two = r.random() < 0.4
        if two:
            ops.append({"op": "compile", "m": "m", "args": {"sparse": not sp}, "must": True})
        cur = current(spec)
        body = [step_op(r, r.randint(1, 3), symb=symb, threads=0.2)]

        def slide():
            body.append({"op": "slide", "w": r.randint(0, 2), "v": float(r.randint(0, 4)) if r.random() < 0.6 else r.uniform(0, 9), "snap": False})

        for _ in range(r.randint(2, 5)):
            k = r.random()
            if k < 0.25:
                body.append(reconf(r, spec, cur))
                if r.random() < 0.2:
                    slide()
            elif k < 0.55 and two:
                body.append({"op": "setsol", "m": "m", "name": SOLS[r.random() < 0.5]})
                if r.random() < 0.6:
                    slide()
            elif k < 0.65:
                slide()
            if r.random() < 0.6:
                body.append(step_op(r, r.randint(1, 3), symb=symb, threads=0.2))
            for _ in range(r.choice([1, 1, 2])):
                body.append(gen_draw(r, spec))
        if r.random() < 0.5:
            body.append(step_op(r, 1, symb=symb, threads=0.2))
            slide()
        body.append({"op": "df", "m": "m", "args": {}})
        sc = {"ops": ops + body, "sched": {"kind": "default"}, "faults": []}
        ids = [j for j, o in enumerate(sc["ops"]) if o["op"] in ("show", "gif", "gshow", "plot")]
        if ids and r.random() < 0.4:
            gifs = [j for j in ids if sc["ops"][j]["op"] == "gif"]
            if gifs and r.random() < 0.6:
                sc["faults"].append({"kind": "io", "op": pick(r, *gifs), "n": r.choice([0, 1, 1, 2, 3]), "mode": pick(r, *IO_MODES), "frac": pick(r, 0.0, 0.5, 1.0)})
            else:
                add_faults(r, ctx, sc, r.choice([1, 2]), idx=ids, kinds=("line",))
            if r.random() < 0.5:
                for j in ids:
                    sc["ops"][j]["retry"] = 2
        with_sched(r, sc, p=0.15)
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        w = Eye(sc, main)
        v = w.run()
        if not v:
            b = calm(sc)
            keep = [j for j, o in enumerate(sc["ops"]) if o["op"] not in DRAW]
            base = ctx.run(dict(b, ops=[{k: x for k, x in sc["ops"][j].items()} for j in keep]))
            v = compare_ops(sc, main, base, tolerance(sc, main, base), idx={j: n for n, j in enumerate(keep)})
        return v, {"nontrivial": w.rich > 0, "drawings_checked": w.drawn, "frames_checked": w.frames, "late_slider_events": w.late, "steps_checked": w.steps}


def texts_ok(texts, row, t, date, pi):
    """'' or what is wrong with the information shown next to the picture"""
    all_ = "\n".join(texts)
    got = re.findall(r"date:\s*(\S*)", all_)
    if got != [date]:
        return f"date {got} instead of {date}"
    got = re.findall(r"timestep:\s*(\d+)", all_)
    if [int(x) for x in got] != [t]:
        return f"time step {got} instead of {t}"
    got = re.findall(r"initial \w+:\s*(\S+)", all_)
    if pi is not None and (len(got) != 1 or abs(float(got[0]) - pi) > 1e-6 * max(1, abs(pi))):
        return f"initial pressure {got} instead of {pi}"
    for n, f in (("avg", np.nanmean), ("min", np.nanmin), ("max", np.nanmax)):
        got = re.findall(n + r" \w+:\s*(\S+)", all_)
        x = float(f(row))
        if len(got) != 1 or abs(float(got[0]) - x) > 0.5 + 1e-6 * max(1, abs(x)):
            return f"{n} {got} instead of {x:.2f}"
    return ""


class Eye(Walk):
    """the walk over a history, looking at the drawings as well"""

    drawn = frames = late = rich = 0

    def one(self, i, op, r, slog):
        if op["op"] in ("show", "slide", "gif", "plot") and r["status"] == "ok":
            self.windows = getattr(self, "windows", [])
            ms = self.m[op.get("m", "m")]
            self.pi = ms.m.get("pi")
            s = r["snap"]["m"] if r.get("snap") else None
            getattr(self, "see_" + op["op"])(i, op, r, ms, s)
        elif op["op"] == "gshow" and r["status"] == "ok":
            self.scene(i, op["args"], r["ret"], self.m["m"], None, None)
        if op["op"] in ("show", "gif") and r["status"] == "ok" and any(f[0] == "io" for f in r.get("faulted", ())):
            self.add("swallowed", "the disk failed but the call returned normally", i)
        if op["op"] == "plot" and r["status"] == "raise" and not r["faulted"] and r.get("snap"):
            s = r["snap"]["m"]
            if op["args"].get("tstep", 0) <= s["sols"][s["active"]]["t"]:
                self.add("raise", f"unexpected {r['exc']}: {r['msg'][:160]}", i)
        super().one(i, op, r, slog)

    def values(self, op, ms, s):
        a = op["args"]
        q = a.get("prop", "pressures").lower() in ("q", "rate", "rates")
        V = np.asarray(s["sols"][s["active"]]["q" if q else "p"], float)
        geo = ms.R.geo
        ids = list(range(geo.N)) if a.get("boundary") else list(geo.interior)
        return V[:, ids]

    def date(self, ms, t):
        unit = ms.m.get("unit", "field")
        return (parse_date(ms.sd) + datetime.timedelta(**{"seconds" if unit == "lab" else "days": t * ms.dt})).strftime("%d.%m.%Y")

    def frame(self, i, what, f, V, t, info, dates):
        self.frames += 1
        if f["data"] is None or f["data"].shape != V[t].shape or not np.allclose(f["data"], V[t], rtol=1e-12, atol=0, equal_nan=True):
            self.add("picture", f"{what} shows {None if f['data'] is None else f['data'][:6]} instead of the values of step {t}: {V[t][:6]}", i)
        elif info:
            d = texts_ok(f["texts"], V[t], t, dates[t], self.pi)
            if d:
                self.add("caption", f"{what} of step {t}: {d}", i)

    def scene(self, i, a, ret, ms, s, V):
        """cells, wells and labels"""
        self.drawn += 1
        if len(ret) != 1:
            self.add("windows", f"{len(ret)} windows were opened", i)
            return False
        d = ret[0]
        geo = ms.R.geo
        ids = list(range(geo.N)) if a.get("boundary") else list(geo.interior)
        ct = centers(geo)
        cells = [m for m in d["meshes"] if "cells" in m]
        if len(cells) != 1 or cells[0]["n"] != len(ids) or not np.allclose(cells[0]["cells"], ct[ids], rtol=1e-6, atol=1e-6 * np.abs(ct).max()):
            self.add("cells", f"the cells drawn are not those of the grid: {[m['n'] for m in cells]} instead of {len(ids)} at {ct[ids][:3].tolist()}", i)
            return False
        if V is not None:
            lim = [float(np.nanmin(V)), float(np.nanmax(V))]
            if not cells[0]["scalars"] or cells[0]["clim"] is not None and not np.allclose(cells[0]["clim"], lim, rtol=1e-9, equal_nan=True):
                self.add("limits", f"colours range over {cells[0]['clim']} instead of {lim}", i)
            others = [m for m in d["meshes"] if "cells" not in m]
            want = sorted(s["wells"]) if a.get("wells", True) else []
            left = list(others)
            for c in want:
                got = [m for m in left if abs(m["center"][0] - ct[c][0]) + abs(m["center"][1] - ct[c][1]) <= 1e-3 * max(1, np.abs(ct[c]).max())
                       and m["bounds"][4] <= ct[c][2] + 1 and m["bounds"][5] >= ct[c][2] - 1]
                if not got:
                    self.add("wells", f"the well of cell {c} at {ct[c].tolist()} is not drawn: {[m['center'] for m in others]}", i)
                    return False
                left.remove(got[0])
            if left:
                self.add("wells", f"{len(left)} things are drawn that are no wells of the model ({sorted(s['wells'])})", i)
        lab = a.get("label")
        mine = [x for x in d["labels"] if len(x["points"]) == len(ids) and (x["labels"] is None) == (lab == "sphere")]
        asked = bool(lab and a.get("opacity", 0.9) < 1) + bool(a.get("corners"))
        if len(d["labels"]) != asked:
            self.add("labels", f"{len(d['labels'])} sets of labels are shown instead of {asked}", i)
            return False
        if a.get("corners"):
            def own(x):
                n = [[float(y) for y in re.findall(r"-?\d+(?:\.\d+)?(?:e[+-]?\d+)?", str(l))] for l in x["labels"] or ()]
                return len(n) == len(x["points"]) and np.allclose(np.array(n), x["points"], rtol=1e-5, atol=1e-5 * max(1, np.abs(x["points"]).max()))
            if not any(own(x) and x["points"].shape[1] == 3 for x in d["labels"]):
                self.add("labels", "the corners are not labelled with their positions", i)
                return False
        if lab and a.get("opacity", 0.9) < 1:
            if not mine or not np.allclose(mine[0]["points"], ct[ids], rtol=1e-6, atol=1e-6 * np.abs(ct).max()):
                self.add("labels", f"label {lab}: the labels are not at the cells", i)
                return False
            want = self.labels(lab, geo, ids, a)
            if want is not None:
                got = [[float(x) for x in re.findall(r"-?\d+(?:\.\d+)?(?:e[+-]?\d+)?", l)] for l in mine[0]["labels"]]
                if len(got) != len(want) or any(len(x) != len(y) or not np.allclose(x, y, rtol=1e-6) for x, y in zip(got, want)):
                    j = next((j for j, (x, y) in enumerate(zip(got, want)) if len(x) != len(y) or not np.allclose(x, y, rtol=1e-6)), 0)
                    self.add("labels", f"label {lab} of cell {ids[j]} is {mine[0]['labels'][j]} instead of {want[j]}", i)
        return True

    @staticmethod
    def labels(lab, geo, ids, a):
        if lab == "id":
            return [[c] for c in ids]
        if lab == "coords":
            return [list(geo.coords(c)) for c in ids]
        if lab == "i":
            return None
        if lab in ("dx", "dy", "dz"):
            return [[geo.size("xyz".index(lab[1]), c)] for c in ids]
        if lab in ("Ax", "Ay", "Az", "area_x"):
            return [[geo.area("xyz".index(lab[-1]), c)] for c in ids]
        if lab in ("V", "volume"):
            return [[geo.volume(c)] for c in ids]
        return None

    def see_show(self, i, op, r, ms, s):
        a = op["args"]
        V = self.values(op, ms, s)
        if not self.scene(i, a, r["ret"], ms, s, V):
            return
        d = r["ret"][0]
        last = len(V) - 1
        dates = [self.date(ms, t) for t in range(last + 1)]
        info = a.get("info", True)
        if not d["shown"]:
            self.add("windows", "the window was not opened", i)
        if not d["frames"]:
            return
        self.frame(i, "the window", d["frames"][0], V, last, info, dates)
        if d["slider"] is not None:
            if d["slider"][0] != [0.0, float(last)] or d["slider"][1] != last:
                self.add("slider", f"the slider goes over {d['slider'][0]} from {d['slider'][1]} instead of 0..{last}", i)
            for f, x in zip(d["frames"][1:], op.get("slide", ())):
                self.frame(i, f"the slider at {x:.2f}", f, V, int(min(max(x, 0), last)), info, dates)
            self.windows.append((V, dates, info))
        elif not (a.get("static") and a.get("notebook")):
            self.add("slider", "there is no slider", i)
        self.rich += last >= 1

    def see_slide(self, i, op, r, ms, s):
        if r["ret"] is None:
            return
        n, f = r["ret"]
        if n >= len(self.windows):
            return
        V, dates, info = self.windows[n]
        self.late += 1
        self.frame(i, f"the slider of window {n} at {op['v']:.2f}", f, V, int(min(max(op["v"], 0), len(V) - 1)), info, dates)

    def see_gif(self, i, op, r, ms, s):
        a = op["args"]
        V = self.values(op, ms, s)
        if not self.scene(i, a, r["ret"], ms, s, V):
            return
        d = r["ret"][0]
        info = a.get("info", True)
        dates = [self.date(ms, t) for t in range(len(V))]
        if len(d["frames"]) != len(V):
            self.add("frames", f"{len(d['frames'])} frames for {len(V)} recorded steps", i)
            return
        for t, f in enumerate(d["frames"]):
            self.frame(i, f"frame {t}", f, V, t, info, dates)
        self.rich += len(V) > 1

    def see_plot(self, i, op, r, ms, s):
        self.drawn += 1
        a = op["args"]
        so = s["sols"][s["active"]]
        V = np.asarray(so["q" if a.get("prop", a.get("property")) == "rates" else "p"], float)
        t = a.get("tstep", so["t"])
        geo = ms.R.geo
        if not r["ret"]:
            self.add("plot", "nothing was drawn", i)
            return
        ax = r["ret"][0]
        if op["what"] == "plot":
            want = V[:, a["id"]] if "id" in a else V[t]
            got = ax["lines"][0][1] if len(ax["lines"]) == 1 else None
        else:
            want = V[t][list(geo.interior)]
            got = ax["images"][0].ravel() if ax["images"] else None
        if got is None or got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=0, equal_nan=True):
            self.add("plot", f"the plot shows {None if got is None else got[:6]} instead of {want[:6]}", i)
        self.rich += len(V) > 1
