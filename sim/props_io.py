"""C11, C12, C13, C14: tables, files, clocks, profiling wrappers."""
import copy

import numpy as np

from . import gen
from .gen import pick, rnd
from .props import (
    Prop, Walk, calm, compare_ops, current, df_close, observe, pick_line, reconf, register, spec_ok, step_op, steps_idx, to_runto, tolerance,
)
from .props_shared import SOLS
from .props_steps import add_faults, mixed, pick_spec, with_sched
from .walk import STEP_OPS

SAVED = "successfully saved"


def scaler_item(r, kind):
    names = {"time": ["time", "t"], "space": ["space", "s"], "pressure": ["pressure", "p"], "rate": ["rate", "q"]}
    return [names[kind][0], pick(r, "MinMax", "minmax", "MinMaxScaler"), pick(r, [0, 1], [-1, 1], [2, 7], [-3, 0])]


@register
class C11(Prop):
    id = "C11"
    cases = {"quick": 330, "thorough": 60000}
    rule = ("A case is a history of steps, interruptions, reconfigurations, changes of scalers and switches between two solutions with table "
            "requests of random options after every part of it; every table is recomputed from the recorded arrays (rows, columns, order, "
            "times, dates, values, the map back of scaled values) and every request has to succeed. Non-trivial: a table of at least two "
            "steps was checked after something other than plain stepping.")

    def gen(self, r, ctx, i):
        spec, symb = pick_spec(r, wells=r.random() < 0.85)
        sp = r.random() < 0.65
        ops = spec.ops(sparse=sp, order=r if r.random() < 0.3 else None)
        two = r.random() < 0.4
        if two:
            ops.append({"op": "compile", "m": "m", "args": {"sparse": not sp}, "must": True})
        cur = current(spec)
        body = []
        for _ in range(r.randint(2, 5)):
            k = r.random()
            if k < 0.25 and two:
                body.append({"op": "setsol", "m": "m", "name": SOLS[r.random() < 0.5]})
            elif k < 0.5:
                body.append(reconf(r, spec, cur))
            elif k < 0.62:
                kinds = r.sample(["time", "space", "pressure"], r.randint(1, 3))
                body.append({"op": "scalers", "m": "m", "items": [scaler_item(r, x) for x in kinds]})
            elif k < 0.7:
                body.append({"op": "scalers", "m": "m", "items": [[pick(r, "time", "space", "pressure"), None, None]]})
            elif k < 0.76:
                body.append({"op": "scalers", "m": "m", "items": [scaler_item(r, "rate")]})
            elif k < 0.8:
                body.append({"op": "verbose", "m": "m", "v": r.random() < 0.5})
            if r.random() < 0.85:
                body.append(step_op(r, r.randint(1, 3), symb=symb, threads=0.25))
            for _ in range(r.choice([1, 1, 2, 3])):
                a = gen.gen_df_args(r)
                if r.random() < 0.25:
                    a["scale"] = True
                body.append({"op": "df", "m": "m", "args": a})
            if r.random() < 0.25:
                body.append({"op": "inspect", "m": "m", "what": "time", "kw": {"scale": False}})
        sc = {"ops": ops + body, "sched": {"kind": "default"}, "faults": []}
        if r.random() < 0.45:
            ids = steps_idx(sc["ops"])
            if r.random() < 0.4:
                # tables cut short, too
                ids = ids + [j for j, o in enumerate(sc["ops"]) if o["op"] == "df"]
            add_faults(r, ctx, sc, r.choice([1, 2, 3]), idx=ids)
        with_sched(r, sc, p=0.2)
        return {"sc": sc}

    def check(self, case, ctx):
        sc = copy.deepcopy(case["sc"])
        main = ctx.run(sc)
        # scaling rates is documented to need some flow
        rate = False
        for o in sc["ops"]:
            if o["op"] == "scalers":
                for c, t, rg in o["items"]:
                    if c == "rate":
                        rate = t is not None
            if rate and o["op"] == "df" and o["args"].get("scale"):
                o["may"] = True
        w = Walk(sc, main)
        v = w.run()
        s = None
        events = 0
        rich = 0
        for x in main["recs"]:
            s = x.get("snap", {}).get("m") if x.get("snap") else s
            o = sc["ops"][x["i"]]
            if x["op"] in ("setsol", "scalers", "well", "bounds", "bound", "boundall") or x["faulted"]:
                events += 1
            if x["op"] not in ("df", "inspect") or s is None or not s["active"]:
                continue
            so = s["sols"][s["active"]]
            if x["status"] == "raise" and not x["faulted"] and not v and o.get("may") and np.any(so["q"] != 0):
                v.append(("raise", f"op {x['i']} (df): unexpected {x['exc']}: {x['msg']}"))
            if x["op"] == "inspect" and x["status"] == "ok" and not v:
                want = np.arange(so["n"]) * w.m["m"].dt
                if np.shape(x["ret"]) != (so["n"], 1) or not np.allclose(np.ravel(x["ret"]), want, rtol=1e-9, atol=0):
                    v.append(("time", f"op {x['i']}: get_time gives {np.ravel(x['ret'])[:6]} after {so['t']} steps"))
            if x["op"] == "df" and x["status"] == "ok" and so["t"] >= 1 and events:
                rich += 1
        return v, {"nontrivial": rich > 0, "tables_checked": w.checked_tables, "tables_after_events": rich, "steps_checked": w.steps}


# --------------------------------------------------------------------------
IO_MODES = ["enospc", "enospc", "eio", "torn", "interrupt"]


@register
class C12(Prop):
    id = "C12"
    level = "fault_enumeration"
    cases = {"quick": 180, "thorough": 60000}
    rule = ("A case is a history of steps and reconfigurations with two to five saves, of which some meet a fault at a disk operation seen in a dry "
            "run (open, each write, flush, close: disk full with part of the data written, I/O error, torn write, interrupt) or an exception "
            "at a line of the export; the report, the file on disk after every reported success, and all later steps, tables and saves are "
            "compared with the fault-free history. Non-trivial: a fault fired inside a save.")

    def gen(self, r, ctx, i):
        spec, symb = pick_spec(r, wells=r.random() < 0.85)
        ops = spec.ops(sparse=r.random() < 0.65)
        cur = current(spec)
        body = []
        saves = r.randint(2, 5)
        for n in range(saves):
            if r.random() < 0.8:
                body.append(step_op(r, r.randint(1, 3), symb=symb, threads=0.2))
            if r.random() < 0.25:
                body.append(reconf(r, spec, cur))
            if r.random() < 0.3:
                body.append({"op": "df", "m": "m", "args": gen.gen_df_args(r)})
            a = gen.gen_df_args(r)
            body.append({"op": "save", "m": "m", "args": a})
            body.append({"op": "files"})
        body.append(step_op(r, 1, symb=symb, threads=0.2))
        body.append({"op": "save", "m": "m", "args": {"columns": ["time", "cells", "wells"]}})
        body.append({"op": "files"})
        sc = {"ops": ops + body, "sched": {"kind": "default"}, "faults": []}
        prof = ctx.run(sc, profile=True)
        recs = {x["i"]: x for x in prof["recs"]}
        ids = [j for j, o in enumerate(sc["ops"]) if o["op"] == "save" and j in recs]
        for _ in range(r.choice([1, 1, 2, 3])):
            j = pick(r, *ids)
            n = recs[j]["counts"].get("io", 0)
            if r.random() < 0.8 and n:
                # the first and the last operations are as likely as all the others
                pos = pick(r, 0, 1, n - 1, n - 2, r.randrange(n), r.randrange(n))
                sc["faults"].append({"kind": "io", "op": j, "n": max(0, min(n - 1, pos)), "mode": pick(r, *IO_MODES), "frac": pick(r, 0.0, 0.3, 0.9, 1.0)})
            else:
                at = pick_line(r, prof, j)
                if at:
                    sc["faults"].append({"kind": "line", "op": j, "tid": 0, "n": at[1], "exc": pick(r, "KeyboardInterrupt", "MemoryError", "OSError")})
        if r.random() < 0.4:
            # the user tries again
            for j in ids:
                sc["ops"][j]["retry"] = 2
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        base = ctx.run(calm(sc))
        w = Walk(sc, main)
        v = w.run()
        good = None
        nsave = 0
        B = {}
        for x in base["recs"]:
            B[x["i"]] = x
        for x in main["recs"]:
            if v:
                break
            o = sc["ops"][x["i"]]
            if o["op"] == "save":
                told = SAVED in x.get("out", "")
                io = any(f[0] == "io" for f in x["faulted"])
                if x["status"] == "ok" and io:
                    v.append(("swallowed", f"op {x['i']} (save): the disk failed ({[f[1] for f in x['faulted']]}) but the call returned normally"))
                elif x["status"] == "raise" and io and told:
                    v.append(("reported", f"op {x['i']} (save): success reported although the call raised {x['exc']}"))
                if x["status"] == "ok":
                    nsave += 1
                    good = (x["i"], x["ret"]["csv"])
                elif told and B.get(x["i"], {}).get("status") == "ok":
                    good = (x["i"], B[x["i"]]["ret"]["csv"])
                else:
                    good = None
            elif o["op"] == "files" and x["status"] == "ok" and good is not None:
                files = {k: t for k, t in x["ret"].items() if k.endswith("model_data.csv")}
                if not files:
                    v.append(("missing-file", f"op {x['i']}: save {good[0]} was reported but there is no file"))
                else:
                    t = next(iter(files.values()))
                    if t != good[1]:
                        d = csv_diff(t, good[1])
                        if d:
                            v.append(("file", f"op {x['i']}: save {good[0]} was reported but the file is not the table: {d}"))
                good = None
        if not v:
            # failed saves change nothing
            v = compare_ops(sc, main, base, tolerance(sc, main, base), only=lambda o: o["op"] not in ("save", "files") or o["op"] == "save" and False)
        if not v:
            for x in main["recs"]:
                o = sc["ops"][x["i"]]
                if o["op"] == "save" and x["status"] == "ok" and B.get(x["i"], {}).get("status") == "ok":
                    if not df_close(x["ret"], B[x["i"]]["ret"], tolerance(sc, main, base)):
                        v.append(("result", f"op {x['i']} (save): the table differs from the one of a history without disk faults"))
                        break
        fired = sum(1 for x in main["recs"] if x["op"] == "save" and x["faulted"])
        return v, {"nontrivial": fired > 0, "failed_saves": fired, "complete_saves_checked": nsave, "steps_checked": w.steps}


def csv_diff(got, want, rt=1e-9):
    """difference of two tables in text form, by value"""
    import csv
    import io

    a = list(csv.reader(io.StringIO(got)))
    b = list(csv.reader(io.StringIO(want)))
    if len(a) != len(b):
        return f"{len(a)} lines instead of {len(b)}"
    for i, (x, y) in enumerate(zip(a, b)):
        if len(x) != len(y):
            return f"line {i}: {len(x)} fields instead of {len(y)}"
        for u, w in zip(x, y):
            if u == w:
                continue
            try:
                if abs(float(u) - float(w)) <= rt * max(1.0, abs(float(w))):
                    continue
            except ValueError:
                pass
            return f"line {i}: {u!r} instead of {w!r}"
    return ""


# --------------------------------------------------------------------------
DAY = 86400


@register
class C13(Prop):
    id = "C13"
    level = "fault_enumeration"
    cases = {"quick": 230, "thorough": 60000}
    rule = ("A case is a history of steps and tables (dates included) under a clock that jumps forward and backward, stalls or passes midnight at "
            "chosen reads inside and between calls, with the default or a given start date; arrays, tables and settings are compared with the "
            "same history under a steady clock. Non-trivial: the clock jumped or stalled and a step followed.")

    def gen(self, r, ctx, i):
        spec, symb = pick_spec(r, wells=r.random() < 0.85)
        ops = spec.ops(sparse=r.random() < 0.65)
        if r.random() < 0.6:
            for o in ops:
                if o["op"] == "model":
                    o["args"].pop("start_date", None)
                    o["args"].pop("verbose", None)
        k = next(n for n, o in enumerate(ops) if o["op"] == "model")
        ops.insert(k + 1, {"op": "clock", "snap": False})
        body = []
        cur = current(spec)
        for _ in range(r.randint(2, 5)):
            if r.random() < 0.5:
                body.append({"op": "clock", "jump": pick(r, -400 * DAY, -DAY, -3600, -1, 1, 3600, DAY, 40 * DAY, 4000 * DAY)})
            if r.random() < 0.25:
                body.append(reconf(r, spec, cur))
            if r.random() < 0.2:
                body.append({"op": "verbose", "m": "m", "v": r.random() < 0.6})
            body.append(step_op(r, r.randint(1, 4), symb=symb, threads=0.3, single=r.random() < 0.25))
            if r.random() < 0.6:
                body.append({"op": "df", "m": "m", "args": dict(gen.gen_df_args(r), columns=pick(r, ["date", "cells"], ["time", "date", "wells"], ["date"]))})
        body.append({"op": "df", "m": "m", "args": {"columns": ["time", "date", "cells", "wells"]}})
        # local midnight is close in some cases
        base = 1_600_000_000 + r.randrange(3 * 10 ** 8)
        start = base - base % DAY + DAY - r.choice([0.5, 5, 60, 4000, 40000])
        clock = {"start": start, "tick": pick(r, 0.0, 0.001, 0.2, 30.0, 9000.0), "armed_later": True}
        clock["jumps"] = sorted({r.randint(1, 30): pick(r, -3 * 365 * DAY, -DAY, -7200, -0.5, 0.5, 100, DAY, 9 * DAY, 30 * 365 * DAY)
                                 for _ in range(r.choice([0, 1, 2, 4]))}.items())
        clock["jumps"] = [list(x) for x in clock["jumps"]]
        sc = {"ops": ops + body, "sched": {"kind": "default"}, "faults": [], "clock": clock}
        with_sched(r, sc, p=0.3)
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        b = copy.deepcopy(sc)
        b["clock"] = {"start": sc["clock"]["start"], "tick": 0.001, "armed_later": True}
        b["sched"] = {"kind": "default"}
        for o in b["ops"]:
            if o["op"] == "clock":
                o.pop("jump", None)
        base = ctx.run(b)
        w = Walk(sc, main)
        v = w.run()
        mo = next(o for o in sc["ops"] if o["op"] == "model")
        if not v:
            v = compare_ops(sc, main, base, tolerance(sc, main, base))
        return v, {"nontrivial": main["clock_jumps"] > 0 or sc["clock"]["tick"] != 0.001, "clock_jumps": main["clock_jumps"], "steps_checked": w.steps,
                   "tables_checked": w.checked_tables, "default_start_dates": int("start_date" not in mo["args"])}


# --------------------------------------------------------------------------
DECS = ["cProfiler(print_output=False)", "cProfiler()", "cProfiler('cumtime', False, True)", "cProfiler(print_output=False, save_output=True)",
        "lProfiler(print_output=False)", "lProfiler()", "lProfiler(print_output=False, save_output=True)", "profile", "timeit"]


def gen_program(r, threads=False):
    n = r.randint(1, 5)
    fs = []
    for i in range(n):
        body = []
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < 0.25:
                body.append(["loop", r.randint(0, 5)])
            elif k < 0.35 and not threads:
                body.append(["state"])
            elif k < 0.55:
                q = r.randint(2, 4)
                body.append([pick(r, "raise", "raise", "chain"), pick(r, "ValueError", "KeyError", "Own", "RuntimeError", "KeyboardInterrupt", "SystemExit",
                                                                      "ZeroDivisionError"), q, r.randrange(q)])
            elif k < 0.9 and i < n - 1:
                body.append(["call", r.randint(i + 1, n - 1), r.randint(0, 3), r.randint(1, 9), pick(r, "", "", "Exception", "BaseException", "ValueError")])
            elif k < 0.95:
                body.append(["rec"])
        f = {"body": body, "dec": [pick(r, *DECS) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))], "ret": pick(r, "x", "x", "x", "log", "none", "own")}
        if threads:
            f["dec"] = [d for d in f["dec"] if "True)" not in d]
        fs.append(f)
    # a generator is only called from outside
    if r.random() < 0.15 and not any(b[0] == "call" and b[1] == n - 1 for f in fs for b in f["body"]) and not any(b[0] == "rec" for b in fs[-1]["body"]):
        fs[-1]["gen"] = True
    if not any(f["dec"] for f in fs):
        fs[0]["dec"] = [pick(r, *DECS)]
    if threads:
        for f in fs:
            f["dec"] = [d for d in f["dec"] if "True)" not in d] or ["cProfiler(print_output=False)"]

    def call(i):
        args = []
        if r.random() < 0.3:
            args = [r.randint(1, 5)]
            if r.random() < 0.5:
                args.append("extra")
        return [i, r.randint(0, 6), args, {"u": 1} if r.random() < 0.2 else {}]

    p = {"funcs": fs, "dir": pick(r, "src", "src", "my scripts", "a,b")}
    if threads:
        p["actors"] = [[f"caller{a}", [call(r.randrange(n)) for _ in range(r.randint(1, 3))]] for a in range(r.randint(2, 3))]
    else:
        p["calls"] = [call(r.randrange(n)) for _ in range(r.randint(2, 7))]
    return p


@register
class C14(Prop):
    id = "C14"
    level = "fault_enumeration"
    cases = {"quick": 4000, "thorough": 100000}
    rule = ("A case is a generated program of one to five functions calling each other (nested, repeated, recursive, failing, catching, "
            "generators) under random stacks of the four profiling wrappers and a sequence of calls from one caller or, in some cases, "
            "several scheduled callers, under a clock that may stall or jump; disk faults hit the profile files of some calls. Every call is compared with the same program "
            "without wrappers (value, exception, effects), every profile file with the one written when no disk fault occurs. Non-trivial: "
            "a wrapped call failed or a disk fault fired, and another call followed.")

    def gen(self, r, ctx, i):
        threads = r.random() < 0.2
        p = gen_program(r, threads)
        sc = {"ops": [], "prog": "profme", "program": p, "wrapped": True, "faults": [], "sched": {"kind": "default"}}
        if r.random() < 0.35:
            sc["clock"] = {"start": 1_700_000_000 + r.randrange(10 ** 7), "tick": pick(r, 0.0, 0.001, 0.5, 5000.0),
                           "jumps": [[x, pick(r, -400 * DAY, -3600, -0.5, 60, 9 * DAY)] for x in sorted(r.sample(range(1, 12), r.choice([0, 1, 2, 4])))]}
        if threads:
            sc["sched"] = {"kind": "random", "seed": r.randrange(1 << 30), "p": pick(r, 0.05, 0.2, 0.5), "gran": pick(r, "line", "line", "instr")}
        else:
            dry = ctx.run(sc)
            ids = [x["i"] for x in dry["recs"] if x["counts"].get("io")]
            if ids and r.random() < 0.7:
                for _ in range(r.choice([1, 1, 2])):
                    j = pick(r, *ids)
                    n = dry["recs"][j]["counts"]["io"]
                    sc["faults"].append({"kind": "io", "op": j, "n": r.randrange(n), "mode": pick(r, "enospc", "eio", "torn"), "frac": pick(r, 0.0, 0.4, 0.9)})
            elif r.random() < 0.4:
                # an interrupt while a wrapper is at work
                prof = ctx.run(sc, profile=True)
                j = r.randrange(len(p["calls"]))
                at = pick_line(r, prof, j)
                if at:
                    sc["faults"].append({"kind": "line", "op": j, "tid": 0, "n": at[1], "exc": pick(r, "KeyboardInterrupt", "MemoryError")})
            if sc["faults"]:
                # what a call that failed had done so far is not compared: later calls must not depend on it
                for f in p["funcs"]:
                    f["body"] = [b for b in f["body"] if b[0] != "state"]
        return {"sc": sc}

    def check(self, case, ctx):
        sc = case["sc"]
        main = ctx.run(sc)
        bare = ctx.run(dict(sc, wrapped=False, faults=[], sched={"kind": "default"}))
        v = []
        if main["abort"]:
            return [(main["abort"][0], main["abort"][1][:300])], {}
        wrapped = lambda c: bool(sc["program"]["funcs"][c]["dec"])  # noqa: E731
        if "actors" in sc["program"]:
            fails = 0
            for name, calls in sc["program"]["actors"]:
                A, B = main["actors"].get(name, []), bare["actors"].get(name, [])
                v += self.calls(A, B, calls, name + " ")
                fails += sum(x["status"] == "raise" for x in A)
            return v[:4], {"nontrivial": main["nswitch"] > 0, "failing_calls": fails, "calls": sum(len(c) for _, c in sc["program"]["actors"])}
        calls = sc["program"]["calls"]
        calmed = ctx.run(dict(sc, faults=[]))
        A, B, C = main["recs"], bare["recs"], calmed["recs"]
        v += self.calls(A, B, calls, "", skip={x["i"] for x in A if x["faulted"]})
        diskf = 0
        for a, c in zip(A, C):
            if v:
                break
            f = sc["program"]["funcs"][calls[a["i"]][0]]
            if any(x[0] == "line" for x in a["faulted"]):
                diskf += 1
            elif a["faulted"]:
                diskf += 1
                seen = a["status"] == "raise" and a["exc"][0] in ("OSError", "PermissionError") or any(
                    isinstance(l, list) and l[0] == "caught" and l[1] in ("OSError", "PermissionError") for l in a["log"])
                if not seen:
                    for n, x in c["files"].items():
                        y = a["files"].get(n)
                        if y is None or y[0] < x[0] or y[1] < x[1]:
                            v.append(("partial-file", f"call {a['i']}: the disk failed, nothing was raised, but {n} has {y} instead of {x}"))
            else:
                for n, x in c["files"].items():
                    y = a["files"].get(n)
                    if y is None or y[0] < x[0] or y[1] < x[1]:
                        v.append(("partial-file", f"call {a['i']}: {n} has {y} instead of {x}"))
                outer = f["dec"][0] if f["dec"] else ""
                if a["status"] == "ok" and "True)" in outer and ("cumtime" in outer or "save_output=True" in outer):
                    kind = "cProfiler_" if outer.startswith("c") else "lProfiler_"
                    n = f"{kind}f{calls[a['i']][0]}.csv"
                    if a["files"].get(n, [0])[0] < 2:
                        v.append(("no-file", f"call {a['i']}: {outer} wrote no complete {n}: {a['files']}"))
        fails = sum(x["status"] == "raise" and wrapped(calls[x["i"]][0]) for x in A)
        return v[:4], {"nontrivial": (fails > 0 or diskf > 0) and len(A) > 1, "failing_calls": fails, "calls_with_disk_faults": diskf,
                       "files": sum(len(x["files"]) for x in A), "calls": len(calls)}

    @staticmethod
    def calls(A, B, calls, who, skip=()):
        v = []
        if len(A) != len(B):
            v.append(("lost", f"{who}{len(A)} calls came back instead of {len(B)}"))
        for a, b in zip(A, B):
            if a["i"] in skip:
                continue
            c = calls[a["i"]]
            what = f"{who}call {a['i']} f{c[0]}({c[1]})"
            if a["status"] != b["status"] or a["exc"] != b["exc"]:
                v.append(("exception", f"{what}: {a['status']} {a['exc']}, without wrappers {b['status']} {b['exc']}"))
            elif str(a["ret"]) != str(b["ret"]):
                v.append(("value", f"{what}: {str(a['ret'])[:120]} instead of {str(b['ret'])[:120]}"))
            elif a["same"] != b["same"]:
                v.append(("value", f"{what}: the object returned is not the one the function returned"))
            elif str(a["log"]) != str(b["log"]):
                v.append(("effects", f"{what}: effects {str(a['log'])[-160:]} instead of {str(b['log'])[-160:]}"))
            elif "total" in b and a["total"] != b["total"]:
                v.append(("effects", f"{what}: total {a['total']} instead of {b['total']}"))
            if v:
                break
        return v
