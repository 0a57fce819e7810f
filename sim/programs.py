"""Programs of profiled functions (C14): generated source, wrapped or bare."""
import importlib.util
import os
import sys

from . import boot, kernel
from .world import plain

EXC = {"ValueError": ValueError, "KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError, "RuntimeError": RuntimeError,
       "StopIteration": StopIteration, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "Own": None}


def source(prog, wrapped):
    out = ["from reservoirflow.utils.profme import cProfiler, lProfiler, profile, timeit", "",
           "class Own(Exception):", "    pass", "", "state = {'total': 0}", ""]
    for i in range(len(prog["funcs"]) - 1, -1, -1):
        f = prog["funcs"][i]
        if wrapped:
            for d in f["dec"]:
                out.append(f"@{d}")
        out.append(f"def f{i}(n, log, k=1, *rest, **kw):")
        out.append(f"    log.append(('in', {i}, n, k, rest, sorted(kw)))")
        out.append("    x = [n]")
        for b in f["body"]:
            o = b[0]
            if o == "loop":
                out += [f"    for j in range({b[1]}):", "        x.append(j * n)  # one, two", ""]
            elif o == "state":
                out += ["    state['total'] += n", "    x.append(state['total'])"]
            elif o == "raise":
                e = b[1]
                out += [f"    if n % {b[2]} == {b[3]}:", f"        log.append(('raise', {i}))", f"        raise {e}('f{i}', n)"]
            elif o == "chain":
                out += [f"    if n % {b[2]} == {b[3]}:", "        try:", "            {}['missing']", "        except KeyError as e:",
                        f"            raise Own('f{i}', n) from e"]
            elif o == "call":
                call = f"f{b[1]}(n + {b[2]}, log, {b[3]}, 'p', z={i})"
                if b[4]:
                    out += ["    try:", f"        x.append({call})", f"    except {b[4]} as e:", "        log.append(('caught', type(e).__name__, e.args))"]
                else:
                    out.append(f"    x.append({call})")
            elif o == "rec":
                out += ["    if 0 < n < 4:", f"        x.append(f{i}(n - 1, log, k + 1))"]
        if f.get("gen"):
            out += ["    for v in x:", "        yield v"]
        elif f.get("ret") == "log":
            out.append("    return log[-1]")
        elif f.get("ret") == "own":
            out.append("    return log")
        elif f.get("ret") == "none":
            out.append("    log.append('end')")
        else:
            out.append(f"    return ({i}, x)")
        out.append("")
    return "\n".join(out) + "\n"


def exc_plain(e):
    c = e.__cause__
    return [type(e).__name__, plain(list(e.args)), type(c).__name__ if c is not None else None]


def profme(w):
    sc = w.sc
    k = w.k
    prog = sc["program"]
    d = os.path.join(k.scratch, prog.get("dir", "src"))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "program.py")
    with boot._real_open(path, "w") as f:
        f.write(source(prog, sc.get("wrapped", True)))
    spec = importlib.util.spec_from_file_location("program", path)
    m = importlib.util.module_from_spec(spec)
    sys.modules["program"] = m
    spec.loader.exec_module(m)
    keep = {os.path.join(d, "program.py")}

    def files():
        out = {}
        for root, _, fs in os.walk(k.scratch):
            for x in fs:
                p = os.path.join(root, x)
                if p in keep or not x.endswith(".csv"):
                    continue
                with boot._real_open(p, "rb") as h:
                    t = h.read().decode("utf8", "replace").split("\n")
                out[x] = [len(t), min((s.count(",") for s in t), default=0) if x.startswith("c") else 0]
                os.unlink(p)
        return out

    def one(i, c, look=True):
        rec = {"i": i, "op": "call", "status": "ok", "exc": None, "msg": "", "ret": None, "same": False}
        log = []
        if look:
            k.begin_op(i)
        nf = len(k.fired)
        try:
            v = getattr(m, f"f{c[0]}")(c[1], log, *c[2], **c[3])
            rec["same"] = v is log
            rec["ret"] = plain(list(v)) if prog["funcs"][c[0]].get("gen") else plain(v)
        except kernel.SimAbort:
            raise
        except kernel._Killed:
            raise
        except BaseException as e:  # noqa: BLE001
            rec["status"] = "raise"
            rec["exc"] = exc_plain(e)
        if look:
            rec["counts"] = dict(k.op_counts)
            k.end_op()
        rec["faulted"] = [f[:2] for f in k.fired[nf:]]
        rec["log"] = plain(log)
        if look:
            rec["files"] = files()
            rec["total"] = m.state["total"]
        return rec

    if "actors" in prog:
        ths = []
        w.actor_recs = {}

        def body(name, calls):
            def go():
                out = w.actor_recs[name] = []
                for i, c in enumerate(calls):
                    out.append(one(i, c, False))
            return go

        for name, calls in prog["actors"]:
            ths.append(k.spawn(body(name, calls), name, role="actor"))
        k.join_all(ths)
        return
    for i, c in enumerate(prog["calls"]):
        w.recs.append(one(i, c))


PROGRAMS = {"profme": profme}
