#!/usr/bin/env python3
"""Prove that one seed is one execution.

determinism.py [CASES] [SEED]: the same cases of every property are executed three times in fresh
processes - in order, in reverse order next to other processes, and with another PYTHONHASHSEED -
and the digests of everything recorded (outcomes, values, switches, faults, simulated time) are compared.
"""
import hashlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def child(pids, n, seed, reverse):
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    from sim import engine, props, world

    engine.warm()
    out = {}
    for pid in pids:
        P = props.BY_ID[pid]
        for i in (range(n - 1, -1, -1) if reverse else range(n)):
            ctx = engine.Ctx()
            case = engine.make_case(P, seed, i, ctx)
            engine.decide(P, case, ctx)
            h = hashlib.sha256(json.dumps(case, sort_keys=True).encode())
            for key in sorted(map(str, ctx.memo)):
                rec = next(v for k, v in ctx.memo.items() if str(k) == key)
                h.update(world.digest({x: rec.get(x) for x in ("recs", "actors", "switches", "order", "ynum", "fired", "simtime", "counters", "abort")}).encode())
            out[f"{pid}:{i}"] = [h.hexdigest()[:16], len(ctx.memo)]
    print("RESULT " + json.dumps(out))


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 12
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    pids = [f"C{i:02d}" for i in range(1, 18)]
    procs = []
    for mode, (hs, rev) in {"plain": ("0", ""), "reverse": ("0", "1"), "hashseed": ("77", "")}.items():
        env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
        procs.append((mode, subprocess.Popen([PY, os.path.abspath(__file__), "--child", str(n), str(seed), rev], env=env, stdout=subprocess.PIPE, text=True)))
    res = {}
    for mode, p in procs:
        text = p.communicate()[0]
        res[mode] = json.loads([l for l in text.splitlines() if l.startswith("RESULT ")][-1][7:])
    bad = 0
    for mode in ("reverse", "hashseed"):
        diff = [k for k in res["plain"] if res["plain"][k] != res[mode][k]]
        print(f"{mode}: {len(res['plain']) - len(diff)} of {len(res['plain'])} cases identical ({sum(v[1] for v in res['plain'].values())} runs)", diff[:20])
        bad += len(diff)
    return 1 if bad else 0


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--child":
        child([f"C{i:02d}" for i in range(1, 18)], int(sys.argv[2]), int(sys.argv[3]), bool(sys.argv[4]))
    else:
        sys.exit(main())
