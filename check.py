#!/usr/bin/env python3
"""Check one property:  check.py C01 [--tier quick|thorough] [--seed N] | --replay FILE"""
import argparse
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("PYTHONHASHSEED") is None or (sys.executable != PY and os.path.exists(PY) and not os.environ.get("RFSIM_REEXEC")):
    env = dict(os.environ, PYTHONHASHSEED=os.environ.get("PYTHONHASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1", RFSIM_REEXEC="1",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe] + sys.argv, env)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--quiet", action="store_true")
    a = ap.parse_args()
    from sim import engine, props

    if a.replay:
        return engine.replay(a.replay, a.quiet)
    P = props.BY_ID[a.property]
    res = engine.check(P, a.tier, a.seed, workers=a.workers, n=a.cases, wall=a.wall)
    s = res["stats"]
    print(f"[{P.id}] {res['cases']} cases, {s['runs']} simulated runs in {res['wall']:.1f} s, {res['nontrivial']} distinct non-trivial, "
          f"{sum(s['fired'].values())} faults at {len(s['sites'])} sites, {len(s['orders'])} interleavings")
    if a.cases or os.environ.get("RFSIM_DEBUG"):
        print("    ", res["infos"], dict(sorted(s["fired"].items())))
    for k in engine.known_findings()["known"]:
        if k["property"] == P.id:
            print(f"KNOWN-FINDING: property={P.id} {k['what']}")
    if res["violation"]:
        cls, detail, path = res["violation"]
        print(f"    {cls}: {detail}")
        print(f"VIOLATION property={P.id} replay={path}")
        return 1
    if res["errors"]:
        for e in res["errors"][:3]:
            print("HARNESS ERROR", e, file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
