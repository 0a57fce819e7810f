#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after a change of the claimed properties)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
COMMON = (" Explores seeded samples, not all of them; assumes faults strike between lines or bytecodes of repository code and at the seams "
          "(thread pool, locks, clock, solver, files), trusts numpy/scipy/sympy/pandas and, where named, the reference model in sim/ref.py.")
C = {
 "C01": ("exploration", "seeded search over worker interleavings (line and bytecode granularity), compared with the unthreaded call and a reference model",
         "Strong against scheduling bugs in the threaded assembly: every worker switch is decided by the seed, so a race found is replayed exactly."),
 "C02": ("fault_enumeration", "seeded worker failures at every executed line and failing thread starts, compared with the failure-free execution",
         "Failure points are drawn from the lines workers really executed in a dry run of the same case."),
 "C03": ("fault_enumeration", "interrupts, memory errors and solver failures injected at lines executed inside steps; recovery compared with the undisturbed history",
         "Interruption points are drawn uniformly over the distinct lines of a dry run, then over their occurrences."),
 "C04": ("exploration", "seeded search over call histories and schedules against one plain run and the reference model",
         "Histories mix run/solve, storage, strategies, solvers, tables, trial solves and queries."),
 "C05": ("exploration", "seeded histories, schedules and faults; each recorded step re-solved by an independent reference model, residual and balance from recorded values",
         "The oracle is an independent dense finite-volume model; agreement to 1e-6 of the pressure scale."),
 "C06": ("exploration", "seeded histories that make wells switch control, with faults; well constraints checked on every recorded step",
         "Both limits and the deliverability relation are checked on recorded values of each step."),
 "C07": ("exploration", "seeded interleavings of models and solutions that share objects, each compared with itself used alone",
         "Each solution is rerun alone in a fresh process and must agree in every recorded value."),
 "C08": ("exploration", "seeded query histories with failing and interrupted queries, each answer compared with a fresh grid",
         "Each answer is recomputed in a fresh process on a grid that was asked nothing before."),
 "C09": ("exploration", "seeded reconfiguration histories and schedules against a reference model; recorded rows must stay bit-identical",
         "The new configuration is given to the reference, which recomputes every later step from the recorded state."),
 "C10": ("fault_enumeration", "refused calls and memory errors at every function entry of configuration calls; compared with the history without the call",
         "Failure points are the function entries seen in a dry run of the same call."),
 "C11": ("exploration", "seeded histories with faults; each table compared cell by cell with an independent reconstruction from the recorded arrays",
         "All table options are drawn at random; the expected table is built from the public arrays only."),
 "C12": ("fault_enumeration", "disk faults (open, write, short write, full disk, close) at operations seen in a dry run; files compared with the table",
         "Real files in a scratch directory behind a faulting file seam."),
 "C13": ("fault_enumeration", "simulated clock with jumps, stalls and midnight passing at chosen reads and between calls; compared with a calm clock",
         "Every clock the repository can read is simulated."),
 "C14": ("fault_enumeration", "generated programs of wrapped functions under simulated threads, interrupts and disk faults, compared with the bare program",
         "line_profiler based wrappers are exercised on Python functions only (it cannot wrap built-ins)."),
 "C15": ("fault_enumeration", "solver failures of every kind at chosen linear solves of a history; recovery compared with the fault-free history",
         "The seam returns what scipy's solvers can return: codes, exceptions, non-finite values."),
 "C16": ("exploration", "seeded interleavings of caller threads with their own models on shared grids, compared with each running alone",
         "Switch points are every line or bytecode of repository code."),
 "C17": ("exploration", "seeded histories with faults and a simulated clock; counters, series lengths and number of solves checked after each request",
         "Termination is checked as a bound on linear solves and executed lines."),
 "C18": ("exploration", "seeded programs executed in processes that differ in hash seed, random state and the programs run and discarded before, all results compared",
         "Interpreters with other hash seeds are real processes under the same simulator; memory reuse after discarded objects is real but, address by address, not controlled."),
 "C19": ("fault_enumeration", "seeded histories cut by crashes: the model is pickled at points between requests, its process dies, another continues from the bytes; compared with the uncut history",
         "Copies are taken between requests (library code does not run while pickle does); also deep copies continuing next to the original."),
 "C20": ("fault_enumeration", "the process is inspected before and after every call of seeded histories with refused calls, interrupts, failing solves, disk faults and unusual settings",
         "About 30 aspects of the process are compared; aspects not listed in sim/procstate.py are not seen."),
 "C21": ("fault_enumeration", "seeded histories with simulated slider events, later steps, disk faults and interrupts; what the window and the frames were given is compared with the recorded arrays",
         "The plotter is a stub that records meshes, scalars, texts and frames (no display here), so what OpenGL makes of them is not seen; matplotlib is real."),
}
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))


def main():
    checks = []
    for p, (lvl, tech, note) in sorted(C.items()):
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": T + tech, "level": lvl, "level_note": note + COMMON})
    m = {"version": 1,
         "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy, sympy, pandas\" && python3 -m py_compile check.py && rm -rf __pycache__",
         "checks": checks, "not_applicable": NA,
         "notes": "No hooks in /repo: the simulator replaces modules and globals the repository's own code looks up (sim/boot.py). "
                  "Replay a violation with: python3 check.py --replay <path>."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
