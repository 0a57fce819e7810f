"""Executes scenarios in an interpreter with another hash seed.

The hash seed of an interpreter is fixed when it starts, so each of them is a process of its own that loads the
library once and forks a child for every scenario, exactly as the main process does.
"""
import json
import os
import pickle
import struct
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_procs = {}


def execute(seed, sc, **kw):
    """run one scenario under PYTHONHASHSEED=seed"""
    p = _procs.get(seed)
    if p is None or p[0] != os.getpid():
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1")
        proc = subprocess.Popen([sys.executable, "-m", "sim.zygote"], cwd=ROOT, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        p = _procs[seed] = (os.getpid(), proc)
    proc = p[1]
    try:
        data = json.dumps([sc, kw]).encode()
        proc.stdin.write(struct.pack("<Q", len(data)) + data)
        proc.stdin.flush()
        n = proc.stdout.read(8)
        if len(n) < 8:
            raise OSError("no answer")
        (n,) = struct.unpack("<Q", n)
        return pickle.loads(proc.stdout.read(n))
    except OSError as e:
        _procs.pop(seed, None)
        proc.kill()
        proc.wait()
        return {"harness_error": f"interpreter with hash seed {seed} died: {e}"}


def main():
    sys.dont_write_bytecode = True
    inp = os.fdopen(os.dup(0), "rb")
    out = os.fdopen(os.dup(1), "wb")
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    from . import engine, world

    engine.warm()
    while True:
        n = inp.read(8)
        if len(n) < 8:
            return
        (n,) = struct.unpack("<Q", n)
        sc, kw = json.loads(inp.read(n))
        data = pickle.dumps(world.execute(sc, **kw), protocol=4)
        out.write(struct.pack("<Q", len(data)) + data)
        out.flush()


if __name__ == "__main__":
    main()
