"""What a library call may not change in the process around it."""
import builtins
import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import sys
import warnings

import numpy as np

PD = ("display.max_rows", "display.max_columns", "display.width", "display.precision", "display.float_format", "display.max_colwidth",
      "mode.chained_assignment", "mode.copy_on_write", "mode.use_inf_as_na", "future.infer_string")


AMBIENT = ["print", "display", "cow", "err", "recursion", "gc", "nogc", "decimal", "warn", "umask"]


def ambient(kinds):
    """settings of the process a caller may have chosen; results do not depend on them"""
    import pandas as pd

    for a in kinds:
        if a == "print":
            np.set_printoptions(precision=2, threshold=3, edgeitems=1, suppress=True)
        elif a == "display":
            pd.set_option("display.max_rows", 2)
            pd.set_option("display.max_columns", 2)
            pd.set_option("display.precision", 1)
        elif a == "cow":
            pd.set_option("mode.copy_on_write", True)
        elif a == "err":
            np.seterr(all="ignore")
        elif a == "recursion":
            sys.setrecursionlimit(sys.getrecursionlimit() + 4000)
        elif a == "gc":
            gc.set_threshold(50, 3, 3)
        elif a == "nogc":
            gc.disable()
        elif a == "decimal":
            decimal.getcontext().prec = 5
        elif a == "warn":
            warnings.simplefilter("always")
        elif a == "umask":
            os.umask(0o077)


def h(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:10]


def fds():
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink("/proc/self/fd/" + n))
        except OSError:
            pass
    return sorted(x for x in out if x.startswith("/") and not x.startswith(("/dev/", "/proc/")))


def mpl():
    m = sys.modules.get("matplotlib")
    if m is None:
        return None
    c = m.rcParams
    return {a: str(dict.get(c, a)) for a in c if "backend" not in a and not a.startswith("_")}


def look(k):
    """name -> comparable value"""
    import pandas as pd

    d = {
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.displayhook), id(sys.excepthook)),
        "recursion limit": sys.getrecursionlimit(),
        "profiling hook": repr(sys.getprofile()),
        "import path": list(sys.path),
        "warning filters": [tuple(str(y) for y in x) for x in warnings.filters],
        "warning display": id(warnings.showwarning),
        "numpy error handling": (np.geterr(), repr(np.geterrcall())),
        "numpy print options": {a: repr(b) for a, b in np.get_printoptions().items()},
        "random state": h(random.getstate()),
        "numpy random state": h([x.tolist() if hasattr(x, "tolist") else x for x in np.random.get_state()]),
        "signal handlers": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)],
        "decimal context": (lambda c: (c.prec, c.rounding, c.Emin, c.Emax, sorted(repr(t) for t, on in c.traps.items() if on)))(decimal.getcontext()),
        "thread switch interval": sys.getswitchinterval(),
        "logging": (logging.root.level, logging.root.disabled, logging.root.manager.disable, len(logging.root.handlers)),
        "matplotlib settings": mpl(),
        "locale": locale.setlocale(locale.LC_ALL),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "builtins": h(sorted(vars(builtins))),
        "files": sorted(os.listdir(".")),
        "open files": fds(),
        "threads": k.alive,
    }
    for n in PD:
        try:
            d["pandas option " + n] = repr(pd.get_option(n))
        except (KeyError, AttributeError):
            pass
    m = os.umask(0o22)
    os.umask(m)
    d["umask"] = m
    return d


def diff(a, b, saved=(), gaveup=False):
    """(name, before, after) of the first difference"""
    for n in a:
        x, y = a[n], b[n]
        if n == "matplotlib settings":
            if x is None or y is None or x == y:
                continue
            x, y = ({c: z[c] for c in z if x.get(c) != y.get(c)} for z in (x, y))
        if n == "threads" and (gaveup or y < x):
            # a caller that stops waiting leaves its workers to finish
            continue
        if n == "files":
            y = [f for f in y if f in x or f not in saved]
        if x != y:
            return n, str(x)[:120], str(y)[:120]
    return None
