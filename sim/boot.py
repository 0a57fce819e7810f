"""Import the library under test behind the simulator's seams.

Third-party modules are imported first and keep the real facilities; names the
repository looks up afterwards (thread pools, threads, locks, clocks, dates,
linear solvers, files) resolve to simulated versions.  Outside a simulated
execution every seam falls through to the real thing.
"""
import os
import sys
import tempfile

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYVISTA_OFF_SCREEN", "true")

import builtins  # noqa: E402
import concurrent.futures  # noqa: E402
import concurrent.futures.thread  # noqa: E402
import datetime  # noqa: E402
import io  # noqa: E402
import pkgutil  # noqa: E402
import importlib  # noqa: E402
import threading  # noqa: E402
import time  # noqa: E402
import warnings  # noqa: E402

from . import kernel  # noqa: E402
from .kernel import PKG, REPO  # noqa: E402

STUBS = {}


def _from_repo(depth=2):
    f = sys._getframe(depth)
    return f.f_code.co_filename.startswith(PKG)


def K():
    k = kernel.K
    if k is None:
        return None
    t = k.me()
    return k if t is not None else None


# --------------------------------------------------------------------------
# thread pool
# --------------------------------------------------------------------------
_RealFuture = concurrent.futures.Future
_RealTPE = concurrent.futures.thread.ThreadPoolExecutor


class SimFuture(_RealFuture):
    def result(self, timeout=None):
        k = K()
        if k is not None and not self.done():
            k.block(self.done, "future result")
        return super().result(0 if k is not None else timeout)

    def exception(self, timeout=None):
        k = K()
        if k is not None and not self.done():
            k.block(self.done, "future exception")
        return super().exception(0 if k is not None else timeout)


class SimThreadPoolExecutor(concurrent.futures.Executor):
    """Thread pool whose workers are simulated threads.

    Mirrors the real pool: eager submission, one thread per submission while
    below max_workers and no idle worker, FIFO queue, a failing thread start
    surfaces from submit() with the work item already queued.
    """

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=(), **_):
        if max_workers is None:
            max_workers = 8
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._max = max_workers
        self._q = []
        self._threads = []
        self._idle = 0
        self._shutdown = False
        self._init = initializer
        self._initargs = initargs
        k = K()
        if k is not None:
            k.counters["pools"] = k.counters.get("pools", 0) + 1

    def submit(self, fn, /, *args, **kwargs):
        if self._shutdown:
            raise RuntimeError("cannot schedule new futures after shutdown")
        k = K()
        f = SimFuture()
        self._q.append((f, fn, args, kwargs))
        if k is None:  # not simulated: run inline at result time is not needed
            self._run_one()
            return f
        if self._idle > 0:
            self._idle -= 1
        elif len(self._threads) < self._max:
            self._threads.append(k.spawn(self._worker, f"w{len(k.threads)}"))
        k.yield_point()
        return f

    def _run_one(self):
        f, fn, a, kw = self._q.pop(0)
        if not f.set_running_or_notify_cancel():
            return
        try:
            r = fn(*a, **kw)
        except BaseException as e:  # noqa: BLE001
            f.set_exception(e)
        else:
            f.set_result(r)

    def _worker(self):
        k = K()
        if self._init is not None:
            self._init(*self._initargs)
        first = True
        while True:
            if not self._q and not self._shutdown:
                if not first:
                    self._idle += 1
                k.block(lambda: self._q or self._shutdown, "idle worker")
            first = False
            if self._q:
                self._run_one()
                k.yield_point()
                continue
            if self._shutdown:
                return

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shutdown = True
        if cancel_futures:
            for it in self._q:
                it[0].cancel()
            self._q.clear()
        k = K()
        if wait and k is not None:
            ths = self._threads
            k.block(lambda: all(t.state == kernel.DONE for t in ths), "pool shutdown")


class _PoolMeta(type(SimThreadPoolExecutor)):
    def __call__(cls, *a, **kw):
        if K() is None:
            return _RealTPE(*a, **kw)
        o = object.__new__(SimThreadPoolExecutor)
        SimThreadPoolExecutor.__init__(o, *a, **kw)
        return o


class PoolClass(SimThreadPoolExecutor, metaclass=_PoolMeta):
    pass


def _as_completed(fs, timeout=None):
    k = K()
    fs = list(fs)
    if k is None:
        yield from _real_as_completed(fs, timeout)
        return
    pend = list(dict.fromkeys(fs))
    while pend:
        k.block(lambda: any(f.done() for f in pend), "as_completed")
        for f in [f for f in pend if f.done()]:
            pend.remove(f)
            yield f


def _wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    k = K()
    fs = set(fs)
    if k is None:
        return _real_wait(fs, timeout, return_when)

    def ok():
        d = [f for f in fs if f.done()]
        if return_when == "FIRST_COMPLETED":
            return bool(d)
        if return_when == "FIRST_EXCEPTION":
            return len(d) == len(fs) or any(not f.cancelled() and f.exception() for f in d)
        return len(d) == len(fs)

    k.block(ok, "wait")
    done = {f for f in fs if f.done()}
    from concurrent.futures._base import DoneAndNotDoneFutures

    return DoneAndNotDoneFutures(done, fs - done)


_real_as_completed = concurrent.futures.as_completed
_real_wait = concurrent.futures.wait


# --------------------------------------------------------------------------
# threads and locks created by repository code
# --------------------------------------------------------------------------
_RealThread = threading.Thread
_RealLock = threading.Lock
_RealRLock = threading.RLock
_RealCondition = threading.Condition
_RealEvent = threading.Event
_RealSemaphore = threading.Semaphore
_RealBounded = threading.BoundedSemaphore
_RealBarrier = threading.Barrier


class SimAwareThread(_RealThread):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self._sim_owner = _from_repo(2)
        self._sim_t = None

    def start(self):
        k = K()
        if k is None or not self._sim_owner:
            return super().start()
        self._sim_t = k.spawn(self.run, self.name)

    def join(self, timeout=None):
        k = K()
        if k is None or self._sim_t is None:
            return super().join(timeout)
        t = self._sim_t
        if timeout is None:
            k.block(lambda: t.state == kernel.DONE, "thread join")
        else:
            k.yield_point()

    def is_alive(self):
        if self._sim_t is None:
            return super().is_alive()
        return self._sim_t.state != kernel.DONE


class SimLock:
    _reentrant = False

    def __init__(self):
        self._real = _RealRLock() if self._reentrant else _RealLock()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        k = K()
        if k is None:
            return self._real.acquire(blocking, timeout)
        me = k.me()
        if self._reentrant and self._owner is me:
            self._n += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                k.yield_point()
                if self._owner is not None:
                    return False
            else:
                k.block(lambda: self._owner is None, "lock")
        self._owner = me
        self._n = 1
        if k.alive > 1:
            k.yield_point()
        return True

    def release(self):
        k = K()
        if k is None:
            return self._real.release()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None
        if k.alive > 1:
            k.yield_point()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is not None


class SimRLock(SimLock):
    _reentrant = True


class SimCondition:
    def __init__(self, lock=None):
        self._lock = lock or SimRLock()
        self._tickets = []
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        k = K()
        ticket = [False]
        self._tickets.append(ticket)
        n = self._lock._n
        for _ in range(n):
            self._lock.release()
        if timeout is None:
            k.block(lambda: ticket[0], "condition")
        else:
            k.yield_point()
        for _ in range(n):
            self._lock.acquire()
        return ticket[0]

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            self.wait(timeout)
            r = predicate()
            if timeout is not None:
                break
        return r

    def notify(self, n=1):
        for t in self._tickets[:n]:
            t[0] = True
        del self._tickets[:n]

    def notify_all(self):
        self.notify(len(self._tickets))


class SimEvent:
    def __init__(self):
        self._f = False

    def is_set(self):
        return self._f

    def set(self):
        self._f = True
        k = K()
        if k is not None and k.alive > 1:
            k.yield_point()

    def clear(self):
        self._f = False

    def wait(self, timeout=None):
        k = K()
        if k is not None and not self._f:
            if timeout is None:
                k.block(lambda: self._f, "event")
            else:
                k.yield_point()
        return self._f


class SimSemaphore:
    def __init__(self, value=1):
        self._v = value

    def acquire(self, blocking=True, timeout=None):
        k = K()
        if self._v <= 0:
            if not blocking:
                return False
            if k is not None:
                k.block(lambda: self._v > 0, "semaphore")
        self._v -= 1
        return True

    def release(self, n=1):
        self._v += n

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def _factory(real, sim):
    def make(*a, **kw):
        if _from_repo(2):
            return sim(*a, **kw)
        return real(*a, **kw)

    return make


# --------------------------------------------------------------------------
# clock
# --------------------------------------------------------------------------
_rt = dict(time=time.time, perf_counter=time.perf_counter, monotonic=time.monotonic,
           time_ns=time.time_ns, perf_counter_ns=time.perf_counter_ns, monotonic_ns=time.monotonic_ns,
           process_time=time.process_time, sleep=time.sleep)


def _clk(name):
    real = _rt[name]

    def f():
        k = K()
        if k is None:
            return real()
        t = k.clock.advance()
        k.counters["clock_reads"] = k.counters.get("clock_reads", 0) + 1
        if name.startswith("time"):
            v = t
        else:
            v = k.clock.mono
        return int(v * 1e9) if name.endswith("_ns") else v

    f.__name__ = name
    return f


def _sleep(s):
    k = K()
    if k is None:
        return _rt["sleep"](s)
    k.clock.t += s
    k.clock.mono += s
    if k.alive > 1:
        k.yield_point()


_RealDate = datetime.date
_RealDateTime = datetime.datetime


class _DateMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _RealDate)

    def __subclasscheck__(cls, c):
        return issubclass(c, _RealDate)


class SimDate(_RealDate, metaclass=_DateMeta):
    @classmethod
    def today(cls):
        k = K()
        if k is None:
            return _RealDate.today()
        k.counters["clock_reads"] = k.counters.get("clock_reads", 0) + 1
        d = _RealDateTime.fromtimestamp(k.clock.advance(), datetime.timezone.utc)
        return _RealDate(d.year, d.month, d.day)


class _DateTimeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _RealDateTime)

    def __subclasscheck__(cls, c):
        return issubclass(c, _RealDateTime)


class SimDateTime(_RealDateTime, metaclass=_DateTimeMeta):
    @classmethod
    def now(cls, tz=None):
        k = K()
        if k is None:
            return _RealDateTime.now(tz)
        k.counters["clock_reads"] = k.counters.get("clock_reads", 0) + 1
        d = _RealDateTime.fromtimestamp(k.clock.advance(), datetime.timezone.utc)
        return d if tz is not None else d.replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.now()


# --------------------------------------------------------------------------
# linear solvers
# --------------------------------------------------------------------------
ISOLVERS = ["bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr"]


def _wrap_iter(mod, name):
    real = getattr(mod, name)

    def solver(A, b, *args, **kw):
        k = K()
        if k is None:
            return real(A, b, *args, **kw)
        import numpy as np

        n = k.count("solver")
        k.solver_calls += 1
        k.counters["solves"] = k.counters.get("solves", 0) + 1
        k.counters.setdefault("solver_used", {})
        k.counters["solver_used"][name] = k.counters["solver_used"].get(name, 0) + 1
        log = [k.cur_op, name, 0, False, len(k.solver_log)]
        k.solver_log.append(log)
        f = k.seam_fault("solver", n)
        if f is not None:
            mode = f["mode"]
            k.fire(f, name)
            if mode == "memory":
                raise MemoryError("injected in " + name)
            if mode == "interrupt":
                raise KeyboardInterrupt("injected in " + name)
            N = A.shape[0]
            if mode == "nonconv":  # iteration limit reached: a plausible but wrong answer
                x = np.full(N, float(np.mean(np.abs(np.asarray(b)))) + 1.0)
                return x, max(1, f.get("code", 10 * N))
            if mode == "breakdown":
                return np.zeros(N), -abs(f.get("code", 10))
            if mode == "nan":
                x = np.ones(N) * 1000.0
                x[f.get("i", 0) % N] = np.nan
                return x, 0
            if mode in ("inf", "-inf"):
                x = np.ones(N) * 1000.0
                x[f.get("i", 0) % N] = float(mode)
                return x, 0
            raise np.linalg.LinAlgError("injected in " + name)
        if kw.get("rtol", kw.get("tol", 1e-5)) > 1e-5 or float(kw.get("atol", 0) or 0) > 1e-5 * np.linalg.norm(np.asarray(b)):
            # the caller settles for less than the solver's default: what comes back is what counts
            x, code = real(A, b, *args, **kw)
            log[2] = 1 if code != 0 or not np.all(np.isfinite(x)) else 0
            return x, code
        else:
            # the library leaves the tolerance to the solver's default; the
            # simulator asks for a converged answer so results are comparable
            kw2 = {a: v for a, v in kw.items() if a not in ("rtol", "tol")}
            bn, bv = np.linalg.norm(np.asarray(b)), np.asarray(b).reshape(-1)
            kw3 = {a: v for a, v in kw2.items() if a not in ("x0", "callback")}
            for rt in (1e-12, 1e-5):
                x, code = real(A, b, *args, rtol=rt, **kw2)
                for _ in range(8):
                    if code != 0 or not np.all(np.isfinite(x)):
                        break
                    # the recurrences drift: judge by the true residual
                    r = bv - A @ np.asarray(x).reshape(-1)
                    if np.linalg.norm(r) <= 1e-11 * bn:
                        return x, code
                    e, code = real(A, r, rtol=rt ** 0.5, **kw3)
                    x = x + np.reshape(e, np.shape(x))
        x, code = real(A, b, *args, **kw)
        log[2] = 1 if code != 0 or not np.all(np.isfinite(x)) else 0
        log[3] = True
        k.counters["loose"] = k.counters.get("loose", 0) + 1
        return x, code

    solver.__name__ = name
    return solver


def _wrap_direct(mod, name, kind):
    real = getattr(mod, name)

    def solve(A, b, *args, **kw):
        k = K()
        if k is None or not _from_repo(2):
            return real(A, b, *args, **kw)
        import numpy as np

        n = k.count("solver")
        k.solver_calls += 1
        k.counters["solves"] = k.counters.get("solves", 0) + 1
        k.counters.setdefault("solver_used", {})
        k.counters["solver_used"][kind] = k.counters["solver_used"].get(kind, 0) + 1
        log = [k.cur_op, kind, 0, False, len(k.solver_log)]
        k.solver_log.append(log)
        f = k.seam_fault("solver", n)
        if f is not None:
            mode = f["mode"]
            k.fire(f, kind)
            N = A.shape[0]
            if mode == "memory":
                raise MemoryError("injected in " + kind)
            if mode == "interrupt":
                raise KeyboardInterrupt("injected in " + kind)
            shape = (N,) if kind == "spsolve" else np.asarray(b).shape
            if mode in ("nan", "breakdown", "nonconv"):
                if kind == "spsolve":
                    # what SuperLU does on a singular matrix: warn and fill NaN
                    from scipy.sparse.linalg import MatrixRankWarning

                    warnings.warn("Matrix is exactly singular", MatrixRankWarning, stacklevel=2)
                    return np.full(shape, np.nan)
                if mode == "nan":
                    x = np.ones(shape) * 1000.0
                    x.flat[f.get("i", 0) % N] = np.nan
                    return x
                raise np.linalg.LinAlgError("Matrix is singular.")
            if mode in ("inf", "-inf"):
                x = np.ones(shape) * 1000.0
                x.flat[f.get("i", 0) % N] = float(mode)
                return x
            raise np.linalg.LinAlgError("injected in " + kind)
        try:
            x = real(A, b, *args, **kw)
        except np.linalg.LinAlgError:
            log[2] = 1
            raise
        log[2] = 0 if np.all(np.isfinite(x)) else 1
        return x

    solve.__name__ = name
    return solve


# --------------------------------------------------------------------------
# files
# --------------------------------------------------------------------------
_real_open = io.open
_real_os = {n: getattr(os, n) for n in ("replace", "rename", "fsync")}


class FaultFile:
    """Wraps a file opened for writing inside the run's scratch directory."""

    def __init__(self, f, k, path):
        self._f = f
        self._k = k
        self._path = path
        self._n = 0

    def _op(self, what, data=None):
        k = self._k
        n = k.count("io")
        k.counters["io_ops"] = k.counters.get("io_ops", 0) + 1
        f = k.seam_fault("io", n)
        if f is None:
            return
        import errno

        mode = f["mode"]
        k.fire(f, what)
        if data is not None and mode in ("torn", "enospc", "interrupt"):
            cut = int(len(data) * f.get("frac", 0.5))
            self._f.write(data[:cut])
            self._f.flush()
        if mode == "interrupt":
            raise KeyboardInterrupt("injected in " + what)
        err = {"enospc": errno.ENOSPC, "torn": errno.EIO, "eio": errno.EIO}.get(mode, errno.EIO)
        raise OSError(err, os.strerror(err), self._path)

    def write(self, data):
        self._op("write", data)
        return self._f.write(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        self._op("flush")
        return self._f.flush()

    def close(self):
        if self._f.closed:
            return
        try:
            self._op("close")
        except BaseException:
            try:
                self._f.close()
            except Exception:
                pass
            raise
        return self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, n):
        return getattr(self._f, n)


def _open(file, mode="r", *a, **kw):
    k = K()
    if k is None or k.scratch is None or not any(c in mode for c in "wax+"):
        return _real_open(file, mode, *a, **kw)
    try:
        path = os.path.abspath(os.fspath(file))
    except TypeError:
        return _real_open(file, mode, *a, **kw)
    if not path.startswith(k.scratch):
        # nothing the code under test writes may leave the scratch directory
        path2 = os.path.join(k.scratch, "outside_" + os.path.basename(path))
        k.counters["escaped_writes"] = k.counters.get("escaped_writes", 0) + 1
        path = path2
    n = k.count("io")
    k.counters["io_ops"] = k.counters.get("io_ops", 0) + 1
    f = k.seam_fault("io", n)
    if f is not None:
        import errno

        k.fire(f, "open")
        if f["mode"] == "interrupt":
            raise KeyboardInterrupt("injected in open")
        e = errno.ENOSPC if f["mode"] == "enospc" else errno.EACCES
        raise OSError(e, os.strerror(e), path)
    real = _real_open(path, mode, *a, **kw)
    if "b" in mode:
        return FaultFile(real, k, path)
    return FaultFile(real, k, path)


def _os_fn(name):
    real = _real_os[name]

    def f(*a, **kw):
        k = K()
        if k is not None and _from_repo(2):
            n = k.count("io")
            flt = k.seam_fault("io", n)
            if flt is not None:
                import errno

                k.fire(flt, name)
                raise OSError(errno.EIO, os.strerror(errno.EIO))
        return real(*a, **kw)

    return f


# --------------------------------------------------------------------------
def load():
    """Import third parties, patch the seams, import the library."""
    if "reservoirflow" in sys.modules:
        return sys.modules["reservoirflow"]
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import scipy.linalg
    import scipy.sparse.linalg
    import sympy  # noqa: F401
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import tqdm

    try:
        import pyvista  # noqa: F401
    except Exception:
        pass
    try:
        import line_profiler  # noqa: F401
    except Exception:
        pass
    import pandas.io.formats.csvs  # noqa: F401

    tqdm.tqdm.monitor_interval = 0
    # --- seams
    concurrent.futures.ThreadPoolExecutor = PoolClass
    concurrent.futures.thread.ThreadPoolExecutor = PoolClass
    concurrent.futures.as_completed = _as_completed
    concurrent.futures.wait = _wait
    threading.Thread = SimAwareThread
    threading.Lock = _factory(_RealLock, SimLock)
    threading.RLock = _factory(_RealRLock, SimRLock)
    threading.Condition = _factory(_RealCondition, SimCondition)
    threading.Event = _factory(_RealEvent, SimEvent)
    threading.Semaphore = _factory(_RealSemaphore, SimSemaphore)
    threading.BoundedSemaphore = _factory(_RealBounded, SimSemaphore)
    for n in ("time", "perf_counter", "monotonic", "time_ns", "perf_counter_ns", "monotonic_ns", "process_time"):
        setattr(time, n, _clk(n))
    time.sleep = _sleep
    datetime.date = SimDate
    datetime.datetime = SimDateTime
    for n in ISOLVERS:
        setattr(scipy.sparse.linalg, n, _wrap_iter(scipy.sparse.linalg, n))
    scipy.sparse.linalg.spsolve = _wrap_direct(scipy.sparse.linalg, "spsolve", "spsolve")
    scipy.linalg.solve = _wrap_direct(scipy.linalg, "solve", "solve")
    numpy.linalg.solve = _wrap_direct(numpy.linalg, "solve", "npsolve")
    builtins.open = _open
    io.open = _open
    for n in _real_os:
        setattr(os, n, _os_fn(n))
    # --- the library, from source, never from stale byte code
    sys.path.insert(0, REPO)
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "rfsim-no-such-cache")
    import reservoirflow as rf

    got = os.path.realpath(os.path.dirname(rf.__file__))
    assert got == os.path.realpath(PKG), f"imported {got}"
    for m in pkgutil.walk_packages(rf.__path__, "reservoirflow."):
        if ".tests" in m.name or m.name.endswith("__main__"):
            continue
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
    from . import draw

    draw.patch()
    kernel.install()
    return rf
