"""Deterministic simulation kernel.

One process, one baton.  Every thread of the system under test is a real OS
thread that only runs while it holds the baton; the kernel decides who holds
it.  Pre-emption points are the `sys.monitoring` LINE (or INSTRUCTION) events
of code objects whose source lies in the repository, so no hook in the
repository is needed and the points follow the code when it is rewritten.
Every decision (who runs next, which fault fires where, what the clock says)
is a pure function of the scenario, which is plain JSON.
"""
import ast
import os
import random
import sys
import threading as _rt
import types

REPO = os.environ.get("RF_REPO", "/repo")
PKG = os.path.join(REPO, "reservoirflow") + os.sep
TOOL = 4
MON = sys.monitoring
EV = MON.events

_Lock = _rt.Lock
_RLock = _rt.RLock
_Thread = _rt.Thread
_get_ident = _rt.get_ident


class SimAbort(BaseException):
    """Internal: the execution is over (deadlock, budget)."""


class _Killed(BaseException):
    pass


EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RuntimeError": RuntimeError,
    "OSError": OSError,
    "ValueError": ValueError,
}


# --------------------------------------------------------------------------
# source classification (handler lines)
# --------------------------------------------------------------------------
_handler_cache = {}


def handler_lines(filename):
    """Lines that belong to `except`/`finally` bodies of a source file.

    Asynchronous faults are not delivered while such a body is executing: no
    Python program can be made safe against a second fault inside its own
    clean-up code, so that is outside the fault model.
    """
    got = _handler_cache.get(filename)
    if got is not None:
        return got
    lines = set()
    try:
        with open(filename, "rb") as f:
            tree = ast.parse(f.read())
        for node in ast.walk(tree):
            if isinstance(node, ast.Try):
                for h in node.handlers:
                    for st in h.body:
                        lines.update(range(st.lineno, st.end_lineno + 1))
                    lines.add(h.lineno)
                for st in node.finalbody:
                    lines.update(range(st.lineno, st.end_lineno + 1))
                # nothing happens between a statement and the `try:` after it
                lines.add(node.lineno)
    except Exception:
        pass
    got = frozenset(lines)
    _handler_cache[filename] = got
    return got


_exit_cache = {}


def exit_offsets(code):
    """Offsets of the instructions that leave `with` blocks.

    The interpreter looks for interrupts after calls and jumps, so none arrives
    between the end of a `with` body and the start of its `__exit__`.
    """
    got = _exit_cache.get(code)
    if got is None:
        import dis

        out = set()
        ins = list(dis.get_instructions(code))
        for i, x in enumerate(ins):
            if x.opname in ("WITH_EXCEPT_START", "PUSH_EXC_INFO"):
                out.add(x.offset)
            elif x.opname == "LOAD_CONST" and [y.opname for y in ins[i:i + 4]] == ["LOAD_CONST"] * 3 + ["CALL"] and all(
                    y.argval is None for y in ins[i:i + 3]) and ins[i + 3].arg == 2:
                out.update(y.offset for y in ins[i:i + 4])
        got = _exit_cache[code] = frozenset(out)
    return got


def in_cleanup(frame):
    """is the running frame of the repository cleaning up?"""
    return frame.f_lasti in exit_offsets(frame.f_code) or in_handler(frame)


def in_handler(frame):
    while frame is not None:
        fn = frame.f_code.co_filename
        if fn.startswith(PKG):
            if frame.f_lineno in handler_lines(fn):
                return True
            # generator-based or class based clean-up (context managers,
            # destructors) is clean-up as well
            if frame.f_code.co_name in ("__exit__", "__del__"):
                return True
        frame = frame.f_back
    return False


# --------------------------------------------------------------------------
# instrumentation
# --------------------------------------------------------------------------
_codes = set()


def _collect_code(co, out):
    if co in out or not co.co_filename.startswith(PKG):
        return
    out.add(co)
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            _collect_code(c, out)


_known_codes = set()


def repo_codes():
    """code objects of the repository (found before the collector is frozen, plus those made since)"""
    import gc

    out = _known_codes
    for o in gc.get_objects():
        if type(o) is types.FunctionType:
            _collect_code(o.__code__, out)
    return out


K = None  # the active kernel of this (forked) process


def _on_line(code, line):
    k = K
    if k is not None:
        k.event(code, line)


def _on_instr(code, off):
    k = K
    if k is not None:
        k.event(code, -off - 1)


_installed = False


def install():
    """Register the tool and the callbacks (once, in the parent)."""
    global _installed
    if _installed:
        return
    MON.use_tool_id(TOOL, "rfsim")
    MON.register_callback(TOOL, EV.LINE, _on_line)
    MON.register_callback(TOOL, EV.INSTRUCTION, _on_instr)
    _installed = True


def instrument(gran):
    ev = {"off": 0, "line": EV.LINE, "instr": EV.INSTRUCTION}[gran]
    for co in repo_codes():
        MON.set_local_events(TOOL, co, ev)


# --------------------------------------------------------------------------
# threads
# --------------------------------------------------------------------------
RUN, BLOCK, DONE = "run", "block", "done"
PENDING = "interrupt pending"


class SimThread:
    __slots__ = (
        "tid", "name", "sem", "state", "pred", "why", "ident", "events", "ops",
        "real", "daemon", "exc", "prio", "role",
    )

    def __init__(self, tid, name, role):
        self.tid = tid
        self.name = name
        self.role = role
        self.sem = _Lock()
        self.sem.acquire()
        self.state = RUN
        self.pred = None
        self.why = ""
        self.ident = None
        self.events = 0
        self.real = None
        self.daemon = False
        self.exc = None
        self.prio = 0.0


class Kernel:
    def __init__(self, sched=None, faults=(), clock=None, budget=3_000_000, profile=False):
        self.sched = dict(sched or {"kind": "default"})
        self.kind = self.sched.get("kind", "default")
        self.gran = self.sched.get("gran", "line")
        self.rng = random.Random(f"sched:{self.sched.get('seed', 0)}")
        self.p = self.sched.get("p", 0.05)
        self.list = {int(a): int(b) for a, b in self.sched.get("list", [])}
        self.budget = budget
        self.threads = []
        self.by_ident = {}
        self.ynum = 0
        self.switches = []      # (yield index, tid chosen) where it differs from the default
        self.order_hash = 0
        self.nswitch = 0
        self.alive = 0
        self.profile = profile
        self.prof = {}          # op -> list of line ids (profile runs)
        self.line_ids = {}
        self.lines = []
        self.cur_op = -1
        self.op_events = 0
        self.op_tevents = {}
        self.faults = [dict(f) for f in faults]
        self.line_faults = {}
        self.fired = []
        self.abort_info = None
        self.on_abort = None
        self.counters = {}
        self.covered = set()
        self.now = 0.0
        self.clock = ClockModel(clock)
        self.thread_starts = 0
        self.solver_calls = 0
        self.op_counts = {}
        if self.kind == "pct":
            r = random.Random(f"pct:{self.sched.get('seed', 0)}")
            n = self.sched.get("len", 2000)
            self.change_points = sorted(r.randrange(1, max(2, n)) for _ in range(self.sched.get("d", 3)))
            self._prio_rng = r
        main = SimThread(0, "main", "main")
        main.ident = _get_ident()
        main.prio = 1.0
        self.threads.append(main)
        self.by_ident[main.ident] = main
        self.current = main
        self.alive = 1

    # ---------------------------------------------------------------- ops
    def begin_op(self, idx, thread=None):
        """Start of a client operation: fault positions are relative to it."""
        t = self.me()
        if t is not None and t.role == "actor":
            pass
        self.cur_op = idx
        self.op_events = 0
        self.op_tevents = {}
        self.op_counts = {}
        self.line_faults = {}
        for f in self.faults:
            if f.get("op") == idx and not f.get("fired") and f["kind"] == "line":
                self.line_faults[(f.get("tid", 0), f["n"])] = f
        if self.profile:
            self.prof.setdefault(idx, [])

    def actor_op(self, fault):
        """start (or, without a fault, end) of an operation of a caller thread"""
        t = self.me()
        self.line_faults = {k: f for k, f in self.line_faults.items() if k[0] != t.tid}
        if fault is not None and not fault.get("fired"):
            self.line_faults[(t.tid, self.op_tevents.get(t.tid, 0) + fault["n"])] = fault

    def end_op(self):
        self.cur_op = -1
        self.line_faults = {}

    def count(self, what):
        """ordinal (0-based) of this seam event inside the current operation"""
        n = self.op_counts.get(what, 0)
        self.op_counts[what] = n + 1
        return n

    def seam_fault(self, what, n):
        for f in self.faults:
            if f["kind"] == what and f.get("op") == self.cur_op and f.get("n") == n and not f.get("fired"):
                return f
        return None

    def fire(self, f, where=""):
        f["fired"] = True
        self.fired.append((f["kind"], f.get("mode") or f.get("exc") or "", str(where)))

    def me(self):
        return self.by_ident.get(_get_ident())

    # ---------------------------------------------------------------- events
    def event(self, code, line):
        t = self.by_ident.get(_get_ident())
        if t is None or t is not self.current:
            return
        self.op_events += 1
        n = self.op_tevents.get(t.tid, 0)
        self.op_tevents[t.tid] = n + 1
        if self.profile and self.cur_op >= 0:
            key = (code.co_filename[len(PKG):], code.co_qualname, line)
            i = self.line_ids.get(key)
            if i is None:
                i = self.line_ids[key] = len(self.lines) + 1
                self.lines.append(key)
            frame = sys._getframe(2)
            self.prof[self.cur_op].append((t.tid, -i if in_cleanup(frame) else i))
        if self.line_faults:
            f = self.line_faults.get((t.tid, n))
            if f is not None:
                if in_cleanup(sys._getframe(2)):
                    # position moved into clean-up code: deliver at the next point
                    del self.line_faults[(t.tid, n)]
                    self.line_faults[(t.tid, n + 1)] = f
                else:
                    del self.line_faults[(t.tid, n)]
                    self.fire(f, f"{code.co_qualname}:{line}")
                    raise EXC[f["exc"]]("injected")
        if self.alive > 1:
            self.yield_point()
        elif self.op_events > self.budget:
            self.abort("budget", f"no progress: more than {self.budget} events in one operation")

    # ---------------------------------------------------------------- scheduling
    def runnable(self, t):
        if t.state == RUN:
            return True
        if t.state == BLOCK:
            return bool(t.pred())
        return False

    def yield_point(self):
        cur = self.current
        self.ynum += 1
        y = self.ynum
        if y > self.budget:
            self.abort("budget", f"no progress within {self.budget} scheduling points")
        kind = self.kind
        nxt = None
        if kind == "random":
            if self.rng.random() < self.p:
                c = [t for t in self.threads if t is not cur and self.runnable(t)]
                if c:
                    nxt = c[self.rng.randrange(len(c))]
        elif kind == "list":
            tid = self.list.get(y)
            if tid is not None and tid < len(self.threads):
                t = self.threads[tid]
                if t is not cur and self.runnable(t):
                    nxt = t
        elif kind == "pct":
            if self.change_points and y >= self.change_points[0]:
                self.change_points.pop(0)
                cur.prio = -self._prio_rng.random() - y
            best = cur
            for t in self.threads:
                if t is not cur and t.prio > best.prio and self.runnable(t):
                    best = t
            if best is not cur:
                nxt = best
        if nxt is not None:
            self.switches.append((y, nxt.tid))
            self._switch(nxt)

    def _switch(self, nxt):
        cur = self.current
        self.nswitch += 1
        self.order_hash = hash((self.order_hash, self.ynum, nxt.tid))
        nxt.state = RUN
        nxt.pred = None
        self.current = nxt
        nxt.sem.release()
        cur.sem.acquire()
        self._check_kill()

    def _check_kill(self):
        if self.abort_info is not None and self.me() is not self.threads[0]:
            raise _Killed()

    def _pick_blocked(self, cur):
        """choose the next thread when `cur` cannot go on"""
        self.ynum += 1
        c = [t for t in self.threads if t is not cur and self.runnable(t)]
        if not c:
            # nobody else can go on: the pending interrupt arrives now
            c = [t for t in self.threads if t is not cur and t.state == BLOCK and t.why == PENDING]
        if not c:
            return None
        kind = self.kind
        default = c[0]
        nxt = default
        if kind == "random":
            nxt = c[self.rng.randrange(len(c))]
        elif kind == "list":
            tid = self.list.get(self.ynum)
            if tid is not None:
                for t in c:
                    if t.tid == tid:
                        nxt = t
        elif kind == "pct":
            nxt = max(c, key=lambda t: t.prio)
        if nxt is not default:
            self.switches.append((self.ynum, nxt.tid))
        return nxt

    def block(self, pred, why, interruptible=True):
        """Current thread waits (cooperatively) until pred() holds."""
        cur = self.current
        if interruptible and cur.tid == 0:
            n = self.count("wait")
            f = self.seam_fault("wait", n)
            if f is not None and not in_handler(sys._getframe(1)):
                # an interrupt delivered while the main thread is waiting: let
                # the others advance a little first, as a real wait would
                adv = int(f.get("advance", 0))
                self._advance(cur, adv)
                self.fire(f, why)
                raise KeyboardInterrupt("injected while waiting")
        guard = 0
        while not pred():
            guard += 1
            cur.state = BLOCK
            cur.pred = pred
            cur.why = why
            nxt = self._pick_blocked(cur)
            if nxt is None:
                if pred():
                    break
                self.abort("deadlock", "; ".join(f"{t.name}: {t.why}" for t in self.threads if t.state == BLOCK))
            self._switch(nxt)
        cur.state = RUN
        cur.pred = None

    def _advance(self, cur, n):
        target = self.ynum + n
        cur.state = BLOCK
        cur.pred = lambda: self.ynum >= target
        cur.why = PENDING
        nxt = self._pick_blocked(cur) if n else None
        if nxt is not None:
            self._switch(nxt)
        cur.state = RUN
        cur.pred = None

    def spawn(self, fn, name, role="worker"):
        """Start a simulated thread; may fail like the real call."""
        n = self.count("thread_start")
        self.thread_starts += 1
        f = self.seam_fault("thread_start", n)
        if f is not None:
            self.fire(f, name)
            raise RuntimeError("can't start new thread")
        t = SimThread(len(self.threads), name, role)
        if self.kind == "pct":
            t.prio = self._prio_rng.random()
        self.threads.append(t)

        started = _Lock()
        started.acquire()

        def body():
            t.ident = _get_ident()
            self.by_ident[t.ident] = t
            started.release()
            t.sem.acquire()
            try:
                self._check_kill()
                fn()
            except _Killed:
                return
            except BaseException as e:  # noqa: BLE001
                t.exc = e
            self._finish(t)

        t.real = _Thread(target=body, name=name, daemon=True)
        t.real.start()
        started.acquire()  # the new thread exists and waits for the baton
        self.alive += 1
        # pre-emption point right after a start
        self.yield_point()
        return t

    def _finish(self, t):
        t.state = DONE
        self.alive -= 1
        nxt = self._pick_blocked(t)
        if nxt is None:
            blocked = [x for x in self.threads if x.state == BLOCK]
            if blocked:
                self.abort("deadlock", "; ".join(f"{x.name}: {x.why}" for x in blocked), from_dead=True)
            return
        self.nswitch += 1
        self.order_hash = hash((self.order_hash, self.ynum, nxt.tid))
        nxt.state = RUN
        nxt.pred = None
        self.current = nxt
        nxt.sem.release()

    def abort(self, kind, detail, from_dead=False):
        self.abort_info = (kind, detail)
        if self.on_abort:
            self.on_abort(kind, detail)  # reports and _exits the process
        raise SimAbort(kind)

    def join_all(self, threads):
        self.block(lambda: all(t.state == DONE for t in threads), "join callers", interruptible=False)


# --------------------------------------------------------------------------
# simulated clock
# --------------------------------------------------------------------------
class ClockModel:
    """Simulated time.  Every read advances it; scripted reads jump."""

    def __init__(self, spec):
        spec = spec or {}
        self.t = float(spec.get("start", 1_700_000_000.0))
        self.tick = float(spec.get("tick", 0.001))
        self.jumps = {int(a): float(b) for a, b in spec.get("jumps", [])}
        self.armed = not spec.get("armed_later")
        self.reads = 0
        self.njumps = 0
        self.start = self.t
        self.mono = 0.0

    def advance(self):
        if not self.armed:
            return self.t
        self.t += self.tick
        self.mono += self.tick
        self.reads += 1
        j = self.jumps.get(self.reads)
        if j is not None:
            self.t += j
            self.njumps += 1
            if j > 0:
                self.mono += min(j, 10.0)
        return self.t
