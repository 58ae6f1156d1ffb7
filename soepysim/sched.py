"""Seam for control flow: every executed line of the package is an event the simulator sees first.

At each event the simulator may switch to another simulated caller thread (exactly one runs at a time)
or raise an exception there (a crash: KeyboardInterrupt, MemoryError, an OS error).  Switches are only
taken in the package's own eager Python code, never while JAX is tracing through it, so that a parked
thread holds no lock of JAX's.  Locks the package creates are replaced by cooperative ones.
"""
import os
import sys
import threading

from . import env

TOOL = 3
mon = sys.monitoring


class Deadlock(BaseException):
    pass


class Stop(BaseException):
    """Unwinds a simulated thread whose run is over (deadlock or step limit)."""


class LineEvents:
    """Delivers one callback per executed source line of the package (not its tests)."""

    def __init__(self, callback):
        self.callback = callback

    def __enter__(self):
        codes = env_codes()
        mon.use_tool_id(TOOL, "soepysim")
        mon.register_callback(TOOL, mon.events.LINE, self.callback)
        for c in codes:
            mon.set_local_events(TOOL, c, mon.events.LINE)
        return self

    def __exit__(self, *exc):
        for c in env_codes():
            mon.set_local_events(TOOL, c, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
        return False


_codes = []


def env_codes():
    return _codes


def watch_only(codes):
    """Deliver events of this copy of the package from now on."""
    _codes[:] = codes


def collect(codes):
    """Register the code objects of a freshly imported package (recursively, without module bodies)."""
    _codes.clear()
    seen = set()

    def rec(c, top):
        if id(c) in seen:
            return
        seen.add(id(c))
        if not top:
            _codes.append(c)
        for k in c.co_consts:
            if hasattr(k, "co_code"):
                rec(k, False)

    for c in codes:
        rec(c, True)
    return list(_codes)


def tracing_through_jax(frame):
    """Is this package frame being traced (or vmapped) by JAX further up the stack?"""
    f = frame
    while f is not None:
        fn = f.f_code.co_filename
        if f"{os.sep}jax{os.sep}_src{os.sep}" in fn:
            return True
        if fn.endswith("soepysim/sched.py"):
            return False
        f = f.f_back
    return False


# ------------------------------------------------------------------------ profile


class Profile(LineEvents):
    """Records the sequence of events of one call: [(function, line, inside_jax)]."""

    def __init__(self, limit=400_000):
        self.events = []
        self.limit = limit
        super().__init__(self._line)

    def _line(self, code, line):
        if len(self.events) < self.limit:
            self.events.append((code.co_qualname, line))


def profile(fn):
    """Run fn() and return (value, events)."""
    with Profile() as p:
        val = fn()
    return val, p.events


# ------------------------------------------------------------------ crash points


EXC = {
    "KeyboardInterrupt": lambda: KeyboardInterrupt("injected"),
    "MemoryError": lambda: MemoryError("injected"),
    "OSError": lambda: OSError(5, "Input/output error (injected)"),
    "RuntimeError": lambda: RuntimeError("injected"),
}


class Crash(LineEvents):
    """Raises an exception at the k-th line event."""

    def __init__(self, k, kind):
        self.k, self.kind, self.count, self.at, self.exc = k, kind, 0, None, None
        super().__init__(self._line)

    def _line(self, code, line):
        if self.at is not None:
            return
        if self.count == self.k:
            self.at = f"{code.co_qualname}:{line}"
            self.exc = EXC[self.kind]()
            raise self.exc
        self.count += 1


# ------------------------------------------------------------------- cooperative locks


class SimLock:
    """Lock/RLock the package sees: blocking is a scheduling decision, never a real wait."""

    def __init__(self, reentrant=False):
        self.owner, self.depth, self.reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.owner == me and self.reentrant:
            self.depth += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            s = _active.get("sched")
            if s is None or not s.yield_blocked(self):
                raise Deadlock("lock is never released")
        self.owner, self.depth = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


_active = {}
_real = {"Lock": threading.Lock, "RLock": threading.RLock}


def install_locks():
    def from_package():
        fn = sys._getframe(2).f_code.co_filename
        return fn.startswith(os.path.join(env.REPO, "soepy"))

    def lock(*a, **k):
        return SimLock() if from_package() else _real["Lock"](*a, **k)

    def rlock(*a, **k):
        return SimLock(True) if from_package() else _real["RLock"](*a, **k)

    threading.Lock, threading.RLock = lock, rlock


# ----------------------------------------------------------------------- scheduler


class Scheduler(LineEvents):
    """Runs callables as threads, one at a time, switching where the schedule says.

    schedule: list of [steps, target]: after the running thread has executed ``steps`` further line
    events (counted over all threads since the last switch), hand over to thread ``target`` (taken
    modulo the runnable ones).  When the list is used up each thread runs to its end.
    """

    STALL = 150.0

    def __init__(self, fns, schedule, host_points=()):
        self.fns = fns
        self.schedule = [list(x) for x in schedule]
        self.pos, self.left = 0, (self.schedule[0][0] if self.schedule else None)
        n = len(fns)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.started = [False] * n
        self.out = [None] * n
        self.current = None
        self.main = threading.Semaphore(0)
        self.ident = {}
        self.trace = []  # (thread, function, line) at each switch taken
        self.switches = 0
        self.blocked = {}
        self.dead = None
        super().__init__(self._line)

    def grow(self):
        """A callable was added to ``fns`` after construction."""
        self.go.append(threading.Semaphore(0))
        self.done.append(False)
        self.started.append(False)
        self.out.append(None)

    # -- events
    def _line(self, code, line):
        me = self.ident.get(threading.get_ident())
        if me is None or self.current != me:
            return
        if self.dead:
            raise Stop()
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        if tracing_through_jax(sys._getframe(1)):
            return  # stays due; taken at the first later event outside JAX
        target = self.schedule[self.pos][1]
        self.pos += 1
        self.left = self.schedule[self.pos][0] if self.pos < len(self.schedule) else None
        others = [i for i in range(len(self.fns)) if not self.done[i] and i != me and not self._is_blocked(i)]
        if not others:
            return
        to = others[target % len(others)]
        self.trace.append((me, code.co_qualname, line, to))
        self.switches += 1
        self._switch(me, to)

    def host_point(self):
        """A voluntary event of a harness-level host thread (its code is not the package's)."""
        me = self.ident.get(threading.get_ident())
        if me is None or self.current != me:
            return
        others = [i for i in range(len(self.fns)) if not self.done[i] and i != me and not self._is_blocked(i)]
        if others:
            self.trace.append((me, "host", 0, others[0]))
            self._switch(me, others[0])

    def _is_blocked(self, i):
        lk = self.blocked.get(i)
        return lk is not None and lk.owner is not None

    def yield_blocked(self, lock):
        me = self.ident.get(threading.get_ident())
        if me is None:
            return False
        self.blocked[me] = lock
        others = [i for i in range(len(self.fns)) if not self.done[i] and i != me and not self._is_blocked(i)]
        if not others:
            self.dead = "deadlock"
            return False
        self._switch(me, others[0])
        self.blocked.pop(me, None)
        return True

    def _switch(self, me, to):
        self.current = to
        self.go[to].release()
        self.go[me].acquire()
        if self.dead and self.dead != "stall":
            raise Stop()

    # -- threads
    def _body(self, i):
        self.ident[threading.get_ident()] = i
        self.go[i].acquire()
        try:
            self.out[i] = ("ok", self.fns[i]())
        except Stop:
            self.out[i] = ("stopped", None)
        except BaseException as e:  # noqa: BLE001 - outcome of the simulated caller
            self.out[i] = ("raised", e)
        finally:
            self.done[i] = True
            rest = [j for j in range(len(self.fns)) if not self.done[j]]
            free = [j for j in rest if not self._is_blocked(j)]
            if rest and not free:
                self.dead = self.dead or "deadlock"
                free = rest
            if free:
                self.current = free[0]
                self.go[free[0]].release()
            else:
                self.main.release()

    def run(self):
        _active["sched"] = self
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.fns))]
        try:
            with self:
                for t in ths:
                    t.start()
                self.current = 0
                self.go[0].release()
                if not self.main.acquire(timeout=self.STALL):
                    self.dead = "stall"
        finally:
            _active.pop("sched", None)
        for t in ths:
            t.join(0.1 if self.dead == "stall" else 10)
        return self.out
